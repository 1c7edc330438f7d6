"""Shared pieces of the compound-type checks: element-wise closed forms of results and their comparison."""
import re
from .common import *
from .bitsc import params, final
from sa.point import Point, Facts, Fail, closed, lin, unlin, bind
from sa.ring import agree
from sa.loops import LoopView

I, J = sym('i', 'usize'), sym('j', 'usize')


def roots(prog, name, ty=None, tr=None, arg=None):
    """functions called `name` on type `ty` (path regex), of trait `tr`, with trait argument regex `arg`"""
    out = []
    for b in prog.roots:
        if b.name != name:
            continue
        t = (b.j.get('itrait') or '').split('<')[0]
        if (tr is None) != (not t):
            continue
        if tr is not None and not t.endswith(tr):
            continue
        if ty is not None and not re.search(ty, b.path if tr is None else (selfs(prog, b) or '')):
            continue
        if arg is not None:
            a = (targs(prog, b) + [''])
            if not re.search(arg, ' '.join(a)):
                continue
        out.append(b)
    return out


def t_(op, *xs):
    if op in ('add', 'mul'):
        return rebuild('t', (op,) + tuple(sorted(xs, key=lambda x: x.id)))
    return rebuild('t', (op,) + xs)


def const(name, like='T'):
    return raw('tconst', name, like)


def BIG(op, n, f):
    v = sym('#spec', 'usize')
    h, body = bind(f(v), v)
    return raw('big', op, n, h, body)


def FORALL(n, f):
    v = sym('#spec%d' % FORALL.depth, 'usize')
    FORALL.depth += 1
    try:
        h, body = bind(f(v), v)
    finally:
        FORALL.depth -= 1
    return raw('forall', n, h, body)


FORALL.depth = 0


def path_of(steps):
    return tuple(('i', s) if isinstance(s, T) else ('f', s[0], s[1]) for s in steps)


def read(r, t, steps, pre):
    """closed form of t at a path of indices and fields"""
    return Point(r.loops).read(t, path_of(steps), Facts().plus(pre), {})


class Comp:
    """obligations about one function"""

    def whole(self, ins, outs, want, **kw):
        from .arb import whole
        return whole(self.rep, self.key, self.b, self.rule, self.r, ins, outs, want, **kw)

    def __init__(self, rep, prog, b, rule, key=None, **kw):
        self.rep, self.prog, self.b, self.rule = rep, prog, b, rule
        self.key = key or nicename(b)
        rep.saw(b.path)
        self.r, self.err = analyse(prog, b, **kw)
        if self.r is None:
            rep.ob(self.key, UNDECIDED, where(b), rule, self.err)
        else:
            self.p = params(prog, b, self.r)

    def __bool__(self):
        return self.r is not None

    def ob(self, what, v, d=None):
        self.rep.ob('%s: %s' % (self.key, what), v, where(self.b), self.rule, d)

    def final(self, i):
        return final(self.r, self.b, i)

    def at(self, what, t, steps, spec, pre=TRUE):
        """t at the path equals spec, for every index with pre"""
        try:
            x = read(self.r, t, steps, pre) if steps else closed(t, self.r.loops, pre)
        except Fail as f:
            v, d = UNDECIDED, 'no closed form: %s' % f
        else:
            v, d = self.agree(x, spec, pre)
        self.ob(what, *self.arbitrate(what, v, d, t, steps, spec, pre))

    def arbitrate(self, what, v, d, t, steps, spec, pre):
        """a difference of form stays undecided; a difference in value, however written, is reported"""
        import os
        from .arbc import probe
        if v == HOLD and not os.environ.get('SA_ARB'):
            return v, d
        pv, pd = probe(self, t, steps, spec, pre, hint=d.get('at') if isinstance(d, dict) else None)
        if os.environ.get('SA_ARB'):
            print('ARB', self.key, what, pv, str(pd)[:200])
        if pv == 'differs':
            return VIOLATED, (d if v == VIOLATED else pd)
        if pv == 'agrees' and v == VIOLATED:
            return UNDECIDED, ('same value at %d choices of dimensions and elements' % pd, d)
        return v, d

    def eq(self, what, x, spec, pre=TRUE):
        self.ob(what, *self.agree(x, spec, pre))

    def agree(self, x, spec, pre=TRUE):
        try:
            v, d = agree(x, spec, pre)
        except RecursionError:
            v, d = UNDECIDED, 'recursion'
        except (KeyError, IndexError, AttributeError, TypeError, AssertionError) as ex:
            if __import__('os').environ.get('SA_DEBUG'):
                raise
            v, d = UNDECIDED, repr(ex)
        return v, d

    def length(self, what, t, n, pre=TRUE):
        try:
            x = closed(LEN(t), self.r.loops, pre)
            v, d = same(x, n, pre)
        except Fail as f:
            v, d = UNDECIDED, 'no closed form: %s' % f
        self.ob(what, v, d)

    def quiet(self, pre=TRUE, kinds=None, skip=('overflow',)):
        """cannot panic (other than through the element type's own operations)"""
        bad = None
        for (c, k, w) in self.r.panics:
            if c is FALSE or any(k.startswith(x) for x in skip) or (kinds and not any(k.startswith(x) for x in kinds)):
                continue
            v, d = self.never(c, pre)
            if v != HOLD:
                bad = (v, {'panic': k, 'at': w, 'when': show(c, 8)[:300], 'witness': d})
                if v == VIOLATED:
                    break
        self.ob('does not panic', bad[0] if bad else HOLD, bad[1] if bad else None)

    def never(self, c, pre):
        return never(self.r, c, pre)


def never(r, c, pre=TRUE):
    """condition c, which may mention loop state inside its loop, cannot hold"""
    P = Point(r.loops)
    env, F = {}, Facts().plus(pre)
    try:
        lids = []
        for x in subterms(c):
            if x.op == 'phi' and x.a[0] not in lids:
                lids.append(x.a[0])
        # enclosing loops first: their state occurs in the bounds of the inner ones
        todo = list(lids)
        guard = pre
        for _ in range(len(lids) + 1):
            rest = []
            for lid in todo:
                v = P.view(lid)
                u = sym('#at%s' % abs(hash(lid)), 'usize')
                try:
                    env[lid] = u
                    n = P.trips(lid, F, {k: w for k, w in env.items() if k != lid})
                    g = LT(u, n)
                    F = F.plus(g)
                    guard = AND(guard, g)
                except Fail:
                    env.pop(lid, None)
                    rest.append(lid)
            todo = rest
            if not todo:
                break
        if todo:
            return UNDECIDED, 'loop bounds'
        d = P.res(c, F, env)
        d = F.cond(d)
    except Fail as f:
        return UNDECIDED, str(f)
    if d is FALSE:
        return HOLD, None
    v, w = same(AND(guard, d), FALSE)
    if v == VIOLATED and any(x.op in ('big', 'forall', 'tcall', 'call', 'op') for x in subterms(d)):
        return UNDECIDED, w
    return v, w


def nicename(b):
    s = re.sub(r'numeric_\w+::(\w+::)*', '', b.path)
    return re.sub(r'core::(\w+::)+', '', s)
