"""One valuation of a summary: the value it gives for particular parameter values, loops followed turn by turn.

Used to show that two summaries differ (a violation needs a witness), never to show that they agree."""
import random
from fractions import Fraction
from .term import *
from .decide import Val, NoEval, Opq


class Run(Val):
    conc = True

    def __init__(self, loops, env, turns=200, up=None):
        super().__init__(random.Random(1), [])
        self.loops, self.env, self.turns = loops, env, turns
        self.memo = dict(env)
        self.fins = {}
        self.why = up.why if up is not None else {}

    def fresh(self, key, ty):
        raise NoEval('free value of %s' % (ty,))

    def turn(self, k):
        return {}

    limb = None

    def child(self, more):
        c = type(self)(self.loops, dict(self.env, **{}) | more, self.turns, self)
        c.limb = self.limb
        return c

    def iters(self, lid):
        """evaluator of every turn, the last one being that of the exit"""
        r = self.fins.get(lid)
        if r is None:
            L = self.loops[lid]
            cur = {}
            for p, i, s in L.phis.values():
                try:
                    cur[p] = self.ev(i)
                except NoEval as ex:
                    self.why[p] = str(ex)
            r = []
            for k_ in range(self.turns):
                c = self.child(cur | self.turn(k_))
                r.append(c)
                hit = None
                for k, e in enumerate(L.exits):
                    if c.b(e[0]):
                        hit = k
                        break
                if hit is not None:
                    break
                nx = {}
                for p, i, s in L.phis.values():
                    try:
                        nx[p] = c.ev(s)
                    except NoEval as ex:
                        self.why[p] = str(ex)
                cur = nx
            else:
                raise NoEval('turns')
            r = (r, hit)
            self.fins[lid] = r
        return r

    def _ev(self, t):
        o = t.op
        if o == 'fin' and t.a[0] in self.loops:
            its, hit = self.iters(t.a[0])
            L = self.loops[t.a[0]]
            for p, i, s in L.phis.values():
                if p.a[1] == t.a[1]:
                    return its[-1].ev(p)
            raise NoEval('state')
        if o == 'exitsel' and t.a[0] in self.loops:
            return self.iters(t.a[0])[1]
        if o in ('and', 'or'):
            # one conjunct that is false (one disjunct that is true) settles it
            no = None
            for x in t.a:
                try:
                    if self.b(x) != (o == 'and'):
                        return o == 'or'
                except NoEval as ex:
                    no = no or ex
            if no is not None:
                raise no
            return o == 'and'
        if o == 'phi':
            raise NoEval('state: ' + self.why.get(t, str(t)).replace('state: ', ''))
        if o == 'sym':
            raise NoEval('free value %s %s' % t.a[:2])
        if o == 'lam':
            n = self.i(t.a[0], 'usize')
            if n > 1300:
                raise NoEval('long')
            return ('arr',) + tuple(self.child({t.a[1]: k}).ev(t.a[2]) for k in range(n))
        if o == 'updsub':
            s0, st, n, x = self.ev(t.a[0]), self.i(t.a[1], 'usize'), self.i(t.a[2], 'usize'), self.ev(t.a[3])
            if not all(isinstance(v, tuple) and v[0] == 'arr' for v in (s0, x)) or len(x) - 1 != n or st + n > len(s0) - 1:
                raise NoEval('updsub')
            return s0[:1 + st] + x[1:] + s0[1 + st + n:]
        if o == 'uninit':
            return ('arr',) + (None,) * self.i(t.a[0], 'usize')
        if o == 'big':
            n, v = self.i(t.a[1], 'usize'), sym('#b%d' % t.a[2], 'usize')
            r = Fraction(0 if t.a[0] == 'add' else 1)
            for k in range(n):
                x = self.child({v: k}).tv(t.a[3])
                r = r + x if t.a[0] == 'add' else r * x
            return r
        if o == 'forall':
            n = self.i(t.a[0], 'usize')
            return all(self.child({t.a[1] if isinstance(t.a[1], T) else sym('#b%d' % t.a[1], 'usize'): k}).b(t.a[2]) for k in range(n))
        if o == 't' and t.a[0] == 'rem':
            x, y = self.tv(t.a[1]), self.tv(t.a[2])
            if y == 0:
                raise NoEval('div0')
            return x - y * int(x / y)
        if o == 'setf':
            v = self.ev(t.a[0])
            if not isinstance(v, tuple) or v[0] != 'agg' or 3 + t.a[2] >= len(v):
                raise NoEval('setf')
            return v[:3 + t.a[2]] + (self.ev(t.a[3]),) + v[4 + t.a[2]:]
        if o == 'uninitv':
            return None
        if o == 'zst':
            return ('zst',)
        v = super()._ev(t)
        if isinstance(v, Opq):
            raise NoEval(o)
        return v

    def panicked(self, r, skip=()):
        """the kind of the panic that is reached, or None"""
        maybe = False
        for c, k, w in r.panics:
            if any(k.startswith(x) for x in skip):
                continue
            v = self.reached(c)
            if v is True:
                return k
            maybe = maybe or v is None
        return 'maybe' if maybe else None

    def reached(self, c, inside=frozenset()):
        """None: only in the turn in which a loop is left, which may be before the place is reached"""
        lids = {x.a[0] for x in subterms(c) if x.op == 'phi' and x not in self.memo}
        if not lids:
            return self.b(c)
        if c.op == 'and':
            for x in c.a:
                if not any(y.op == 'phi' and y not in self.memo for y in subterms(x)):
                    try:
                        if not self.b(x):
                            return False
                    except NoEval:
                        pass
        # the outermost of the loops whose state occurs
        for lid in sorted(lids):
            if lid not in self.loops:
                raise NoEval('loop')
            if lid in inside:
                raise NoEval('state: ' + '; '.join(self.why.get(x, '?') for x in subterms(c) if x.op == 'phi' and x.a[0] == lid and x not in self.memo))
            try:
                its, _ = self.iters(lid)
                for x in subterms(c):
                    if x.op == 'phi' and x.a[0] == lid:
                        its[0].ev(x)
            except NoEval:
                continue
            v = [x.reached(c, inside | {lid}) for x in its[:-1]]
            if any(x is True for x in v):
                return True
            try:
                v.append(its[-1].reached(c, inside | {lid}))
            except NoEval:
                v.append(None)
            return None if any(x is not False for x in v) else False
        raise NoEval('loop')
