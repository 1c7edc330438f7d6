"""P19 - fixed-length iteration visits every position once, in order, and delivers each item where it belongs."""
from .compc import *
from sa.loops import Spec, compare, shifted, IT, resub, LoopView
from sa.engine import ADTS
from sa.conc import Run
from sa.decide import NoEval, Opq, Val, eta
import random

RULE = ('Consumers are loops whose recurrence (carried accumulator, iterator state, exits) is compared one step at a time with the recurrence of the definition, '
        'the items being an uninterpreted sequence and callbacks, element operations and nested collectors uninterpreted functions; the index handed to the source is '
        'compared with the number of items already taken. Sources and adapters are compared at a symbolic position of a symbolic length.')

SI = 'StaticIter'


def iscall(x, name):
    return x.op == 'call' and str(x.a[0]).split('::')[-1] == name


def bare(x):
    """call behind a scalar-typed wrapper"""
    return x.a[1] if x.op == 'tcall' else x


def hook(prog):
    """provided consumers are followed into their default bodies"""
    dfl = {b.name: b for b in prog.roots if b.path.endswith('::StaticIter::' + b.name) and not b.j.get('itrait')}

    def h(eng, fr, s, c, args, atys, dty, cond, where_):
        nm = c['p'].split('::')[-1]
        if c['p'].endswith('StaticIter::' + nm) and nm in ('fold', 'try_fold', 'any', 'all', 'sum', 'product') and 'inst' not in c and nm in dfl and eng.inlinable(c, dfl[nm]):
            return eng.inline(s, dfl[nm], args, cond, where_)
        return NotImplemented
    return h


class Items:
    """the source of a loop: iterator state with one `idx` per round becomes an indexed sequence"""

    def __init__(self, r):
        self.bad = None
        self.asked = []          # (loop or None, source, index term)
        self.loops = {}
        src = {}
        for lid, L in r.loops.items():
            for k, (p, init, step) in L.phis.items():
                s = step
                if s.op == 'out' and s.a[1] == 0:
                    q = bare(s.a[0])
                    if iscall(q, 'idx') and q.a[2] is p:
                        src[p] = (lid, k, init)
                        self.asked.append((lid, init, q.a[3]))
                        self.q = s.a[0]
                elif any(x.op == 'out' and iscall(bare(x.a[0]), 'idx') for x in subterms(step)) and not isseqlike(p):
                    self.bad = 'the source is advanced conditionally or more than once per round'
        self.src = src

        def f(x):
            if x.op == 'call' and iscall(x, 'idx') and x.a[2] in src:
                return raw('call', x.a[0], x.a[1], src[x.a[2]][2], subst(x.a[3], f))
            if x.op == 'call' and iscall(x, 'idx') and x.a[2].op == 'fin':
                p = raw('phi', x.a[2].a[0], x.a[2].a[1], x.a[2].a[2])
                if p in src:
                    return raw('call', x.a[0], x.a[1], src[p][2], subst(x.a[3], f))
            return None
        self.f = f
        for lid, L in r.loops.items():
            M = resub(L, f)
            for p in src:
                M.phis = {k: v for k, v in M.phis.items() if v[0] is not p}
            self.loops[lid] = M

    def t(self, x):
        return subst(x, self.f)


class Free(Run):
    """a summary at one particular length, items, callbacks and element operations being free symbols"""

    def __init__(self, loops, env, turns=100, up=None):
        super().__init__(loops, env, turns)
        self.uf_ok = self.vocab = None
        self.shared = Free.shared

    def fresh(self, key, ty):
        d = self.shared['tab']
        k = (key, ty)
        if k not in d:
            x = self.shared['rnd'].random() < self.shared['bias']
            d[k] = x if ty == 'bool' else int(x)
        return d[k]

    def tv(self, t):
        v = self.ev(t)
        return v

    def _ev(self, t):
        o = t.op
        if o == 'sym':
            ty = tyof(t)
            if ty in WIDTH or ty == 'bool':
                raise NoEval('free value')
            return Opq(t)
        if o == 't':
            return Opq(('t', t.a[0]) + tuple(self.ev(x) if isinstance(x, T) else x for x in t.a[1:]))
        if o == 'tconst':
            return Opq(('tconst', t.a[0]))
        if o == 'discr':
            v = self.ev(t.a[0])
            return self.fresh(('discr', eta(v)), 'isize') if isinstance(v, Opq) else Val._ev(self, t)
        if o == 'call' and iscall(t, 'idx'):
            st, k = self.ev(t.a[2]), self.co(self.ev(t.a[3]), 'usize')
            n = 0
            while isinstance(st, Opq) and isinstance(st.k, tuple) and st.k[0] == 'advanced':
                st = st.k[1]
                n += 1
            self.shared['asked'].add((st, n, k))
            return Opq(('item', st, k))
        if o == 'out' and iscall(bare(t.a[0]), 'idx') and t.a[1] == 0:
            q = bare(t.a[0])
            self.ev(q)
            return Opq(('advanced', self.ev(q.a[2])))
        if o in ('fin', 'exitsel', 'phi', 'lam', 'uninit', 'forall', 'zst'):
            return Run._ev(self, t)
        return Val._ev(self, t)


def unequal(x, y):
    """two values over free symbols that differ for some choice of callbacks"""
    if isinstance(x, Opq) and isinstance(y, Opq) and isinstance(x.k, tuple) and isinstance(y.k, tuple) and x.k[0] == y.k[0] == 't' and x.k[1] == y.k[1]:
        # element addition and multiplication are commutative and associative
        return sorted(map(repr, flat(x, x.k[1]))) != sorted(map(repr, flat(y, y.k[1])))
    return eta(x) != eta(y)


def flat(x, op):
    if isinstance(x, Opq) and isinstance(x.k, tuple) and x.k[:2] == ('t', op):
        return [z for w in x.k[2:] for z in flat(w, op)]
    if isinstance(x, Opq) and isinstance(x.k, tuple) and x.k[0] == 'tconst' and (op, x.k[1]) in (('add', 'zero'), ('mul', 'one')):
        return []
    return [x]


SIZES = [0, 1, 2, 3, 4, 5, 6, 9, 17, 33, 65, 72]
AGREES = 'agrees at lengths %s' % SIZES


def lengths(c, spec, source, ret, N):
    """(verdict, witness) at the lengths 0..6, for consumers whose loop does not have the shape of the definition"""
    err = None
    for n in SIZES:
        for seed in range(6):
            Free.shared = {'tab': {}, 'rnd': random.Random(seed), 'bias': (0.5, 0.2, 0.8, 0.1, 0.9, 0.0)[seed], 'asked': set()}
            try:
                a = Free(c.r.loops, {N: n})
                x = a.ev(ret)
                asked = set(Free.shared['asked'])
                y = spec(n, Free({}, {N: n}))
            except (NoEval, KeyError, TypeError, AttributeError, RecursionError) as ex:
                err = str(ex)
                continue
            late = [(k, i) for s, k, i in asked if k != i]
            if late:
                return VIOLATED, {'length': n, 'index asked for': late[0][1], 'items already taken': late[0][0]}
            if unequal(x, y):
                return VIOLATED, {'length': n, 'found': deep(x), 'required': deep(y)}
    return UNDECIDED, err or AGREES


def deep(x, d=0):
    if isinstance(x, Opq) and isinstance(x.k, tuple) and d < 9:
        if x.k[0] == 'item':
            return 'item%s' % x.k[2]
        if x.k[0] == 'call':
            return '%s(%s)' % (str(x.k[1]).split('::')[-1], ', '.join(deep(y, d + 1) for y in x.k[3:]))
        return '%s(%s)' % (x.k[0], ', '.join(deep(y, d + 1) for y in x.k[1:]))
    if isinstance(x, Opq) and isinstance(x.k, T):
        return show(x.k, 3)
    return str(x)


def isseqlike(p):
    return isseq(p)


def run():
    rep = Report('P19', RULE, ['callbacks are functions of their arguments; a user-written source delivers item i when asked for index i'])
    prog = facts.load('numeric_static_iter')
    hk = {'call': hook(prog)}

    # ---------------------------------------------------------- consumers
    n = 0
    for b in prog.roots:
        if not (b.path.endswith('::StaticIter::' + (b.name or '?')) or b.name == 'from_static_iter'):
            continue
        if b.name not in ('fold', 'try_fold', 'any', 'all', 'sum', 'product', 'from_static_iter'):
            continue
        arr = b.name == 'from_static_iter' and (selfs(prog, b) or '').startswith('[')
        n += 1
        rule = {'fold': 'acc starts at the initial value and becomes callback(acc, item i) for i = 0..N in order',
                'try_fold': 'as fold, stopping at and returning the first error',
                'any': 'true exactly when some item satisfies the predicate, tested in order up to the first',
                'all': 'true exactly when every item satisfies the predicate, tested in order up to the first that does not',
                'sum': 'zero plus every item in order', 'product': 'one times every item in order',
                'from_static_iter': 'item i is written at position i, in order, until a write refuses'}[b.name]
        c = Comp(rep, prog, b, rule, hooks=hk)
        if not c:
            continue
        consumer(c, b, prog, arr)
    rep.floor('consumers', n, 8)
    sources(rep, prog)
    collectors(rep, prog)
    return rep


def one(c):
    ls = [L for L in c.r.loops.values()]
    return ls[0] if len(ls) == 1 else None


def consumer(c, b, prog, arr):
    N = None
    for L in c.r.loops.values():
        N = N or constn(c, L)
    if N is None:
        N = sym('N', 'usize')
    obs = shifted(structural(c, b, arr, N))
    if all(v == HOLD for _, v, _ in obs):
        for o in obs:
            c.ob(*o)
        return
    broken = any(v == VIOLATED for _, v, _ in obs)
    # look for a length at which it differs
    v, d = (UNDECIDED, None)
    every = [x for L in c.r.loops.values() for x in allterms(L, c.r.ret)] or list(subterms(c.r.ret))
    q = next((x for x in every if iscall(x, 'idx')), None)
    if q is None:
        q = raw('call', SI + '::idx', raw('targs', ''), c.p[0], mkint(0))
    w = next((x for x in every if x.op == 'tcall' and iscall(x.a[1], 'idx')), None)

    def item(k):
        t = raw('call', q.a[0], q.a[1], c.p[0], k)
        return raw('tcall', w.a[0], t) if w is not None else t
    if arr:
        def ref(n, ev):
            return ('arr',) + tuple(ev.ev(item(mkint(k))) for k in range(n))
    else:
        spec = definition(c, b, every, item(IT), N)
        if spec is None:
            ref = None
        else:
            def ref(n, ev):
                at = lambda t, st, k: subst(t, lambda x: mkint(k) if x is IT else st.get(x))
                st = {sy: init for init, sy in spec.vars.values()}
                names = {v_: sy for v_, (init, sy) in spec.vars.items()}
                for k in range(n):
                    cur = {v_: sy for v_, sy in names.items()}
                    for cond, out in spec.exits(cur):
                        if ev.b(at(cond, st, k)):
                            return ev.ev(at(out['value'], st, k))
                    nx = spec.step(cur)
                    st = {names[v_]: at(t, st, k) for v_, t in nx.items()}
                return ev.ev(at(spec.out({v_: sy for v_, sy in names.items()})['value'], st, n))
    if ref is not None:
        v, d = lengths(c, ref, c.p[0], c.r.ret, N)
    if v == VIOLATED and not broken:
        c.ob('value at a particular length', v, d)
    else:
        if broken and v == UNDECIDED and d == AGREES:
            obs = [(w_, UNDECIDED if v_ == VIOLATED else v_, d_) for w_, v_, d_ in obs]
        for o in obs:
            c.ob(*o)


def structural(c, b, arr, N):
    L = one(c)
    if L is None:
        return [('loop', UNDECIDED, '%d loops' % len(c.r.loops))]
    it = Items(c.r)
    if it.bad or len(it.src) != 1:
        return [('order', UNDECIDED, it.bad or 'no single source')]
    view = LoopView(L, N, 'up')
    if not view.counters:
        return [('order', UNDECIDED, 'no induction variable')]
    obs = []
    lid, source, e = it.asked[0]
    cont = view.m(view.cont, {})
    idx = view.m(it.t(e), {})
    pre = AND(LT(IT, N), *[x for x in (cont.a if cont.op == 'and' else [cont]) if not any(y.op in ('phi', 'call') for y in subterms(x))])
    if any(x.op == 'phi' for x in subterms(idx)):
        obs.append(('order', UNDECIDED, 'index depends on carried state'))
    else:
        v, d = same(idx, IT, pre)
        obs.append(('the source is asked for index i in round i', v, {'asked': show(idx, 6), 'witness': d}))
    if source is not c.p[0]:
        return [('source', UNDECIDED, 'source is not the receiver: %s' % show(source, 4))]
    M = it.loops[lid]
    ret = it.t(c.r.ret)
    item = bare(it.q)
    ITEM = raw('call', item.a[0], item.a[1], source, IT)
    if it.q.op == 'tcall':
        ITEM = raw('tcall', it.q.a[0], ITEM)
    if arr:
        try:
            x = Point(it.loops).read(ret, (('i', I),), Facts().plus(LT(I, N)), {})
            want = subst(ITEM, lambda y: I if y is IT else None)
            v, d = agree(x, want, LT(I, N))
            obs.append(('element i is item i', v, d))
        except Fail as f:
            obs.append(('element i is item i', UNDECIDED, str(f)))
        try:
            v, d = same(closed(LEN(ret), it.loops), N)
        except Fail as f:
            v, d = UNDECIDED, str(f)
        return obs + [('length', v, d)]
    spec = definition(c, b, allterms(M, ret), ITEM, N)
    if spec is None:
        return obs + [('value', UNDECIDED, 'operations of the definition not found')]
    f = next((x for x in allterms(M, ret) if iscall(x, 'finish')), None)
    if f is not None:
        ret = lift(ret, f)
    return obs + list(compare(M, {'value': ret}, spec))


def definition(c, b, every, ITEM, N):
    """the recurrence that defines the consumer, over its own parameters and items"""
    p = c.p
    nm = b.name

    def cb(f, *xs):
        k = next((x for x in every if x.op == 'call' and x.a[0] == 'callback' and x.a[2] is f), None)
        sig = k.a[1] if k is not None else raw('targs', '')
        t = raw('call', 'callback', sig, f, *xs)
        w = next((x for x in every if x.op == 'tcall' and x.a[1] is k), None) if k is not None else None
        return raw('tcall', w.a[0], t) if w is not None else t
    ok = lambda t, k: raw('insw', raw('discr', t), (k,), False)
    if nm == 'fold':
        return Spec('up', N, {'acc': (p[1], like(p[1]))}, lambda s: {'acc': cb(p[2], s['acc'], ITEM)}, lambda s: {'value': s['acc']})
    if nm == 'try_fold':
        R = 'core::result::Result'
        step = lambda s: cb(p[2], s['acc'], ITEM)
        return Spec('up', N, {'acc': (p[1], like(p[1]))}, lambda s: {'acc': FIELD(step(s), 0, 0)}, lambda s: {'value': AGG(R, 0, s['acc'])},
                    exits=lambda s: [(ok(step(s), 1), {'value': AGG(R, 1, FIELD(step(s), 1, 0))})])
    if nm in ('any', 'all'):
        t = cb(p[1], ITEM)
        hit = t if nm == 'any' else NOT(t)
        return Spec('up', N, {}, lambda s: {}, lambda s: {'value': mkbool(nm == 'all')}, exits=lambda s: [(hit, {'value': mkbool(nm == 'any')})])
    if nm in ('sum', 'product'):
        z = next((x for x in every if x.op == 'tconst'), None)
        if z is None:
            return None
        z = raw('tconst', 'zero' if nm == 'sum' else 'one', z.a[1])
        op = 'add' if nm == 'sum' else 'mul'
        return Spec('up', N, {'acc': (z, like(z))}, lambda s: {'acc': t_(op, s['acc'], ITEM)}, lambda s: {'value': s['acc']})
    w, u, f = (next((x for x in every if iscall(x, q)), None) for q in ('write', 'uninit', 'finish'))
    if not (w is not None and u is not None and f is not None):
        return None
    CF = 'core::ops::control_flow::ControlFlow'
    W = lambda s: raw('call', w.a[0], w.a[1], s['acc'], IT, ITEM)
    F = lambda x: raw('call', f.a[0], f.a[1], x)
    return Spec('up', N, {'acc': (u, like(u))}, lambda s: {'acc': FIELD(W(s), 0, 0)}, lambda s: {'value': F(AGG(CF, 0, s['acc']))},
                exits=lambda s: [(ok(W(s), 1), {'value': F(AGG(CF, 1, FIELD(W(s), 1, 0)))})])


def lift(ret, f):
    """finish(if c {a} else {b}) = if c {finish(a)} else {finish(b)}"""
    if ret.op == 'call' and ret.a[0] == f.a[0] and ret.a[-1].op == 'ite':
        x = ret.a[-1]
        g = lambda y: lift(raw('call', *(ret.a[:-1] + (y,))), f)
        return ITE(x.a[0], g(x.a[1]), g(x.a[2]))
    return ret


def like(init):
    """state symbol of the kind of the initial value"""
    return sym('#acc', tyof(init) or 'T')


def allterms(M, ret):
    out = []
    for k, (p, i, s) in M.phis.items():
        out += list(subterms(i)) + list(subterms(s))
    for e in M.exits:
        out += list(subterms(e[0]))
    return out + list(subterms(ret))


def constn(c, L):
    for e in L.exits:
        for x in subterms(e[0]):
            if x.op == 'lt' and x.a[0].op == 'phi' and x.a[1].op == 'sym':
                return x.a[1]
    for x in allterms(L, c.r.ret):
        if x.op == 'sym' and x.a[0] == 'N':
            return x
    return None


# -------------------------------------------------------------- sources and adapters
def sources(rep, prog):
    n = 0
    for b in prog.roots:
        if b.name != 'idx':
            continue
        s = selfs(prog, b) or ''
        kind = re.search(r'(\w+)(<|$)', s).group(1) if s else '?'
        n += 1
        c = Comp(rep, prog, b, {'Map': 'item i is the callback of the inner item i', 'Zip': 'item i is the pair of the items i',
                                'Enumerate': 'item i is i with the inner item i', 'IntoIter': 'item i is element i of the array',
                                'RefIter': 'item i refers to element i of the array', 'StaticRangeToIter': 'item i is i',
                                'ArrayZipIter': 'item i is the array of the items i', 'TupleZipIter': 'item i is the pair of the items i'}.get(kind, 'item i comes from position i'))
        if not c:
            continue
        ix = c.p[1]
        me = c.p[0]
        ad = ADTS.get(next((k for k in ADTS if k.split('::')[-1] == kind and 'static_iter' in k), ''), None)
        fld = lambda name: FIELD(me, 0, fieldno(ad, name))
        calls = [x for t in [c.r.ret] + [y for L in c.r.loops.values() for p in L.phis.values() for y in p[1:]] for x in subterms(t) if iscall(x, 'idx')]

        def sub(inner, sig=None):
            k = next((x for x in calls if x.a[2] is inner), None)
            if k is None:
                k = calls[0] if calls else None
            if k is None:
                raise Fail('no inner item')
            t = raw('call', k.a[0], k.a[1], inner, ix)
            w = next((x for x in subterms(c.r.ret) if x.op == 'tcall' and x.a[1] is k), None)
            return raw('tcall', w.a[0], t) if w is not None else t
        try:
            if kind == 'Map':
                k = next((x for x in subterms(c.r.ret) if x.op == 'call' and x.a[0] == 'callback'), None)
                if k is None:
                    raise Fail('no callback')
                match(c, 'item', c.r.ret, raw('call', 'callback', k.a[1], fld('func'), sub(fld('inner'))))
            elif kind == 'Zip':
                match(c, 'item', c.r.ret, AGG('tuple', 0, sub(fld('left')), sub(fld('right'))))
            elif kind == 'TupleZipIter':
                t = fld('iters')
                match(c, 'item', c.r.ret, AGG('tuple', 0, sub(FIELD(t, None, 0)), sub(FIELD(t, None, 1))))
            elif kind == 'Enumerate':
                match(c, 'item', c.r.ret, AGG('tuple', 0, ix, sub(fld('inner'))))
            elif kind == 'StaticRangeToIter':
                match(c, 'item', c.r.ret, ix)
            elif kind == 'IntoIter':
                a = fld('inner')
                match(c, 'item', c.r.ret, SEL(a, ix), LT(ix, LEN(a)))
            elif kind == 'RefIter':
                refitem(c, ix, me, fieldno(ad, 'inner'))
            elif kind == 'ArrayZipIter':
                arrayzip(c, ix, fld('arrs'))
            else:
                c.ob('item', UNDECIDED, 'unknown source')
        except Fail as f:
            c.ob('item', UNDECIDED, str(f))
        # in range: the checked or unchecked access is inside the array whenever the position is
        bad = HOLD, None
        Nn = LEN(fld('inner')) if kind == 'IntoIter' else sym('N', 'usize')
        for (cond, k, w) in list(c.r.panics) + [u for u in getattr(c.r, 'unsafe_ops', [])]:
            v, d = never(c.r, cond, LT(ix, Nn))
            if v != HOLD and bad[0] != VIOLATED:
                bad = v, {'at': w, 'when': show(cond, 6)[:200], 'witness': d}
        c.ob('no access outside the array', *bad)
    rep.floor('sources and adapters', n, 8)
    # constructors
    n = 0
    for name, kind, parts in (('map', 'Map', (('inner', 0), ('func', 1))), ('zip', 'Zip', (('left', 0), ('right', 'into'))), ('enumerate', 'Enumerate', (('inner', 0),))):
        for b in prog.roots:
            if b.path.endswith('::StaticIter::' + name):
                n += 1
                c = Comp(rep, prog, b, 'the adapter keeps the source and the callback as given')
                if not c:
                    continue
                ad = ADTS.get(next((k for k in ADTS if k.split('::')[-1] == kind and 'static_iter' in k), ''), None)
                for f, src in parts:
                    got = FIELD(c.r.ret, 0, fieldno(ad, f))
                    want = c.p[src] if src != 'into' else next((raw('call', x.a[0], x.a[1], c.p[1]) for x in subterms(c.r.ret) if iscall(x, 'into_static_iter')), c.p[1])
                    match(c, f, got, want)
    for b in prog.roots:
        if b.name in ('into_static_iter', 'into_zip_iter', 'new') and b.argc == 1:
            n += 1
            c = Comp(rep, prog, b, 'the source holds the given elements, in order')
            if c:
                into(c, b, prog)
    rep.floor('constructors', n, 11)


def fieldno(ad, name):
    if ad:
        for i, f in enumerate(ad['v'][0]['f']):
            if (f.get('n') if isinstance(f, dict) else f[0]) == name:
                return i
    raise Fail('field %s' % name)


def match(c, what, got, want, pre=TRUE):
    """equality over free functions"""
    v, d = same(got, want, pre)
    c.ob(what, v, {'value': show(got, 7)[:300], 'required': show(want, 7)[:300], 'witness': d} if v != HOLD else None)


def refitem(c, ix, me, k):
    ret = c.r.ret
    if ret.op != 'ref':
        c.ob('item', UNDECIDED, show(ret, 5)[:200])
        return
    path = ret.a[1]
    if not path or path[-1][0] != 'i':
        c.ob('item', UNDECIDED, 'path %s' % (path,))
        return
    v, d = same(path[-1][1], ix, LT(ix, sym('N', 'usize')))
    c.ob('item', v, {'returns': show(ret, 6), 'witness': d})


def arrayzip(c, ix, arrs):
    r = c.r
    it = [x for L in r.loops.values() for p in L.phis.values() for x in subterms(p[2]) if iscall(x, 'idx')]
    if not it:
        raise Fail('no inner item')
    x = Point(r.loops).read(r.ret, (('i', I),), Facts().plus(LT(I, LEN(arrs))), {})
    k = it[0]
    got = x
    want = raw('call', k.a[0], k.a[1], SEL(arrs, I), ix)
    c.eq('item', got, want, LT(I, LEN(arrs)))


def into(c, b, prog):
    s = selfs(prog, b) or b.path
    ret = c.r.ret
    p = c.p[0]
    nm = nicename(b)
    if b.name == 'into_zip_iter':
        inner = FIELD(ret, 0, 0)
        if s.startswith('('):
            k = next((x for x in subterms(ret) if iscall(x, 'into_static_iter')), None)
            if k is None:
                raise Fail('parts')
            ks = [x for x in subterms(ret) if iscall(x, 'into_static_iter')]
            for i in (0, 1):
                part = FIELD(p, None, i)
                kk = next((x for x in ks if x.a[2] is part), ks[0])
                match(c, 'part %d' % i, FIELD(inner, None, i), raw('call', kk.a[0], kk.a[1], part))
        else:
            ks = [x for L in c.r.loops.values() for q in L.phis.values() for x in subterms(q[2]) if iscall(x, 'into_static_iter')]
            try:
                x = Point(c.r.loops).read(inner, (('i', I),), Facts().plus(LT(I, LEN(p))), {})
                if ks:
                    c.eq('sources', x, raw('call', ks[0].a[0], ks[0].a[1], SEL(p, I)), LT(I, LEN(p)))
                else:
                    c.ob('sources', UNDECIDED, 'no inner source')
            except Fail as f:
                c.ob('sources', UNDECIDED, str(f))
        return
    if s.startswith('[') or 'IntoIter' in s:
        x = FIELD(ret, 0, 0)
        match(c, 'elements', SEL(x, I), SEL(p, I), LT(I, LEN(p)))
    elif s.startswith('&') or 'RefIter' in s:
        x = FIELD(ret, 0, 0)
        c.ob('elements', HOLD if x is c.r.engine.args[0] else UNDECIDED, show(x, 4))
    elif 'StaticRangeTo' in s:
        c.ob('elements', HOLD)
    else:
        match(c, 'source', ret, p)


# -------------------------------------------------------------- nested collectors
def collectors(rep, prog):
    n = 0
    CF = 'core::ops::control_flow::ControlFlow'
    for b in prog.roots:
        t = (b.j.get('itrait') or '').split('<')[0]
        if not t.endswith('FromStaticIter') or b.name not in ('uninit', 'write', 'finish'):
            continue
        s = selfs(prog, b) or ''
        n += 1
        kind = 'array' if s.startswith('[') else 'option' if 'option::Option' in s.split('<')[0] else 'result' if 'result::Result' in s.split('<')[0] else s
        c = Comp(rep, prog, b, {'array': 'the value lands at its index and nothing else changes',
                                'option': 'a present value is passed on, an absent one ends the collection as absent',
                                'result': 'a success is passed on, a failure ends the collection as that failure'}.get(kind, kind))
        if not c:
            continue
        ret, p = c.r.ret, c.p
        calls = {str(x.a[0]).split('::')[-1]: x for x in subterms(ret) if x.op == 'call'}
        ins = lambda t, k: raw('insw', raw('discr', t), (k,), False)
        try:
            if kind == 'array':
                if b.name == 'uninit':
                    c.length('length', ret, sym('N', 'usize'))
                elif b.name == 'write':
                    v = FIELD(ret, 0, 0)
                    c.at('elements', v, [I], ITE(EQ(I, p[1]), p[2], SEL(p[0], I)), AND(LT(I, sym('N', 'usize')), LT(p[1], sym('N', 'usize'))))
                    c.ob('continues', HOLD if ret.op == 'agg' and ret.a[1] == 0 else UNDECIDED, show(ret, 3))
                    c.quiet(LT(p[1], sym('N', 'usize')))
                else:
                    match(c, 'elements', SEL(ret, I), SEL(FIELD(p[0], 0, 0), I), LT(I, sym('N', 'usize')))
            elif kind in ('option', 'result'):
                ADT = 'core::option::Option' if kind == 'option' else 'core::result::Result'
                okv = 1 if kind == 'option' else 0
                if b.name == 'uninit':
                    k = calls.get('uninit')
                    c.ob('starts as the inner collection', HOLD if k is not None and ret is k else UNDECIDED, show(ret, 4))
                elif b.name == 'write':
                    k = calls.get('write')
                    if k is None:
                        raise Fail('no inner write')
                    W = raw('call', k.a[0], k.a[1], p[0], p[1], FIELD(p[2], okv, 0))
                    okc = ins(p[2], okv)
                    fail = AGG(ADT, 0) if kind == 'option' else AGG(ADT, 1, FIELD(p[2], 1, 0))
                    sub = ITE(ins(W, 1), AGG(CF, 1, AGG(ADT, okv, FIELD(W, 1, 0))), AGG(CF, 0, FIELD(W, 0, 0)))
                    match(c, 'value present', ret, sub, okc)
                    match(c, 'value absent', ret, AGG(CF, 1, fail), NOT(okc))
                else:
                    k = calls.get('finish')
                    if k is None:
                        raise Fail('no inner finish')
                    F = lambda x: raw('call', k.a[0], k.a[1], x)
                    brk = FIELD(p[0], 1, 0)
                    C0 = ins(p[0], 0)
                    okb = ins(brk, okv)
                    match(c, 'complete', ret, AGG(ADT, okv, F(AGG(CF, 0, FIELD(p[0], 0, 0)))), C0)
                    match(c, 'stopped inside', ret, AGG(ADT, okv, F(AGG(CF, 1, FIELD(brk, okv, 0)))), AND(NOT(C0), okb))
                    match(c, 'stopped here', ret, AGG(ADT, 0) if kind == 'option' else AGG(ADT, 1, FIELD(brk, 1, 0)), AND(NOT(C0), NOT(okb)))
            else:
                c.ob('collector', UNDECIDED, 'unknown collector')
        except Fail as f:
            c.ob('value', UNDECIDED, str(f))
    rep.floor('collector functions', n, 9)
