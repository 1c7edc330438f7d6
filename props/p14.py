"""P14 - an arbitrary-precision integer has one representation, and equality, order, sign and zero tests go by value."""
import os
from .wordc import *
from .p15 import Root, nice, head
from sa.loops import Spec, compare, IT, LoopView, exit_value

RULE = ('What a word means (inline, sign, number, identifier) is read off the functions that look at it; every function that makes or changes a word is compared with that reading '
        'bit by bit, for all words; equality is compared with equality of the readings; the order is compared with the order of the values, its loop with the recurrence '
        '"from the most significant limb down, the first difference decides".')


class One:
    def __init__(self, rep, prog, b, more=None):
        self.rep, self.prog, self.b = rep, prog, b
        rep.saw(b.path)
        self.S = Store(prog, more)
        self.r, self.err = analyse(prog, b, hooks={'call': self.S.hook, 'drop': self.S.drop})
        self.key = nice(b)
        if self.r is not None:
            self.p = params(prog, b, self.r)

    def ob(self, what, v, d=None):
        self.rep.ob('%s: %s' % (self.key, what), v, where(self.b), RULE, d)

    extra = ()

    def check(self, what, c, pre=TRUE):
        if self.r is None:
            return self.ob(what, UNDECIDED, self.err)
        self.ob(what, *valid(c, pre, self.extra))


def run():
    rep = Report('P14', RULE, ['the interner returns under an identifier the limbs it was given (P18)', 'shrinking removes leading zero limbs and nothing else (P08)'])
    prog = facts.load('numeric_ints')
    R = Reading(prog, rep, RULE)
    if not R.ok:
        rep.ob('reading of a word', UNDECIDED, 'crates/ints/src/big_int.rs', RULE, R.why)
    n = 0
    if R.ok:
        rep.ob('limbs of a word: inline number or stored limbs, as is_inline says', *valid(IFF(R.incond, R.inl(R.w))), where(R.ws), RULE) if False else \
            rep.ob('BigInt::with_slice: inline number or stored limbs, as is_inline says', valid(IFF(R.incond, R.inl(R.w)))[0], where(R.ws), RULE, valid(IFF(R.incond, R.inl(R.w)))[1])
    for b in prog.roots:
        if '::tests::' in b.path or 'big_int' not in b.path and BI not in b.path:
            continue
        t, a = head(prog, b)
        me = bool(a) and a[0].replace('&', '').strip() == BI
        if b.path == BI + '::new_inline' and R.ok:
            n += 1
            new_inline(rep, prog, R, b)
        elif b.path == BI + '::new_slice' and R.ok:
            n += 1
            new_slice(rep, prog, R, b)
        elif b.path == BI + '::is_interned' and R.ok:
            n += 1
            o = One(rep, prog, b)
            if o.r is not None:
                w = word(o.p[0])
                o.check('the opposite of inline', IFF(o.r.ret, NOT(R.inl(w))))
        elif R.ok and (b.path == BI + '::new' or me and (t, b.name) in (('Default', 'default'), ('Zero', 'zero'), ('One', 'one'))):
            n += 1
            o = One(rep, prog, b)
            if o.r is None:
                o.ob('constant', UNDECIDED, o.err)
                continue
            w = word(o.r.ret)
            k = 1 if b.name == 'one' else 0
            o.check('the inline number %d' % k, AND(R.inl(w), EQ(R.off(w), mkint(k)), NOT(R.neg(w))))
        elif R.ok and me and (t, b.name) == ('Signed', 'is_positive'):
            n += 1
            o = One(rep, prog, b)
            if o.r is not None:
                o.check('the opposite of negative', IFF(o.r.ret, NOT(R.neg(word(o.p[0])))))
        elif R.ok and me and (t, b.name) in (('Zero', 'is_zero'), ('One', 'is_one')):
            n += 1
            o = One(rep, prog, b)
            if o.r is not None:
                w = word(o.p[0])
                k = 1 if b.name == 'is_one' else 0
                o.check('exactly at %d' % k, IFF(o.r.ret, AND(R.inl(w), EQ(R.off(w), mkint(k)), NOT(R.neg(w)))), R.canon(w))
        elif R.ok and me and (t, b.name) == ('Neg', 'neg'):
            n += 1
            negation(rep, prog, R, b)
        elif R.ok and me and (t, b.name) == ('Clone', 'clone'):
            n += 1
            o = One(rep, prog, b)
            if o.r is not None:
                w, v = word(o.p[0]), word(o.r.ret)
                o.check('same value', same_reading(R, w, v))
        elif R.ok and me and (t, b.name) == ('PartialEq', 'eq') and (len(a) < 2 or a[1] == BI):
            n += 1
            equality(rep, prog, R, b)
        elif me and (t, b.name) == ('Ord', 'cmp'):
            n += 1
            order(rep, prog, b)
        elif me and (t, b.name) == ('PartialOrd', 'partial_cmp') and (len(a) < 2 or a[1] == BI):
            n += 1
            Q = Root(rep, prog, b, 'always the total order')
            if Q.ok:
                Q.ob(Q.r.ret, AGG(OPT, 1, CMPZ(*Q.zs)))
    rep.floor('functions on the representation', n, 12)
    return rep


def same_reading(R, w, v):
    return AND(IFF(R.inl(w), R.inl(v)), IFF(R.neg(w), R.neg(v)), OR(AND(R.inl(w), EQ(R.off(w), R.off(v))), AND(NOT(R.inl(w)), EQ(R.id(w), R.id(v)))))


MAXIN = mkint((1 << 62) - 1)


def new_inline(rep, prog, R, b):
    o = One(rep, prog, b)
    if o.r is None:
        o.ob('inline', UNDECIDED, o.err)
        return
    v, neg = o.p[0], o.p[1]
    w = word(o.r.ret)
    ret = NOT(panic_cond(o.r))
    o.check('inline', R.inl(w), ret)
    o.check('the number itself', EQ(R.off(w), v), ret)
    o.check('the sign asked for, zero never negative', IFF(R.neg(w), AND(neg, NOT(EQ(v, mkint(0))))), ret)


def new_slice(rep, prog, R, b):
    """number kept inline or stored according to its magnitude alone"""
    st = {}

    def more(eng, fr, s, c, args, atys, dty, cond, wh):
        if c.get('n') == 'shrink':
            st.setdefault('shrink', []).append(args[0])
            return NotImplemented
        return NotImplemented
    o = One(rep, prog, b, more)
    if o.r is None:
        o.ob('value kept', UNDECIDED, o.err)
        return
    val, neg = o.p[0], o.p[1]
    w = word(o.r.ret)
    sh = [x for x in subterms(w) if x.op == 'tcall' and x.a[1].op == 'shrink' or x.op == 'call' and 'shrink' in str(x.a[0])]
    sq = {x for x in subterms(w) | subterms(panic_cond(o.r)) if x.op == 'len'}
    if len(sq) != 1:
        o.ob('value kept', UNDECIDED, 'lengths looked at: %d' % len(sq))
        return
    q = next(iter(sq)).a[0]
    n, v0 = LEN(q), SEL(q, mkint(0))
    adds = [e for e in o.S.events if e[0] == 'add']
    isshr = any('shrink' in str(x.a[0]) or x.op == 'shrink' or x.op == 'tcall' and 'shrink' in x.a[1].op for x in subterms(q))
    if not isshr:
        asis = q is val or q.op == 'load' and (q.a[0] is val or 'deref' in str(q.a[0].op) + str(q.a[0].a[0]) and val in subterms(q))
        o.ob('decides by the shrunk limbs', VIOLATED if asis and not st.get('shrink') else UNDECIDED,
             'the limbs are taken as given, leading zeros included' if asis else show(q, 5)[:120])
        return
    if len(adds) != 1:
        o.ob('stores once at most', UNDECIDED, 'store calls: %d' % len(adds))
        return
    o.extra = (n, v0, adds[0][1], neg)
    inl = R.inl(w)
    ret = NOT(panic_cond(o.r))
    pre = AND(NOT(LT(MAXIN, adds[0][1])), NOT(EQ(n, mkint(0))))
    pre1 = AND(ret, pre)
    o.check('always returns, identifiers being small', ret, pre)
    o.check('inline only one limb, the number itself', IMP(inl, AND(EQ(n, mkint(1)), EQ(R.off(w), v0))), pre1)
    o.check('inline numbers get the sign asked for, zero never negative', IMP(inl, IFF(R.neg(w), AND(neg, NOT(EQ(v0, mkint(0)))))), pre1)
    o.check('other numbers get their identifier and sign', IMP(NOT(inl), AND(EQ(R.id(w), adds[0][1]), IFF(R.neg(w), neg))), pre1)
    o.check('zero and one are inline', IMP(AND(EQ(n, mkint(1)), LT(v0, mkint(2))), inl), pre1)
    # the same magnitude is always kept the same way
    flip = subst(inl, lambda x: NOT(neg) if x is neg else None)
    o.check('kept by magnitude alone', IFF(inl, flip), AND(pre, ret, subst(ret, lambda x: NOT(neg) if x is neg else None)))
    arg = adds[0][4]
    ok = any('shrink' in str(x.a[0]) or x.op == 'tcall' and 'shrink' in x.a[1].op for x in subterms(arg)) or 'shrink' in arg.op
    if ok:
        o.ob('stores the shrunk limbs', HOLD)
    elif arg is val:
        o.ob('stores the shrunk limbs', VIOLATED, 'the limbs as given are stored, leading zeros included')
    else:
        o.ob('stores the shrunk limbs', UNDECIDED, show(arg, 5)[:100])


def IMP(a, b):
    return OR(NOT(a), b)


def negation(rep, prog, R, b):
    o = One(rep, prog, b)
    if o.r is None:
        o.ob('negated', UNDECIDED, o.err)
        return
    w, v = word(o.p[0]), word(o.r.ret)
    z = AND(R.inl(w), EQ(R.off(w), mkint(0)))
    o.check('same magnitude, kept the same way', AND(IFF(R.inl(w), R.inl(v)), OR(AND(R.inl(w), EQ(R.off(w), R.off(v))), AND(NOT(R.inl(w)), EQ(R.id(w), R.id(v))))), R.canon(w))
    o.check('opposite sign, except zero', IFF(R.neg(v), AND(NOT(R.neg(w)), NOT(z))), R.canon(w))


PAIRS = [0, 1, 2, -1, -2, 3 << 62, -(3 << 62), (1 << 64) + 5, (2 << 64) + 1, (2 << 64) + 2, -((1 << 64) + 5), -((2 << 64) + 1), (1 << 64) + (7 << 32), (5 << 128) + 3, (5 << 128) + (1 << 64) + 1, (5 << 128) + (1 << 64) + 9, -(5 << 128) - 3,
         (5 << 640) + 3, (5 << 640) + 4, (5 << 640) + (1 << 320) + 1, -(5 << 640) - 3, -(5 << 640) - (1 << 64)]

def unequal(rep, prog, b):
    """a pair of values that the equality gets wrong"""
    Q = Root(Quiet(), prog, b, 'equal values')
    if not Q.ok:
        return None
    u = EQ(word(Q.p[0]), word(Q.p[1]))
    for x in PAIRS:
        for y in PAIRS:
            for same_word in ((True, False) if x == y and abs(x) > MAXIN.a[0] else (x == y,)):
                try:
                    got = execute(Q.r, {Q.bigs[0]: x, Q.bigs[1]: y, u: mkbool(same_word)})
                except Stuck as e:
                    if os.environ.get('SA_DBGX'):
                        print(x, y, e)
                    continue
                if got in (True, False) and got != (x == y):
                    return {'left': str(x), 'right': str(y), 'found': got, 'required': x == y}
    return None


class Quiet:
    def __getattr__(self, n):
        return lambda *a, **k: None


def equality(rep, prog, R, b):
    o = One(rep, prog, b)
    if o.r is None:
        w = unequal(rep, prog, b)
        o.ob('equal values', VIOLATED if w else UNDECIDED, w or o.err)
        return
    x, y = word(o.p[0]), word(o.p[1])
    far = o.S.seqeq(raw('limbsof', R.id(x)), raw('limbsof', R.id(y)))
    spec = AND(IFF(R.neg(x), R.neg(y)), OR(AND(R.inl(x), R.inl(y), EQ(R.off(x), R.off(y))), AND(NOT(R.inl(x)), NOT(R.inl(y)), far)))
    v, d = valid(IFF(o.r.ret, spec), AND(R.canon(x), R.canon(y)), o.extra)
    if v == UNDECIDED:
        w = unequal(rep, prog, b)
        if w:
            v, d = VIOLATED, w
    o.ob('equal exactly when the values are', v, d)


def order(rep, prog, b):
    Q = Root(rep, prog, b, 'ordered by value')
    if not Q.ok:
        return
    r = Q.r
    w1, w2 = word(Q.p[0]), word(Q.p[1])
    u = EQ(w1, w2)
    n1, n2 = NEG(Q.zs[0]), NEG(Q.zs[1])
    # run on pairs of values
    vals = PAIRS
    for x in vals:
        for y in vals:
            for same_word in ((True, False) if x == y and abs(x) > MAXIN.a[0] else (x == y,)):
                env = {Q.bigs[0]: x, Q.bigs[1]: y, u: mkbool(same_word)}
                try:
                    got = execute(r, env)
                except Stuck as e:
                    if os.environ.get('SA_DBGX'):
                        print(x, y, e)
                    continue
                want = (ORD, 0 if x < y else 2 if x > y else 1)
                if got != want:
                    rep.ob(Q.key, VIOLATED, where(b), RULE, {'left': str(x), 'right': str(y), 'found': got[1:], 'required': want[1:]})
                    return
    t = r.ret
    put = lambda t, m: subst(t, m.get)
    steps = [('same word', put(t, {u: TRUE, n2: n1 and n2}), EQUAL, TRUE)]
    t0 = put(t, {u: FALSE})
    bad = None
    v = same(put(t, {u: TRUE}), EQUAL)[0]
    if v != HOLD:
        bad = 'the same word is not equal'
    if put(t0, {n1: TRUE, n2: FALSE}) is not LESS or put(t0, {n1: FALSE, n2: TRUE}) is not GREATER:
        bad = bad or 'opposite signs'
    sa = next((x for x in subterms(t) if x.op == 'len' and Q.zs[0] in subterms(x)), None)
    sb = next((x for x in subterms(t) if x.op == 'len' and Q.zs[1] in subterms(x)), None)
    if bad is None and (sa is None or sb is None):
        bad = 'no lengths'
    if bad is None:
        for sign in (FALSE, TRUE):
            lo, hi = (LESS, GREATER) if sign is FALSE else (GREATER, LESS)
            ts = put(t0, {n1: sign, n2: sign})
            # different lengths: the longer magnitude is larger
            d = put(ts, {EQ(sa, sb): FALSE})
            if same(d, ITE(LT(sa, sb), lo, hi), NOT(EQ(sa, sb)))[0] != HOLD:
                bad = 'lengths'
                break
            e = put(ts, {EQ(sa, sb): TRUE, LT(sa, sb): FALSE, LT(sb, sa): FALSE})
            e = subst(e, lambda x: sa if x is sb else None)
            Ls = [L for L in r.loops.values() if any(x.op in ('fin', 'exitsel') and x.a[0] == L.id for x in subterms(e))]
            if len(Ls) != 1:
                bad = 'loops'
                break
            L = equal_lengths(Ls[0], sa, sb)
            a, c = SEL(sa.a[0], BIN('sub', 'usize', IT, mkint(1))), SEL(sb.a[0], BIN('sub', 'usize', IT, mkint(1)))
            spec = Spec('down', sa, {}, lambda s: {}, lambda s: {'order': EQUAL},
                        exits=lambda s: [(LT(a, c), {'order': lo}), (LT(c, a), {'order': hi})], inv=lambda s: NOT(LT(sa, IT)))
            view = LoopView(L, sa, 'down')
            if not all(same(init, sa)[0] == HOLD for k, (p, init, dd) in view.counters.items()) or not view.counters:
                bad = 'first position'
                break
            for what, vd, dd in compare(L, {'order': subst(e, L.merge)}, spec):
                if vd != HOLD:
                    bad = '%s: %s' % (what, str(dd)[:200])
    rep.ob(Q.key, HOLD if bad is None else UNDECIDED, where(b), RULE, bad)


def equal_lengths(L, sa, sb):
    """the loop, the two lengths being the same"""
    from sa.engine import Loop
    M = Loop(L.id)
    f = lambda x: sa if x is sb else None
    ph = {}
    for k, (p, i, s) in L.phis.items():
        ph[k] = (p, subst(i, f), subst(s, f))
    # counters that start together and step together are one
    ks = list(ph)
    rep = {}
    for i, a in enumerate(ks):
        for c in ks[:i]:
            if c in rep:
                continue
            pa, ia, sa_ = ph[a]
            pc, ic, sc = ph[c]
            if ia is ic and tyof(pa) == tyof(pc):
                g = lambda x: pc if x is pa else None
                if subst(sa_, g) is subst(sc, g):
                    rep[a] = c
                    break
    g = lambda x: next((ph[c][0] for a, c in rep.items() if x is ph[a][0]), None) or next(
        (raw('fin', L.id, ph[c][0].a[1], ph[c][0].a[2]) for a, c in rep.items() if x is raw('fin', L.id, ph[a][0].a[1], ph[a][0].a[2])), None)
    M.phis = {k: (p, i, subst(s, g)) for k, (p, i, s) in ph.items() if k not in rep}
    M.exits = [tuple(subst(subst(x, f), g) if isinstance(x, T) else x for x in e) for e in L.exits]
    M.where, M.body_cond, M.parent = L.where, subst(subst(L.body_cond, f), g), L.parent
    M.merge = g
    return M
