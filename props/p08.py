"""P08 - elements and bits of limb slices are addressed exactly."""
from .compc import *
from .bitsc import *
from .p09 import bits_eq, value
from .p20 import exact_panic, some_cond
from sa import bits
from sa.point import lin, unlin

RULE = ('The value, the panic condition and the memory effect of every accessor are extracted as closed forms for symbolic contents, length and index and compared with the '
        'required element, bit, success condition and update; the bit iterator is decided by one step from a symbolic position (its representation invariant), and the '
        'trimming of leading zeros by the recurrence of its search loop.')


def payload(ret):
    """the value inside Some, on the paths that yield it"""
    if ret.op == 'ite':
        x, y = payload(ret.a[1]), payload(ret.a[2])
        return y if x is None else x if y is None else ITE(ret.a[0], x, y)
    if ret.op == 'agg':
        return ret.a[2] if ret.a[1] == 1 else None
    return FIELD(ret, 1, 0)


def each(rep, prog, trait, name, rule, kinds=('slice', 'vec')):
    for b, limb, kind in methods(prog, trait, name, kinds):
        c = Comp(rep, prog, b, rule, key='%s::%s at %s %s' % (trait, name, limb, kind))
        each.n += 1
        if c:
            c.limb, c.w = limb, WIDTH[limb]
            yield c


each.n = 0


def own(rep, prog, rx, rule, kinds=('own',)):
    for b, limb, kind in prog.iroots:
        if kind in kinds and re.search(rx, b.path):
            c = Comp(rep, prog, b, rule, key='%s at %s' % (nicename(b), limb))
            each.n += 1
            if c:
                c.limb, c.w = limb, WIDTH[limb]
                yield c


def kept(c, x):
    """a shared receiver: nothing to check; an exclusive one must be left alone"""
    f = c.final(0)
    if f is not None:
        c.ob('leaves the contents alone', HOLD if f is x else same(f, x)[0])


def word(c, what, pre, spec, n):
    """element I of the receiver afterwards"""
    f = c.final(0)
    try:
        m = closed(LEN(f), c.r.loops, pre)
        c.ob('length', *same(m, n, pre))
        v = read(c.r, f, [I], AND(pre, LT(I, n)))
    except Fail as e:
        c.ob(what, UNDECIDED, 'no closed form: %s' % e)
        return
    bits_eq(c, what, v, spec, AND(pre, LT(I, n)))


def run():
    rep = Report('P08', RULE, ['slice lengths times limb size fit the address space'])
    prog = facts.load('numeric_bits')
    each.n = 0
    q = lambda c, i: BIN('div', 'usize', i, mkint(c.w))
    e = lambda c, i: BIN('rem', 'usize', i, mkint(c.w))
    bit = lambda c, v, i: NE(BIN('band', c.limb, v, BIN('shl', c.limb, mkint(1, c.limb), e(c, i))), mkint(0, c.limb))
    B = 'BitSliceExt'
    for c in each(rep, prog, B, 'len', 'the number of elements'):
        c.ob('value', *same(c.r.ret, LEN(c.p[0])))
    for c in each(rep, prog, B, 'is_empty', 'whether there is no element'):
        c.ob('value', *same(c.r.ret, EQ(LEN(c.p[0]), mkint(0))))
    for c in each(rep, prog, B, 'bit_len', 'elements times their width'):
        c.ob('value', *same(c.r.ret, BIN('mul', 'usize', LEN(c.p[0]), mkint(c.w))))
    for c in each(rep, prog, B, 'get', 'the element, panicking exactly when out of range'):
        x, i = c.p
        c.ob('value', *same(c.r.ret, SEL(x, i), LT(i, LEN(x))))
        exact_panic(c, NOT(LT(i, LEN(x))))
    for c in each(rep, prog, B, 'get_opt', 'the element exactly when in range'):
        x, i = c.p
        c.ob('success', *same(some_cond(c.r.ret), LT(i, LEN(x))))
        p = payload(c.r.ret)
        c.ob('value', *(same(p, SEL(x, i), LT(i, LEN(x))) if p is not None else (UNDECIDED,)))
        c.quiet()
    for c in each(rep, prog, B, 'get_bit', 'the bit, panicking exactly when out of range'):
        x, i = c.p
        ok = LT(q(c, i), LEN(x))
        bits_eq(c, 'value', c.r.ret, bit(c, SEL(x, q(c, i)), i), ok, True)
        exact_panic(c, NOT(ok))
    for c in each(rep, prog, B, 'get_bit_opt', 'the bit exactly when in range'):
        x, i = c.p
        ok = LT(q(c, i), LEN(x))
        c.ob('success', *same(some_cond(c.r.ret), ok))
        p = payload(c.r.ret)
        if p is None:
            c.ob('value', UNDECIDED, 'never a value')
        else:
            bits_eq(c, 'value', p, bit(c, SEL(x, q(c, i)), i), ok, True)
        c.quiet()
    upd = lambda x, i, v: ITE(EQ(I, i), v, SEL(x, I))

    def put(c, x, i, v):
        old = SEL(x, I)
        m = BIN('shl', c.limb, mkint(1, c.limb), e(c, i))
        z = BIN('band', c.limb, old, BNOT(c.limb, m))
        return ITE(EQ(I, q(c, i)), ITE(v, BIN('bor', c.limb, z, m), z), old)
    for c in each(rep, prog, B, 'set', 'exactly that element changes, panicking exactly when out of range'):
        x, i, v = c.p
        word(c, 'element j afterwards', LT(i, LEN(x)), upd(x, i, v), LEN(x))
        exact_panic(c, NOT(LT(i, LEN(x))))
    for name in ('set_opt', 'set_ignore'):
        for c in each(rep, prog, B, name, 'exactly that element changes, nothing when out of range'):
            x, i, v = c.p
            word(c, 'element j afterwards', TRUE, upd(x, i, v), LEN(x))
            if name == 'set_opt':
                c.ob('success', *same(some_cond(c.r.ret), LT(i, LEN(x))))
            c.quiet()
    for c in each(rep, prog, B, 'set_bit', 'exactly that bit changes, panicking exactly when out of range'):
        x, i, v = c.p
        ok = LT(q(c, i), LEN(x))
        word(c, 'element j afterwards', ok, put(c, x, i, v), LEN(x))
        exact_panic(c, NOT(ok))
    for name in ('set_bit_opt', 'set_bit_ignore'):
        for c in each(rep, prog, B, name, 'exactly that bit changes, nothing when out of range'):
            x, i, v = c.p
            word(c, 'element j afterwards', TRUE, put(c, x, i, v), LEN(x))
            if name == 'set_bit_opt':
                c.ob('success', *same(some_cond(c.r.ret), LT(q(c, i), LEN(x))))
            c.quiet()
    for c in own(rep, prog, r'BitVecExt>::extend$', 'grown to the length with the value, never shortened'):
        x, n, v = c.p
        word(c, 'element j afterwards', TRUE, ITE(LT(I, LEN(x)), SEL(x, I), v), MAX(LEN(x), n))
        c.quiet()
    z = lambda c: mkint(0, c.limb)
    fit = lambda i: NOT(EQ(i, mkint((1 << 64) - 1)))
    for c in each(rep, prog, 'BitVecExt', 'set_push', 'grown with zeros to hold the element, exactly that element changes', ('vec',)):
        x, i, v = c.p
        word(c, 'element j afterwards', fit(i), ITE(EQ(I, i), v, ITE(LT(I, LEN(x)), SEL(x, I), z(c))), MAX(LEN(x), unlin(lin(i).add(lin(mkint(1))))))
        c.quiet()
    for c in each(rep, prog, 'BitVecExt', 'set_bit_push', 'grown with zeros to hold the bit, exactly that bit changes', ('vec',)):
        x, i, v = c.p
        old = ITE(LT(I, LEN(x)), SEL(x, I), z(c))
        m = BIN('shl', c.limb, mkint(1, c.limb), e(c, i))
        w0 = BIN('band', c.limb, old, BNOT(c.limb, m))
        spec = ITE(EQ(I, q(c, i)), ITE(v, BIN('bor', c.limb, w0, m), w0), old)
        word(c, 'element j afterwards', TRUE, spec, MAX(LEN(x), unlin(lin(q(c, i)).add(lin(mkint(1))))))
        c.quiet()
    biter(rep, prog)
    shrinks(rep, prog)
    for b in roots(prog, 'const_reverse', 'const_reverse'):
        c = Comp(rep, prog, b, 'byte i of the result is byte N-1-i')
        each.n += 1
        if c:
            x = c.p[0]
            n = LEN(x)
            c.length('length', c.r.ret, n)
            c.at('byte i', c.r.ret, [I], SEL(x, unlin(lin(n).add(lin(I), -1).add(lin(mkint(1)), -1))), LT(I, n))
            c.quiet()
    rep.floor('accessors', each.n, 60)
    return rep


Q, E = sym('q', 'usize'), sym('e', 'usize')


def biter(rep, prog):
    """positions: q whole elements and e further bits are consumed"""
    for c in own(rep, prog, r'BitIter::<.*>::new$', 'starts at the first bit'):
        x = c.p[0]
        n = LEN(x)
        r = c.r.ret
        it = FIELD(r, 0, 0)
        if it.op != 'agg' or it.a[0] != 'it:slice':
            c.ob('start', UNDECIDED, 'representation: %s' % show(it, 3)[:100])
            continue
        c.ob('position', *same(FIELD(r, 0, 2), mkint(0)))
        c.ob('first element', *opt(FIELD(r, 0, 1), LT(mkint(0), n), SEL(x, mkint(0))))
        c.ob('remaining elements start', *same(it.a[3], ITE(LT(mkint(0), n), mkint(1), mkint(0))))
        c.ob('remaining elements end', *same(it.a[4], n))
    for c in own(rep, prog, r'BitIter<.*Iterator>::next$', 'yields bit p and advances to p+1 while p is within the slice, then nothing'):
        g = state(c)
        if g is None:
            continue
        S, n, sub, inv, w = g
        live = AND(inv, LT(Q, n))
        done = AND(inv, EQ(Q, n))
        ret = sub(c.r.ret)
        fin = sub(c.final(0))
        c.ob('yields exactly while bits remain', *same(some_cond(ret), LT(Q, n), inv))
        p = payload(ret)
        if p is not None:
            m = BIN('shl', c.limb, mkint(1, c.limb), E)
            c.ob('bit', *bitwise(p, NE(BIN('band', c.limb, SEL(S, Q), m), mkint(0, c.limb)), live, E, w))
        it = FIELD(fin, 0, 0)
        if it.op != 'agg' or it.a[0] != 'it:slice':
            c.ob('state', UNDECIDED, show(it, 3)[:100])
            continue
        last = EQ(E, mkint(w - 1))
        one, two = mkint(1), mkint(2)
        add = lambda a, b: unlin(lin(a).add(lin(b)))
        mn = lambda a, b: ITE(LT(a, b), a, b)
        c.ob('position afterwards', *same(FIELD(fin, 0, 2), add(unlin(lin(Q).scale(w).add(lin(E))), one), live))
        c.ob('position at the end', *same(BIN('rem', 'usize', FIELD(fin, 0, 2), mkint(w)), mkint(0), AND(done, EQ(E, mkint(0)))))
        for nm, pre, nx in (('within an element', NOT(last), Q), ('at the end of an element', last, add(Q, one))):
            pre = AND(live, pre)
            c.ob('current element %s' % nm, *opt(FIELD(fin, 0, 1), LT(nx, n), SEL(S, nx), pre))
            c.ob('remaining elements %s' % nm, *same(it.a[3], mn(add(nx, one), n), pre))
        c.ob('stays exhausted', *same(some_cond(FIELD(fin, 0, 1)), FALSE, done))
        c.quiet(skip=('overflow:Add',))
    for rx, get in ((r'BitIter<.*ExactSizeIterator>::len$', None), (r'BitIter<.*Iterator>::size_hint$', 'both')):
        for c in own(rep, prog, rx, 'the number of bits not yet yielded'):
            g = state(c)
            if g is None:
                continue
            S, n, sub, inv, w = g
            rem = unlin(lin(n).scale(w).add(lin(Q).scale(w), -1).add(lin(E), -1))
            ret = sub(c.r.ret)
            if get is None:
                c.ob('value', *same(ret, rem, inv))
            else:
                c.ob('lower bound', *same(FIELD(ret, 0, 0), rem, inv))
                up = FIELD(ret, 0, 1)
                c.ob('upper bound given', *same(some_cond(up), TRUE, inv))
                p = payload(up)
                if p is not None:
                    c.ob('upper bound', *same(p, rem, inv))
            bad = [(x, k) for x, k, _ in c.r.panics if k.startswith('overflow:Sub')]
            for x, k in bad:
                c.ob('no underflow', *same(sub(x), FALSE, inv))


def bitwise(a, b, pre, e, w):
    for k in range(w):
        f = lambda t: subst(t, lambda x: mkint(k) if x is e else None)
        why = bits.equal(f(a), f(b), f(pre), True)
        if why is not None:
            return same(a, b, pre)
    return (HOLD,)


def opt(t, some, val, pre=TRUE):
    v, d = same(some_cond(t), some, pre)
    if v != HOLD:
        return v, d
    p = payload(t)
    if p is None:
        return same(some, FALSE, pre)
    return same(p, val, AND(pre, some))


def state(c):
    """the iterator at position (q, e), as a substitution into the summary"""
    p = c.p[0]
    it = FIELD(p, 0, 0)
    cur, idx = FIELD(p, 0, 1), FIELD(p, 0, 2)
    if it.op != 'agg' or it.a[0] != 'it:slice' or it.a[3].op != 'sym' or cur.op != 'sym' or tyof(idx) != 'usize':
        c.ob('representation', UNDECIDED, show(p, 3)[:200])
        return None
    S = c.r.engine.mem_init(it.a[2])
    n, w = LEN(S), c.w
    o = some_like(c, cur, S)
    pos = unlin(lin(Q).scale(w).add(lin(E)))
    nxt = unlin(lin(Q).add(lin(mkint(1))))
    mp = {it.a[3]: ITE(LT(nxt, n), nxt, n), it.a[4]: n, cur: o}

    def f(x):
        if x in mp:
            return mp[x]
        if x.op == 'rem' and x.a[1] is idx and x.a[2] is mkint(w):
            return E
        if x.op == 'div' and x.a[1] is idx and x.a[2] is mkint(w):
            return Q
        if x is idx:
            return pos
        return None
    lim = 1 << 40
    inv = AND(LT(E, mkint(w)), OR(LT(Q, n), AND(EQ(Q, n), EQ(E, mkint(0)))), LT(n, mkint(lim)))
    return S, n, (lambda t: subst(t, f)), inv, w


def some_like(c, cur, S):
    return ITE(LT(Q, LEN(S)), AGG('core::option::Option', 1, SEL(S, Q)), AGG('core::option::Option', 0))


def shrinks(rep, prog):
    for c in own(rep, prog, r'IntSlice<T>>::shrink$', 'keeps exactly the elements up to the last non-zero one, and one if there is none'):
        x = c.p[0]
        n = LEN(x)
        r = c.r.ret
        eng = c.r.engine
        seq = eng.reify(c.r.state, r) if not isseq(r) else r
        with c.whole({x: seqty(c.limb)}, {'elements': seq}, lambda v: {'elements': trim(v)}, limb=c.limb):
            shrunk(c, x, n, seq)


def shrunk(c, x, n, seq):
        Ls = [l for l in c.r.loops.values()]
        if len(Ls) != 1:
            c.ob('result', UNDECIDED, 'another kind of search')
            return
        m = LEN(seq)
        st = Spec('down', n, {}, lambda s: {}, lambda s: {'length': ITE(EQ(n, mkint(0)), mkint(0), mkint(1))},
                  exits=lambda s: [(NE(SEL(x, BIN('sub', 'usize', IT, mkint(1))), mkint(0, c.limb)), {'length': IT})], stop_ok=lambda s: EQ(IT, mkint(1)), inv=lambda s: NOT(LT(n, IT)))
        for what, v, d in compare(Ls[0], {'length': m}, st):
            c.ob(what, v, d)
        base = seq
        while base.op == 'ite':
            base = base.a[1]
        prefix = all(l is x or (l.op == 'sub' and l.a[0] is x and l.a[1] is mkint(0)) for l in leaves(seq))
        c.ob('a prefix of the elements', HOLD if prefix else UNDECIDED, show(seq, 4)[:200])


def leaves(t):
    if t.op == 'ite':
        return leaves(t.a[1]) + leaves(t.a[2])
    return [t]
