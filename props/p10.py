"""P10 - the bit-at-a-time algorithms give the results of the limb-wise ones."""
from .p07 import *
from .p07 import _val, _limbs, AT
from .p11 import some, NONE

RULE = ('Each bit-at-a-time loop is matched with its recurrence over bit positions (full adder, full subtractor, shift-and-add, bit move) for symbolic lengths and contents; '
        'bit accesses and limb operations it calls are used by their contracts.')


def PUSHB(s, i, v):
    return raw('opout', 'setbitpush', 0, s, i, v)


def sem_push(e, s, i, v):
    w = WIDTH[e]
    if i > 4096:
        return None
    n = max(len(s), i // w + 1)
    x = _val(e, s)
    x = x | 1 << i if v else x & ~(1 << i)
    return None, {0: _limbs(e, x, n)}


def sem_add(e, a, b):
    return None, {0: _limbs(e, _val(e, a) + _val(e, b), max(len(a), len(b)) + 1)}


def sem_shl(e, a, k):
    if k > 512:
        return None
    return None, {0: _limbs(e, _val(e, a) << k, len(a) + k // WIDTH[e] + 1)}


OPSEM.update({'setbitpush': sem_push, 'sum': sem_add, 'shifted': sem_shl})


def SUM(a, b):
    return raw('opout', 'sum', 0, a, b)


def SHIFTED(a, k):
    return raw('opout', 'shifted', 0, a, k)


BITER = '#BitIter'    # the bit iterator by its contract (P08): the sequence and the next position


def hook10():
    base = hook()

    def f(eng, fr, s, c, args, atys, dty, cond, where):
        p = c.get('p', '')
        if p.endswith('::set_bit_push') and 'BitVecExt' in p + str(c.get('tr', '')):
            vals = [eng.reify(s, a) for a in args]
            eng.store(s, args[0], PUSHB(*vals))
            return UNIT
        if p.endswith('::iter_bits') and 'BitSliceExt' in p + str(c.get('tr', '')):
            return AGG(BITER, 0, raw('bitsof', eng.reify(s, args[0])), mkint(0))
        if p.endswith('::next') and 'iter::BitIter<' in str(c.get('rp', '')):
            it = eng.reify(s, args[0])
            src, at = FIELD(it, 0, 0), FIELD(it, 0, 1)
            if src.op == 'bitsof':
                more = LT(at, BITS(src.a[0]))
                eng.store(s, args[0], AGG(BITER, 0, src, BIN('add', 'usize', at, mkint(1))))
                return ITE(more, some(BIT(src.a[0], at)), NONE)
        for tr, m, g in (('ElementAdd', 'add', SUM), ('ElementShl', 'shl', SHIFTED)):
            if p.endswith('::' + m) and tr in p + str(c.get('tr', '')):
                return g(*[eng.reify(s, a) for a in args])
        return base(eng, fr, s, c, args, atys, dty, cond, where)
    return f


def XOR3(a, b, c):
    x = lambda p, q: ITE(p, NOT(q), q)
    return x(a, x(b, c))


def MAJ(a, b, c):
    return OR(AND(a, b), AND(a, c), AND(b, c))


def the_loop(c, outs):
    Ls = [L for L in c.r.loops.values() if any(x.op in ('fin', 'exitsel') and x.a[0] == L.id for o in outs.values() for x in subterms(o))]
    if len(Ls) != 1:
        c.ob('loop', UNDECIDED, '%d loops' % len(Ls))
        return None
    L = Ls[0]
    # an exit into unreachable code never happens
    return L


def run():
    rep = Report('P10', RULE)
    prog = facts.load('numeric_bits')
    n = 0

    def each(tr, name, rule):
        nonlocal n
        for b, limb, kind in methods(prog, tr, name):
            n += 1
            c = Comp(rep, prog, b, rule, key='%s::%s at %s %s' % (tr, name, limb, kind), hooks={'call': hook10()})
            if c:
                c.limb = limb
                yield c
    S = lambda limb: sym('#S', seqty(limb))
    cy = sym('#c', 'bool')
    one = mkint(1)
    for c in each('BitwiseAdd', 'add', 'the full sum, with the last carry'):
        L, R = c.p
        m = MAX(BITS(L), BITS(R))
        z = raw('rep', mkint(0, c.limb), MAX(LEN(L), LEN(R)))
        s = S(c.limb)
        LENS.pop(s, None)

        def mk(N, keep):
            def step(st):
                l, r = BIT0(L, IT), BIT0(R, IT)
                x = XOR3(l, r, st['carry'])
                return {'sum': ITE(x, PUSHB(st['sum'], IT, TRUE), st['sum']) if keep else PUSHB(st['sum'], IT, x), 'carry': MAJ(l, r, st['carry'])}
            return Spec('up', N, {'sum': (z, s), 'carry': (FALSE, cy)}, step, lambda st: {'sum': st['sum']},
                        inv=lambda st: OR(LT(IT, m), NOT(BIT(st['sum'], IT))))
        outs = {'sum': c.r.ret}
        V, S_ = (lambda v, e=c.limb: _val(e, v)), seqty(c.limb)
        with c.whole({L: S_, R: S_}, outs, lambda a, b: {'sum': num(V(a) + V(b))}, **AT[c.limb]):
            Lp = the_loop(c, outs)
            if Lp:
                variants(c, Lp, outs, [mk(BIN('add', 'usize', m, one), True)])
    for c in each('BitwiseAdd', 'add_in_place', 'the sum modulo the width of the left operand'):
        L, R = c.p
        s = S(c.limb)
        LENS[s] = LEN(L)

        def step(st):
            l, r = BIT(st['sum'], IT), BIT0(R, IT)
            return {'sum': SETB(st['sum'], IT, XOR3(l, r, st['carry'])), 'carry': MAJ(l, r, st['carry'])}
        outs = {'sum': c.final(0)}
        V, S_ = (lambda v, e=c.limb: _val(e, v)), seqty(c.limb)
        with c.whole({L: S_, R: S_}, outs, lambda a, b: {'sum': _limbs(c.limb, V(a) + V(b), len(a))}, **AT[c.limb]):
            Lp = the_loop(c, outs)
            if Lp:
                variants(c, Lp, outs, [Spec('up', BITS(L), {'sum': (L, s), 'carry': (FALSE, cy)}, step, lambda st: {'sum': st['sum']})])
    for c in each('BitwiseSub', 'sub', 'magnitude and sign of the difference'):
        L, R = c.p
        s = S(c.limb)
        m = MAX(LEN(L), LEN(R))
        LENS[s] = m
        z = raw('rep', mkint(0, c.limb), m)

        def step(st):
            l, r = BIT0(L, IT), BIT0(R, IT)
            return {'difference': SETB(st['difference'], IT, XOR3(l, r, st['borrow'])), 'borrow': MAJ(NOT(l), r, st['borrow'])}

        def out(st, limb=c.limb):
            d = st['difference']
            ng = CALL('ElementMul::add_item', 0, CALL('ElementNot::not', 0, d), mkint(0), mkint(1, limb))
            return {'magnitude': ITE(st['borrow'], ng, d), 'negative': st['borrow']}
        outs = {'magnitude': FIELD(c.r.ret, 0, 0), 'negative': FIELD(c.r.ret, 0, 1)}
        V, S_ = (lambda v, e=c.limb: _val(e, v)), seqty(c.limb)
        with c.whole({L: S_, R: S_}, outs, lambda a, b: {'magnitude': num(abs(V(a) - V(b))), 'negative': V(a) < V(b)}, **AT[c.limb]):
            Lp = the_loop(c, outs)
            if Lp:
                variants(c, Lp, outs, [Spec('up', N, {'difference': (z, s), 'borrow': (FALSE, cy)}, step, out)
                                       for N in (MAX(BITS(L), BITS(R)), BIN('mul', 'usize', m, mkint(WIDTH[c.limb])))])
    for c in each('BitwiseMul', 'mul', 'shift and add'):
        L, R = c.p
        s, t = S(c.limb), sym('#T', seqty(c.limb))
        LENS.pop(s, None)
        LENS.pop(t, None)
        z = raw('rep', mkint(0, c.limb), BIN('mul', 'usize', MAX(LEN(L), LEN(R)), mkint(2)))

        def step(st):
            return {'product': ITE(BIT(R, IT), SUM(st['product'], st['shifted']), st['product']),
                    'shifted': SHIFTED(st['shifted'], mkint(1))}
        outs = {'product': c.r.ret}
        V, S_ = (lambda v, e=c.limb: _val(e, v)), seqty(c.limb)
        with c.whole({L: S_, R: S_}, outs, lambda a, b: {'product': num(V(a) * V(b))}, **AT[c.limb]):
            Lp = the_loop(c, outs)
            if Lp:
                variants(c, Lp, outs, [Spec('up', BITS(R), {'product': (z, s), 'shifted': (i0, t)}, step, lambda st: {'product': st['product']})
                                       for i0 in (SHIFTED(L, mkint(0)), L)])
    for c in each('BitwiseShr', 'shr', 'the bits move down, none is lost but those shifted out'):
        L, k = c.p
        s = S(c.limb)
        LENS[s] = LEN(L)
        z = raw('rep', mkint(0, c.limb), LEN(L))
        if not (c.r.ret.op == 'op' and c.r.ret.a[0] == 'IntSlice::shrink'):
            c.ob('trimmed', UNDECIDED, show(c.r.ret, 3)[:80])
            continue
        outs = {'limbs': c.r.ret.a[1]}
        specs = []
        for extra in (1, 0):
            N = BIN('add', 'usize', BITS(L), one) if extra else BITS(L)
            ix = BIN('sub', 'usize', IT, one)

            def step(st):
                to = BIN('sub', 'usize', ix, k)
                return {'limbs': ITE(AND(NOT(LT(ix, k)), LT(to, BITS(L))), SETB(st['limbs'], to, BIT0(L, ix)), st['limbs'])}
            specs.append(Spec('down', N, {'limbs': (z, s)}, step, lambda st: {'limbs': st['limbs']},
                              inv=lambda st, N=N: AND(LE(IT, N), OR(EQ(IT, mkint(0)), NOT(BIT(st['limbs'], BIN('sub', 'usize', ix, k)))))))
        V, S_ = (lambda v, e=c.limb: _val(e, v)), seqty(c.limb)
        with c.whole({L: S_, k: 'usize'}, outs, lambda a, k: {'limbs': num(V(a) >> k)} if k < 4096 else None, **AT[c.limb]):
            Lp = the_loop(c, outs)
            if Lp:
                variants(c, Lp, outs, specs)
    for c in each('BitwiseShl', 'shl', 'the bits move up, none is lost'):
        L, k = c.p
        s = S(c.limb)
        LENS.pop(s, None)
        z = raw('rep', mkint(0, c.limb), LEN(L))
        outs = {'limbs': c.r.ret}
        to = BIN('add', 'usize', IT, k)
        specs = []
        for cond in (lambda: OR(BIT(L, IT), LT(to, BITS(L))), lambda: BIT(L, IT), lambda: TRUE):
            def step(st, cond=cond):
                return {'limbs': ITE(cond(), PUSHB(st['limbs'], to, BIT(L, IT)), st['limbs'])}
            specs.append(Spec('up', BITS(L), {'limbs': (z, s)}, step, lambda st: {'limbs': st['limbs']}))
        V, S_ = (lambda v, e=c.limb: _val(e, v)), seqty(c.limb)
        with c.whole({L: S_, k: 'usize'}, outs, lambda a, k: {'limbs': num(V(a) << k)} if k < 512 else None, **AT[c.limb]):
            Lp = the_loop(c, outs)
            if Lp:
                variants(c, Lp, outs, specs)
    rep.floor('bit-at-a-time algorithms', n, 24)
    from .p04 import contracts
    contracts(rep, prog)      # the helpers the others are stated with
    return rep
