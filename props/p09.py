"""P09 - shifts and bitwise operations move and combine exactly the right bits."""
from .compc import *
from .bitsc import *
from .bitsc import _val, _limbs
from sa import bits
from sa.point import lin, unlin

RULE = ('Each operation is brought to the closed form of one limb of its result at a symbolic position, for symbolic lengths and shift amount (counted loops with '
        'affine indices are solved for the iterations that write the position), and compared bit by bit with the defining formula; guards and index bounds of the '
        'in-place forms are compared with the required conditions.')
SHR_ = {('IntSlice', 'shrink'): {}}


def limbs(rep, prog, trait, name, rule, kinds=('slice', 'vec')):
    for b, limb, kind in methods(prog, trait, name, kinds):
        c = Comp(rep, prog, b, rule, key='%s::%s at %s %s' % (trait, name, limb, kind), hooks={'call': contract_hook(SHR_)})
        c.limb, c.w = limb, WIDTH[limb]
        yield c


def bits_eq(c, what, x, spec, pre=TRUE, boolean=False):
    try:
        why = bits.equal(x, spec, pre, boolean)
    except RecursionError:
        why = 'recursion'
    if why is None:
        c.ob(what, HOLD)
        return
    with natural():
        v, d = same(x, spec, pre)
        env = getattr(why, 'env', None)
        if v == UNDECIDED and env:
            # a witness with the remainders for which the bits differ
            for k in range(24):
                fx = {(b.a[1], 'usize'): b.a[2].a[0] * (k % 6) + e for b, e in env.items() if b.a[1].op == 'sym'}
                w, _ = separate(x, spec, pre, n=120, seed=k, fixed=fx)
                if w is not None:
                    v, d = VIOLATED, w
                    break
    c.ob(what, v, {'value': show(x, 12)[:700], 'required': show(spec, 12)[:500], 'witness': d, 'bits': why})


def value(c, what, seq, spec, pre=TRUE, exact_len=None):
    """limb I of the result (zero beyond its length) equals spec, for every I"""
    while seq.op == 'op' and seq.a[0] == 'IntSlice::shrink':
        seq = seq.a[1]
    try:
        n = closed(LEN(seq), c.r.loops, pre)
        if exact_len is not None:
            c.ob(what + ': length', *same(n, exact_len, pre))
        x = read(c.r, seq, [I], AND(pre, LT(I, n)))
    except Fail as f:
        c.ob(what, UNDECIDED, 'no closed form: %s' % f)
        return
    bits_eq(c, what, x, spec, AND(pre, LT(I, n)))
    if exact_len is None:
        bits_eq(c, what + ': nothing beyond the result', mkint(0, c.limb), spec, AND(pre, NOT(LT(I, n))))


def BOR(ty, a, b):
    return BIN('bor', ty, a, b)


def sub_(a, b):
    return unlin(lin(a).add(lin(b), -1))


def plus(a, b):
    return unlin(lin(a).add(lin(b)))


def shl_spec(limb, x, n, right):
    w = WIDTH[limb]
    q, e = BIN('div', 'usize', right, mkint(w)), BIN('rem', 'usize', right, mkint(w))
    z = mkint(0, limb)
    lo = ITE(AND(NOT(LT(I, q)), LT(I, plus(q, n))), BIN('shl', limb, SEL(x, sub_(I, q)), e), z)
    hi = ITE(EQ(e, mkint(0)), z, ITE(AND(LT(q, I), LT(I, plus(plus(q, n), mkint(1)))),
                                     BIN('shr', limb, SEL(x, sub_(I, plus(q, mkint(1)))), BIN('sub', 'usize', mkint(w), e)), z))
    return BOR(limb, lo, hi)


def shr_spec(limb, x, n, right):
    w = WIDTH[limb]
    q, e = BIN('div', 'usize', right, mkint(w)), BIN('rem', 'usize', right, mkint(w))
    z = mkint(0, limb)
    lo = ITE(LT(plus(I, q), n), BIN('shr', limb, SEL(x, plus(I, q)), e), z)
    p1 = plus(plus(I, q), mkint(1))
    hi = ITE(EQ(e, mkint(0)), z, ITE(LT(p1, n), BIN('shl', limb, SEL(x, p1), BIN('sub', 'usize', mkint(w), e)), z))
    return BOR(limb, lo, hi)


def run():
    rep = Report('P09', RULE, ['slice lengths times limb size fit the address space'])
    prog = facts.load('numeric_bits')
    n = 0
    for op, tr, m in (('band', 'ElementBitand', 'bitand'), ('bor', 'ElementBitor', 'bitor'), ('bxor', 'ElementBitxor', 'bitxor')):
        for c in limbs(rep, prog, tr, m, 'limb i is left[i] %s right[i], missing limbs being zero' % m):
            n += 1
            if c:
                l, r = c.p
                g = lambda s: ITE(LT(I, LEN(s)), SEL(s, I), mkint(0, c.limb))
                py = {'band': lambda a, b: a & b, 'bor': lambda a, b: a | b, 'bxor': lambda a, b: a ^ b}[op]
                with c.whole({l: seqty(c.limb), r: seqty(c.limb)}, {'limbs': c.r.ret}, lambda a, b: {'limbs': num(py(_val(c.limb, a), _val(c.limb, b)))}, limb=c.limb):
                    value(c, 'limb i', c.r.ret, BIN(op, c.limb, g(l), g(r)))
                    c.quiet()
    for c in limbs(rep, prog, 'ElementNot', 'not', 'every limb is complemented in place'):
        n += 1
        if c:
            x = c.p[0]
            with c.whole({x: seqty(c.limb)}, {'limbs': c.final(0)}, lambda a: {'limbs': [v ^ ((1 << c.w) - 1) for v in a]}, limb=c.limb):
                value(c, 'limb i', c.final(0), BNOT(c.limb, SEL(x, I)), exact_len=LEN(x))
                c.quiet()
    for tr, m, spec in (('ElementShl', 'shl', shl_spec), ('ElementShr', 'shr', shr_spec)):
        for c in limbs(rep, prog, tr, m, 'all bits move by the amount, none is lost' if m == 'shl' else 'all bits move down by the amount, the low ones drop out'):
            n += 1
            if c:
                x, right = c.p
                def want(a, k):
                    if k > 9100:
                        return None
                    return {'limbs': num(_val(c.limb, a) << k if m == 'shl' else _val(c.limb, a) >> k)}
                with c.whole({x: seqty(c.limb), right: 'usize'}, {'limbs': c.r.ret}, want, limb=c.limb):
                    value(c, 'limb i', c.r.ret, spec(c.limb, x, LEN(x), right))
                    c.quiet()
    for tr, m, spec in (('ElementShl', 'inner_shl_wrap_and_mask', shl_spec), ('ElementShr', 'inner_shr_wrap_and_mask', shr_spec)):
        for c in limbs(rep, prog, tr, m, 'in place, for amounts up to the length in bits'):
            n += 1
            if c:
                x, right = c.p
                pre = NOT(LT(LEN(x), BIN('div', 'usize', right, mkint(c.w))))

                def want(a, k):
                    if k // c.w > len(a):
                        return None
                    return {'limbs': _limbs(c.limb, _val(c.limb, a) << k if 'shl' in m else _val(c.limb, a) >> k, len(a))}
                with c.whole({x: seqty(c.limb), right: 'usize'}, {'limbs': c.final(0)}, want, limb=c.limb):
                    value(c, 'limb i', c.final(0), spec(c.limb, x, LEN(x), right), AND(pre, LT(I, LEN(x))), exact_len=LEN(x))
                    c.quiet(pre)
    for side, tr, inner in (('shl', 'ElementShl', 'inner_shl_wrap_and_mask'), ('shr', 'ElementShr', 'inner_shr_wrap_and_mask')):
        for form in ('checked', 'wrapping'):
            for b, limb, kind in methods(prog, tr, '%s_%s' % (side, form)):
                n += 1
                rule = {'checked': 'nothing (and no change) exactly when the amount exceeds the length in bits, otherwise shifted by the amount',
                        'wrapping': 'shifted by the amount modulo the length in bits'}[form]
                c = Comp(rep, prog, b, rule, key='%s::%s_%s at %s %s' % (tr, side, form, limb, kind),
                         hooks={'call': contract_hook({(tr, inner): {'mut': (0,), 'ret': 'arg0'}})})
                if not c:
                    continue
                c.limb, c.w = limb, WIDTH[limb]
                derived(c, tr, inner, form)
    rep.floor('shift and bitwise functions', n, 40)
    from .p08 import shrinks
    shrinks(rep, prog)      # the helpers the others are stated with
    return rep


def derived(c, tr, inner, form):
    x, right = c.p
    nm = '%s::%s' % (tr, inner)
    fin = c.final(0)
    bl = BIN('mul', 'usize', LEN(x), mkint(c.w))
    cells_ = []

    def walk(t, cond):
        if t.op == 'ite':
            walk(t.a[1], AND(cond, t.a[0]))
            walk(t.a[2], AND(cond, NOT(t.a[0])))
        else:
            cells_.append((cond, t))
    walk(fin, TRUE)
    over = LT(bl, right)
    for cond, t in cells_:
        if cond is FALSE:
            continue
        if t.op == 'opout' and t.a[0] == nm:
            amount = t.a[3]
            if t.a[2] is not x:
                c.ob('shifts the operand', UNDECIDED, show(t, 5)[:200])
                continue
            if form == 'checked':
                c.ob('amount', *same(amount, right, cond))
                c.ob('shifts only amounts up to the length', *same(AND(cond, over), FALSE))
            else:
                req = BIN('rem', 'usize', right, bl)
                c.ob('amount', *same(amount, req, AND(cond, NE(bl, mkint(0)))))
                c.ob('empty operand', *same(amount, mkint(0), AND(cond, EQ(LEN(x), mkint(0)))))
        elif t is x:
            if form == 'checked':
                c.ob('unchanged only beyond the length', *same(AND(cond, NOT(over)), FALSE))
            else:
                c.ob('always shifts', *same(AND(cond, NE(bl, mkint(0))), FALSE))
        else:
            c.ob('result', UNDECIDED, show(t, 5)[:200])
    if form == 'checked':
        c.ob('nothing exactly beyond the length', *same(some_cond(c.r.ret), NOT(over)))
    c.quiet(skip=('overflow:Mul', 'overflow:Add'))


from .p20 import some_cond
