"""P07 - multi-limb division: quotient and remainder."""
from .compc import *
from .bitsc import *
from .p06 import ORD, LESS, EQUAL, GREATER
from .bitsc import _val, _limbs
from .p20 import some_cond
from sa import bits
from sa.point import lin, unlin

RULE = ('The division loop is matched with the restoring-division recurrence: from the top bit down, the remainder is doubled and receives the next bit of the '
        'dividend, and when it is not below the divisor the divisor is subtracted and the quotient bit set; operations on limb sequences it calls are used by their '
        'contracts (decided under P04, P06, P08, P09). Zero divisors are refused before anything else.')

BITOPS = {'get_bit', 'get_bit_opt', 'set_bit', 'set_bit_opt', 'set_bit_ignore', 'set_bit_push'}
OPS = {('ElementShl', 'shl_wrapping'): {'mut': (0,), 'ret': 'arg0'}, ('ElementSub', 'sub_wrapping'): {'mut': (0,), 'ret': 'arg0'},
       ('ElementAdd', 'add_wrapping'): {'mut': (0,), 'ret': 'arg0'}, ('ElementShr', 'shr_wrapping'): {'mut': (0,), 'ret': 'arg0'},
       ('IntSlice', 'shrink'): {}, ('ElementAdd', 'add'): {}, ('ElementShl', 'shl'): {}, ('ElementNot', 'not'): {'mut': (0,), 'ret': 'arg0'},
       ('ElementMul', 'add_item'): {'mut': (0,), 'ret': 'bool'}}


def BIT(s, i):
    return raw('tcall', 'bool', raw('op', 'bit', s, i))


def BITS(s):
    return BIN('mul', 'usize', LEN(s), mkint(WIDTH[elemty(s)]))


def BIT0(s, i):
    return AND(LT(i, BITS(s)), BIT(s, i))


def SETB(s, i, v):
    t = raw('opout', 'setbit', 0, s, i, v)
    LENS[t] = LEN(s)
    return t


def sem_setbit(e, s, i, v):
    w = WIDTH[e]
    if i >= w * len(s):
        return None
    x = _val(e, s)
    x = x | 1 << i if v else x & ~(1 << i)
    return None, {0: _limbs(e, x, len(s))}


def sem_bit(e, s, i):
    return bool(_val(e, s) >> i & 1), {}


def sem_shlw(e, s, n):
    w = WIDTH[e] * len(s)
    return None, {0: _limbs(e, _val(e, s) << (n % w if w else 0), len(s))}


def sem_shrw(e, s, n):
    w = WIDTH[e] * len(s)
    return None, {0: _limbs(e, _val(e, s) >> (n % w if w else 0), len(s))}


def sem_subw(e, s, r):
    return None, {0: _limbs(e, _val(e, s) - _val(e, r), len(s))}


def sem_addw(e, s, r):
    return None, {0: _limbs(e, _val(e, s) + _val(e, r), len(s))}


OPSEM.update({'setbit': sem_setbit, 'bit': sem_bit, 'ElementShl::shl_wrapping': sem_shlw, 'ElementSub::sub_wrapping': sem_subw,
              'ElementAdd::add_wrapping': sem_addw, 'ElementShr::shr_wrapping': sem_shrw})


def VLT(a, b):
    return raw('tcall', 'bool', raw('op', 'vlt', a, b))


OPSEM['vlt'] = lambda e, a, b: (_val(e, a) < _val(e, b), {})
OPSEM['iszero'] = lambda e, a: (_val(e, a) == 0, {})


def some(v, ty='core::option::Option'):
    return AGG(ty, 1, v)


NONE = AGG('core::option::Option', 0)


def hook(extra=None):
    base = contract_hook({**OPS, **(extra or {})})

    def f(eng, fr, s, c, args, atys, dty, cond, where):
        p = c.get('p', '')
        m = p.split('::')[-1]
        if m == 'cmp' and 'ElementCmp' in p + str(c.get('tr', '')):
            a, b = [eng.reify(s, x) for x in args]
            return ITE(VLT(a, b), LESS, ITE(VLT(b, a), GREATER, EQUAL))
        if m in BITOPS and 'BitSliceExt' in p + str(c.get('tr', '')):
            vals = [eng.reify(s, a) for a in args]
            S, i = vals[:2]
            if elemty(S) in WIDTH:
                ok = LT(i, BITS(S))
                if m in ('get_bit', 'set_bit'):
                    eng.res.panics.append((AND(cond, NOT(ok)), 'bit index', where))
                if m == 'get_bit':
                    return BIT(S, i)
                if m == 'get_bit_opt':
                    return ITE(ok, some(BIT(S, i)), NONE)
                eng.store(s, args[0], SETB(S, i, vals[2]) if m == 'set_bit' else ITE(ok, SETB(S, i, vals[2]), S))
                return ITE(ok, some(UNIT), NONE) if m == 'set_bit_opt' else UNIT
        return base(eng, fr, s, c, args, atys, dty, cond, where)
    return f


def refuses_zero(c, D, cond=None, what='refuses a zero divisor', more=None, pre=TRUE):
    """the search over the divisor's limbs that guards everything: reaching its end (all limbs zero) refuses, a non-zero limb goes on.
    more: {name: (term, value when refused, value otherwise)}"""
    pc = cond
    if pc is None:
        pc = FALSE
        for (k, kd, w) in c.r.panics:
            if kd.startswith('panic'):
                pc = OR(pc, k)
    more = more or {}
    used = {x.a[0] for t in [pc] + [m[0] for m in more.values()] for x in subterms(t) if x.op in ('exitsel', 'fin')}
    Ls = [L for L in c.r.loops.values() if L.id in used and any(x.op == 'sel' and x.a[0] is D for e in L.exits for x in subterms(e[0]))]
    if len(Ls) > 1:
        # a repeated test decides nothing new
        Ls = Ls[:1] if same_search(Ls) else Ls
    if len(Ls) != 1:
        if not Ls and not any(x.op in ('exitsel', 'fin', 'phi') for x in subterms(pc)):
            v, d = same(pc, raw('tcall', 'bool', raw('op', 'iszero', D)), pre)
            c.ob(what, v, d)
            return None
        c.ob(what, UNDECIDED, '%d searches over the divisor' % len(Ls))
        return None
    L = Ls[0]
    spec = Spec('up', LEN(D), {}, lambda s: {}, lambda s: dict({'refused': TRUE}, **{k: m[1] for k, m in more.items()}),
                exits=lambda s: [(NE(SEL(D, IT), mkint(0, elemty(D))), dict({'refused': FALSE}, **{k: m[2] for k, m in more.items()}))])
    for w, v, d in compare(L, dict({'refused': pc}, **{k: m[0] for k, m in more.items()}), spec):
        c.ob('%s: %s' % (what, w), v, d)
    return L


def same_search(Ls):
    def key(L):
        return [show(subst(e[0], lambda x: sym('#k%s' % sorted(L.phis).index(x.a[1]), 'usize') if x.op == 'phi' and x.a[0] == L.id else None), 30) for e in L.exits]
    return all(key(L) == key(Ls[0]) for L in Ls)


def variants(c, L, outs, specs):
    """equivalent forms of the recurrence: any of them will do"""
    best = None
    for sp in specs:
        res = compare(L, outs, sp)
        if all(v == HOLD for _, v, _ in res):
            best = res
            break
        if best is None or (any(v == VIOLATED for _, v, _ in best) and not any(v == VIOLATED for _, v, _ in res)):
            best = res
    for w, v, d in best:
        c.ob(w, v, d)


def restoring(c, Ns, M, D, quot, qi, ri, outs, skip):
    """one of the iteration counts Ns, dividend M (None: the quotient sequence itself), divisor D"""
    i = BIN('sub', 'usize', IT, mkint(1))
    limb = elemty(D)
    q, r = sym('#q', seqty(limb)), sym('#r', seqty(limb))
    LENS[r] = LEN(ri)
    if quot:
        LENS[q] = LEN(qi)
    vs = {'remainder': (ri, r)}
    if quot:
        vs['quotient'] = (qi, q)
    specs = []
    for N in Ns:
        for keep in ((True, False) if M is not None and quot else (False,)):
            def step(st, keep=keep, N=N):
                src = M if M is not None else st['quotient']
                r2 = SETB(SHL1(st['remainder']), mkint(0), BIT0(src, i))
                lt = VLT(r2, D)
                d = {'remainder': ITE(lt, r2, SUBW(r2, D))}
                if quot:
                    d['quotient'] = SETB(st['quotient'], i, NOT(lt)) if not keep else ITE(lt, st['quotient'], SETB(st['quotient'], i, TRUE))
                return d

            def inv(st, keep=keep, N=N):
                x = AND(VLT(st['remainder'], D), NOT(top(st['remainder'])), LE(IT, N))
                if M is not None and quot:
                    x = AND(x, OR(EQ(IT, mkint(0)), NOT(BIT(st['quotient'], i))))
                return x
            specs.append(Spec('down', N, vs, step, lambda st: {k: st[k] for k in outs}, inv=inv))
    Ls = [L for L in c.r.loops.values() if L is not skip and any(x.op in ('fin', 'exitsel') and x.a[0] == L.id for o in outs.values() for x in subterms(o))]
    if len(Ls) != 1:
        c.ob('division loop', UNDECIDED, '%d loops' % len(Ls))
        return
    variants(c, Ls[0], outs, specs)


def within(c, pre):
    """bit indices stay within the sequences (the panics of the bit accessors called)"""
    bad = FALSE
    for (k, kd, w) in c.r.panics:
        if kd == 'bit index':
            bad = OR(bad, k)
    for L in c.r.loops.values():
        for (p, init, step) in L.phis.values():
            if isseq(p):
                bad = subst(bad, lambda x: LEN(init) if x.op == 'len' and x.a[0] is p else None)
    return bad


def top(s):
    """highest bit"""
    return raw('tcall', 'bool', raw('op', 'topbit', s))


OPSEM['topbit'] = lambda e, s: (bool(s) and s[-1] >> (WIDTH[e] - 1) & 1 == 1, {})


def SHL1(s):
    return CALL('ElementShl::shl_wrapping', 0, s, mkint(1))


def SUBW(s, d):
    return CALL('ElementSub::sub_wrapping', 0, s, d)


def by_digits(c, M, D, skip):
    """limb-at-a-time division: the digit is counted by repeated subtraction"""
    w = mkint(WIDTH[elemty(D)])
    outs = {}
    for k, nm in ((0, 'quotient'), (1, 'remainder')):
        t = FIELD(c.r.ret, 0, k)
        if not (t.op == 'op' and t.a[0] == 'IntSlice::shrink'):
            c.ob(nm, UNDECIDED, 'not trimmed: %s' % show(t, 3)[:80])
            return
        outs[nm] = t.a[1]
    outer = [L for L in c.r.loops.values() if L is not skip and any(x.op == 'fin' and x.a[0] == L.id for o in outs.values() for x in subterms(o))]
    inner_ = [L for L in c.r.loops.values() if L is not skip and L not in outer]
    if len(outer) != 1 or len(inner_) != 1:
        c.ob('division loops', UNDECIDED, '%d and %d loops' % (len(outer), len(inner_)))
        return
    outer, inn = outer[0], inner_[0]
    # the counting loop: while the remainder is not below the divisor, subtract it and add the unit
    if len(inn.exits) != 1 or len(inn.phis) != 2:
        c.ob('digit', UNDECIDED, 'another kind of loop')
        return
    e = inn.exits[0][0]
    rem = [p for p, _, _ in inn.phis.values() if any(x is p for x in subterms(e))]
    if len(rem) != 1:
        c.ob('digit', UNDECIDED, 'another kind of loop')
        return
    rem = rem[0]
    qk = [k for k, v in inn.phis.items() if v[0] is not rem][0]
    qp, qi, qs = inn.phis[qk]
    rk = [k for k, v in inn.phis.items() if v[0] is rem][0]
    _, r0, rs = inn.phis[rk]
    r_, q_, o_ = (sym('#%s' % x, seqty(elemty(D))) for x in 'rqo')
    one = [x for x in subterms(qs) if x.op == 'phi' and x.a[0] == outer.id and isseq(x)]
    if len(one) != 1:
        c.ob('digit', UNDECIDED, 'unit of the digit')
        return
    one = one[0]
    n0 = MAX(LEN(M), LEN(D))
    for s_ in (r_, q_, o_):
        LENS[s_] = n0
    mp = {rem: r_, qp: q_, one: o_}
    m = lambda t: subst(t, lambda x: mp.get(x))
    c.ob('digit: goes on exactly while the remainder is not below the divisor', *same(m(e), VLT(r_, D)))
    go = NOT(VLT(r_, D))
    c.ob('digit: subtracts the divisor', *same(m(rs), SUBW(r_, D), go))
    c.ob('digit: counts', *same(m(qs), CALL('ElementAdd::add_wrapping', 0, q_, o_), go))
    # the outer loop with the digit as one step
    N = n0
    i = BIN('sub', 'usize', IT, mkint(1))
    limb = elemty(D)
    f = {raw('fin', inn.id, rk, rem.a[2]): DIGR(r0, D), raw('fin', inn.id, qk, qp.a[2]): DIGQ(qi, r0, D, one)}
    O2 = resub(outer, lambda x: f.get(x))
    z = raw('rep', mkint(0, limb), N)

    def step(st):
        r1 = UPD(CALL('ElementShl::shl_wrapping', 0, st['remainder'], w), mkint(0), get0(M, i, limb))
        return {'remainder': DIGR(r1, D), 'quotient': DIGQ(st['quotient'], r1, D, st['unit']), 'unit': CALL('ElementShr::shr_wrapping', 0, st['unit'], w)}
    unit0 = UPD(z, BIN('sub', 'usize', N, mkint(1)), mkint(1, limb))
    ini = outer.phis[one.a[1]][1]
    v, d = same(ini, unit0, LT(mkint(0), N))
    c.ob('unit starts at the top limb', v, d)
    vs = {'remainder': (z, r_), 'quotient': (z, q_), 'unit': (ANY, o_)}
    spec = Spec('down', N, vs, step, lambda st: {k: st[k] for k in outs}, inv=lambda st: AND(LE(IT, N), LT(mkint(0), N)))
    for what, v, d in compare(O2, outs, spec):
        c.ob(what, v, d)


def DIGR(r, d):
    t = raw('opout', 'digit', 0, r, d)
    LENS[t] = LEN(r)
    return t


def DIGQ(q, r, d, one):
    t = raw('opout', 'digitq', 0, q, r, d, one)
    LENS[t] = LEN(q)
    return t


def sem_digit(e, r, d):
    y = _val(e, d)
    return None if y == 0 else (None, {0: _limbs(e, _val(e, r) % y, len(r))})


def sem_digitq(e, q, r, d, one):
    y = _val(e, d)
    return None if y == 0 else (None, {0: _limbs(e, _val(e, q) + _val(e, r) // y * _val(e, one), len(q))})


OPSEM.update({'digit': sem_digit, 'digitq': sem_digitq})
INPLACE = {('BitwiseDiv', n + '_long_overflowing'): {'mut': (0, 2), 'ret': 'arg0,bool'} for n in ('div', 'rem')}


AT = {'u8': dict(limb='u8', tries=120, lens=(0, 1, 2, 3)), 'usize': dict(limb='usize', tries=60, lens=(0, 1, 2, 2))}


def scratch(rnd, py):
    return [py[0], py[1], [0] * len(py[0])]


AT3 = {k: dict(v, pick=scratch) for k, v in AT.items()}


def digits(limb):
    """operands whose quotient has small digits (they are counted)"""
    def f(rnd, py):
        m, d = py
        if _val(limb, d) and limb != 'u8':
            q = _limbs(limb, sum(rnd.randrange(5) << (WIDTH[limb] * k) for k in range(2)), 2)
            t = _val(limb, d) * _val(limb, q) + rnd.randrange(_val(limb, d))
            n = max(len(m), -(-t.bit_length() // WIDTH[limb]))
            m = _limbs(limb, t, n)
        return [m, d]
    return f


def divided(limb, flag=None, tidy=False):
    def want(m, d, s=None):
        if not d:
            return None
        x, y = _val(limb, m), _val(limb, d)
        if y == 0:
            return 'panic'
        n = len(m) if s is not None else max(len(m), len(d))
        out = {'quotient': _limbs(limb, x // y, n), 'remainder': _limbs(limb, x % y, n)}
        if tidy:
            out = {k: trim(v) for k, v in out.items()}
        if flag is not None:
            out['flag'] = flag
        return out
    return want


def run():
    rep = Report('P07', RULE, ['64-bit target', 'in-place forms: the scratch sequence is zero and as long as the dividend (its documented use)'])
    prog = facts.load('numeric_bits')
    n = 0
    for b, limb, kind in methods(prog, 'BitwiseDiv', 'div_long'):
        n += 1
        c = Comp(rep, prog, b, 'quotient and remainder of any two lengths', key='BitwiseDiv::div_long at %s %s' % (limb, kind), hooks={'call': hook()})
        if not c:
            continue
        M, D = c.p
        m = MAX(LEN(M), LEN(D))
        zero = raw('rep', mkint(0, limb), m)
        outs = {'quotient': FIELD(c.r.ret, 0, 0), 'remainder': FIELD(c.r.ret, 0, 1)}
        with c.whole({M: seqty(limb), D: seqty(limb)}, outs, divided(limb), **AT[limb]):
          Z = refuses_zero(c, D)
          restoring(c, [MAX(BITS(M), BITS(D)), BITS(M), BIN('mul', 'usize', m, mkint(WIDTH[limb]))], M, D, True, zero, zero, outs, Z)
    for b, limb, kind in methods(prog, 'BitwiseDiv', 'div_long_overflowing'):
        n += 1
        c = Comp(rep, prog, b, 'the quotient replaces the dividend', key='BitwiseDiv::div_long_overflowing at %s %s' % (limb, kind), hooks={'call': hook()})
        if not c:
            continue
        M, D, R = c.p
        outs = {'quotient': c.final(0), 'remainder': c.final(2), 'flag': FIELD(c.r.ret, 0, 1)}
        with c.whole({M: seqty(limb), D: seqty(limb), R: seqty(limb)}, outs, divided(limb, flag=False), **AT3[limb]):
            Z = refuses_zero(c, D)
            restoring(c, [BITS(M)], None, D, True, M, R, {'quotient': c.final(0), 'remainder': c.final(2)}, Z)
            c.ob('never reports overflow', *same(FIELD(c.r.ret, 0, 1), FALSE))
        c.ob('returns the dividend', HOLD if FIELD(c.r.ret, 0, 0) is c.r.engine.args[0] else UNDECIDED, show(c.r.ret, 3)[:100])
    for b, limb, kind in methods(prog, 'BitwiseDiv', 'rem_long_overflowing'):
        n += 1
        c = Comp(rep, prog, b, 'the remainder replaces the dividend', key='BitwiseDiv::rem_long_overflowing at %s %s' % (limb, kind), hooks={'call': hook()})
        if not c:
            continue
        M, D, R = c.p
        outs = {'remainder': c.final(0), 'flag': FIELD(c.r.ret, 0, 1)}
        with c.whole({M: seqty(limb), D: seqty(limb), R: seqty(limb)}, outs, divided(limb, flag=False), **AT3[limb]):
            Z = refuses_zero(c, D)
            restoring(c, [BITS(M)], M, D, False, None, R, {'remainder': c.final(0)}, Z)
            c.ob('never reports overflow', *same(FIELD(c.r.ret, 0, 1), FALSE))
        c.ob('returns the dividend', HOLD if FIELD(c.r.ret, 0, 0) is c.r.engine.args[0] else UNDECIDED, show(c.r.ret, 3)[:100])
    for low in ('div', 'rem'):
        nm = 'BitwiseDiv::%s_long_overflowing' % low
        for suf in ('_checked', '_wrapping'):
            for b, limb, kind in methods(prog, 'BitwiseDiv', low + '_long' + suf):
                n += 1
                c = Comp(rep, prog, b, 'same limbs as the overflowing form' + ('; nothing, and nothing changed, exactly for a zero divisor' if suf == '_checked' else ''),
                         key='BitwiseDiv::%s_long%s at %s %s' % (low, suf, limb, kind), hooks={'call': hook(INPLACE)})
                if not c:
                    continue
                M, D, R = c.p
                flag = RET(nm, M, D, R)
                fin = subst(c.final(0), lambda x: FALSE if x is flag else None)
                ret = subst(c.r.ret, lambda x: FALSE if x is flag else None)
                done = CALL(nm, 0, M, D, R)
                if suf == '_wrapping':
                    c.ob('limbs', HOLD if fin is done else UNDECIDED, show(fin, 5)[:200])
                    continue
                refuses_zero(c, D, cond=NOT(some_cond(ret)), more={'limbs': (fin, M, done)})
                c.quiet()
    for b, limb, kind in methods(prog, 'ElementDiv', 'div_long'):
        n += 1
        c = Comp(rep, prog, b, 'quotient and remainder of any two lengths, without leading zero limbs', key='ElementDiv::div_long at %s %s' % (limb, kind), hooks={'call': hook()})
        if not c:
            continue
        M, D = c.p
        outs = {'quotient': FIELD(c.r.ret, 0, 0), 'remainder': FIELD(c.r.ret, 0, 1)}
        with c.whole({M: seqty(limb), D: seqty(limb)}, outs, divided(limb, tidy=True), pick=digits(limb), **AT[limb]):
            Z = refuses_zero(c, D, pre=LT(mkint(0), LEN(D)))
            by_digits(c, M, D, Z)
    rep.floor('divisions', n, 32)
    from .p08 import shrinks
    shrinks(rep, prog)      # the helpers the others are stated with
    return rep
