"""P04 - multi-limb addition and subtraction are exact."""
from .bitsc import *
from .bitsc import _val, _limbs

RULE = ('Each limb-slice addition and subtraction is brought to its loop recurrence (MIR of the provided method instantiated at a narrow and '
        'at the pointer-wide limb, over slices and vectors; no unrolling) and compared with the ripple recurrence: initial limbs and carry, '
        'one-step identities limb + 2^w*carry\' = left + right + carry, coverage of every limb of the longer operand, results.')

OPS = {('IntSlice', 'shrink'): {}, ('ElementMul', 'add_item'): {'mut': (0,), 'ret': 'bool'}, ('ElementNot', 'not'): {'mut': (0,), 'ret': 'unit'}}
OPS1 = {('ElementAdd', 'add_overflowing'): {'mut': (0,), 'ret': 'arg0,bool'}, ('ElementSub', 'sub_overflowing'): {'mut': (0,), 'ret': 'arg0,bool'}}


def carry_add(l, r, c, limb):
    w = WIDE[limb]
    t = BIN('add', w, BIN('add', w, CAST(limb, w, l), CAST(limb, w, r)), CAST('bool', w, c))
    return CAST(w, limb, t), LE(mkint(1 << WIDTH[limb], w), t)


def borrow_sub(l, r, c, limb):
    w = WIDE[limb]
    x, y = CAST(limb, w, l), BIN('add', w, CAST(limb, w, r), CAST('bool', w, c))
    v = BIN('sub', limb, BIN('sub', limb, l, r), CAST('bool', limb, c))
    return v, LT(x, y)


def unwrap(ret):
    """(sequence, shrunk?)"""
    if ret.op == 'op' and ret.a[0] == 'IntSlice::shrink':
        return ret.a[1], True
    return ret, False


def one_loop(rep, key, b, rule, r, spec, outs):
    ls = main_loop(r)
    if len(ls) > 1:
        use = {x.a[0] for o in outs.values() for x in subterms(o) if x.op in ('fin', 'exitsel')}
        ls = [l for l in ls if l.id in use]
    if len(ls) != 1:
        rep.ob(key + ': recurrence', UNDECIDED, where(b), rule, '%d loops' % len(ls))
        return
    report(rep, key, b, rule, compare(ls[0], outs, spec))


def contracts(rep, prog):
    """the helper operations the others are stated with: adding one limb with ripple, complement, dropping zero limbs"""
    n = 0
    for b, limb, kind in methods(prog, 'ElementMul', 'add_item'):
        n += 1
        rep.saw(b.path)
        key = 'ElementMul::add_item on %s of %s' % (kind, limb)
        rule = 'adds the value at the limb and ripples the carry up; true exactly when something is lost beyond the end'
        r, err = analyse(prog, b)
        if r is None:
            rep.ob(key, UNDECIDED, where(b), rule, err)
            continue
        L, idx, val = params(prog, b, r)
        S, v, c = sym('#S', seqty(limb)), sym('#v', limb), sym('#c', 'bool')
        LENS[S] = LEN(L)
        N = ITE(LT(idx, LEN(L)), BIN('sub', 'usize', LEN(L), idx), mkint(0))

        def step(st, idx=idx, limb=limb):
            at = BIN('add', 'usize', idx, IT)
            w = WIDE[limb]
            t = BIN('add', w, CAST(limb, w, SEL(st['limbs'], at)), CAST(limb, w, st['val']))
            o = LE(mkint(1 << WIDTH[limb], w), t)
            return {'limbs': UPD(st['limbs'], at, CAST(w, limb, t)), 'val': ITE(o, mkint(1, limb), mkint(0, limb)), 'carry': o}
        spec = Spec('up', N, {'limbs': (L, S), 'val': (val, v), 'carry': (NE(val, mkint(0, limb)), c)}, step,
                    lambda st: {'limbs': st['limbs'], 'flag': st['carry']}, stop_ok=lambda st: NOT(st['carry']))
        spec.inv = lambda st, limb=limb: AND(OR(st['carry'], EQ(st['val'], mkint(0, limb))), OR(NOT(st['carry']), NE(st['val'], mkint(0, limb))))
        outs = {'limbs': final(r, b, 0), 'flag': r.ret}

        def want(l, i, v, limb=limb):
            f, d = sem_add_item(limb, l, i, v)
            return {'limbs': d[0], 'flag': f}
        def pick(rnd, py, limb=limb):
            l, i, v = py
            if rnd.random() < .6:           # a carry that ripples
                l = [(1 << WIDTH[limb]) - 1 if rnd.random() < .85 else x for x in l]
                i, v = rnd.randrange(0, len(l) + 2), v or 1
            return [l, i, v]
        with whole(rep, key, b, rule, r, {L: seqty(limb), idx: 'usize', val: limb}, outs, want, limb=limb, pick=pick, lens=(0, 1, 2, 2, 3, 4, 5, 6, 8)):
            one_loop(rep, key, b, rule, r, spec, outs)
    for b, limb, kind in methods(prog, 'ElementNot', 'not'):
        n += 1
        rep.saw(b.path)
        key = 'ElementNot::not on %s of %s' % (kind, limb)
        rule = 'every limb is complemented'
        r, err = analyse(prog, b)
        if r is None:
            rep.ob(key, UNDECIDED, where(b), rule, err)
            continue
        L, = params(prog, b, r)
        S = sym('#S', seqty(limb))
        LENS[S] = LEN(L)
        spec = Spec('up', LEN(L), {'limbs': (L, S)}, lambda st, limb=limb: {'limbs': UPD(st['limbs'], IT, BNOT(limb, SEL(st['limbs'], IT)))},
                    lambda st: {'limbs': st['limbs']})
        with whole(rep, key, b, rule, r, {L: seqty(limb)}, {'limbs': final(r, b, 0)}, lambda l, limb=limb: {'limbs': [x ^ ((1 << WIDTH[limb]) - 1) for x in l]}, limb=limb):
            one_loop(rep, key, b, rule, r, spec, {'limbs': final(r, b, 0)})
    from .p08 import shrinks
    shrinks(rep, prog)
    n += 2
    return n


def derived(rep, prog, tr, low, suf, ops):
    n = 0
    for b, limb, kind in methods(prog, tr, low + suf):
        n += 1
        rep.saw(b.path)
        key = '%s::%s%s on %s of %s' % (tr, low, suf, kind, limb)
        r, err = analyse(prog, b, hooks={'call': contract_hook(ops)})
        rule = 'same limbs as the overflowing form; nothing returned exactly when it reports overflow'
        if r is None:
            rep.ob(key, UNDECIDED, where(b), rule, err)
            continue
        L, R = params(prog, b, r)
        nm = '%s::%s_overflowing' % (tr, low)
        flag = raw('tcall', 'bool', raw('op', nm, L, R))
        me = r.engine.args[0]
        want = ITE(flag, NONE, SOME(me)) if suf == '_checked' else me
        v, d = same(r.ret, want)
        rep.ob(key, v if known(r.ret) else UNDECIDED, where(b), rule, d)
        fin = final(r, b, 0)
        v, d = same(fin, raw('opout', nm, 0, L, R))
        rep.ob(key + ': limbs', HOLD if v == HOLD else UNDECIDED, where(b), rule, d)
    return n


def run():
    rep = Report('P04', RULE, ['64-bit target', 'slices shorter than 2^64 limbs'])
    prog = facts.load('numeric_bits')
    nf = 0
    for op, fn in (('Add', carry_add), ('Sub', borrow_sub)):
        tr = 'Element' + op
        low = op.lower()
        # ---- allocating form
        for b, limb, kind in methods(prog, tr, low):
            nf += 1
            rep.saw(b.path)
            key = '%s::%s on %s of %s' % (tr, low, kind, limb)
            rule = 'every limb and carry of the result; length of the longer operand%s' % (' plus one' if op == 'Add' else '')
            r, err = analyse(prog, b, hooks={'call': contract_hook(OPS)})
            if r is None:
                rep.ob(key, UNDECIDED, where(b), rule, err)
                continue
            L, R = params(prog, b, r)
            N = MAX(LEN(L), LEN(R))
            S = sym('#S', seqty(limb))
            c = sym('#c', 'bool')
            NN = BIN('add', 'usize', N, mkint(1)) if op == 'Add' else N
            LENS[S] = NN

            def step(st, L=L, R=R, limb=limb, NN=NN):
                v, c2 = fn(get0(L, IT, limb), get0(R, IT, limb), st['carry'], limb)
                return {'limbs': ITE(LT(IT, NN), UPD(st['limbs'], IT, v), st['limbs']), 'carry': c2}
            ret = r.ret if op == 'Add' else FIELD(r.ret, None, 0)
            if op == 'Add':
                outs = {'sum': unwrap(ret)[0]}
                spec = Spec('up', NN, {'limbs': (raw('rep', mkint(0, limb), NN), S), 'carry': (FALSE, c)}, step, lambda st: {'sum': st['limbs']},
                            stop_ok=lambda st, N=N: AND(NOT(st['carry']), LE(N, IT)), frame={'limbs': raw('rep', mkint(0, limb), NN)})
                spec.inv = lambda st: OR(LT(mkint(0), IT), NOT(st['carry']))
                sh = unwrap(ret)[1]
            else:
                # |left - right| and the sign
                neg = FIELD(r.ret, None, 1)
                sh = unwrap(ret)[1]
                mag = unwrap(ret)[0]
                one = mkint(1, limb)

                def out(st, one=one):
                    n1 = raw('opout', 'ElementNot::not', 0, st['limbs'])
                    LENS[n1] = LEN(st['limbs'])
                    n2 = CALL('ElementMul::add_item', 0, n1, mkint(0), one)
                    return {'magnitude': ITE(st['carry'], n2, st['limbs']), 'negative': st['carry']}
                outs = {'magnitude': mag, 'negative': neg}
                spec = Spec('up', NN, {'limbs': (raw('rep', mkint(0, limb), NN), S), 'carry': (FALSE, c)}, step, out)
                spec.inv = lambda st: OR(LT(mkint(0), IT), NOT(st['carry']))
            def want(l, m, limb=limb, op=op):
                n = max(len(l), len(m)) + (op == 'Add')
                a, b_ = _val(limb, l), _val(limb, m)
                d = {'result': trim(_limbs(limb, a + b_ if op == 'Add' else abs(a - b_), n))}
                if op == 'Sub':
                    d['negative'] = a < b_
                return d
            eouts = {'result': ret}
            if op == 'Sub':
                eouts['negative'] = FIELD(r.ret, None, 1)
            with whole(rep, key, b, rule, r, {L: seqty(limb), R: seqty(limb)}, eouts, want, limb=limb):
                one_loop(rep, key, b, rule, r, spec, outs)
                rep.ob(key + ': no leading zero limbs', HOLD if sh else UNDECIDED, where(b), 'the result is shrunk', None)
        # ---- in place, overflow reported
        for b, limb, kind in methods(prog, tr, low + '_overflowing'):
            nf += 1
            rep.saw(b.path)
            key = '%s::%s_overflowing on %s of %s' % (tr, low, kind, limb)
            rule = 'every limb and carry of the wrapped result; the flag is set exactly when the true result does not fit'
            r, err = analyse(prog, b)
            if r is None:
                rep.ob(key, UNDECIDED, where(b), rule, err)
                continue
            L, R = params(prog, b, r)
            N = MAX(LEN(L), LEN(R))
            S = sym('#S', seqty(limb))
            LENS[S] = LEN(L)
            c = sym('#c', 'bool')
            o = sym('#o', 'bool')

            def step(st, L=L, R=R, limb=limb):
                l = ITE(LT(IT, LEN(L)), SEL(st['limbs'], IT), mkint(0, limb))
                v, c2 = fn(l, get0(R, IT, limb), st['carry'], limb)
                d = {'limbs': ITE(LT(IT, LEN(L)), UPD(st['limbs'], IT, v), st['limbs']), 'carry': c2}
                if 'lost' in st:
                    d['lost'] = OR(st['lost'], AND(LE(LEN(L), IT), NE(v, mkint(0, limb))))
                return d
            vs = {'limbs': (L, S), 'carry': (FALSE, c)}
            if op == 'Add':
                vs['lost'] = (FALSE, o)
            spec = Spec('up', N, vs, step, lambda st: {'limbs': st['limbs'], 'flag': OR(st['carry'], st['lost']) if 'lost' in st else st['carry']},
                        stop_ok=lambda st, R=R, L=L: OR(AND(NOT(st['carry']), LE(LEN(R), IT))), frame={'limbs': L})
            spec.inv = lambda st, L=L: AND(OR(LT(mkint(0), IT), NOT(st['carry'])), *([OR(LT(LEN(L), IT), NOT(st['lost']))] if 'lost' in st else []))
            eouts = {'limbs': final(r, b, 0), 'flag': FIELD(r.ret, None, 1)}

            def want(l, m, limb=limb, op=op):
                t = _val(limb, l) + _val(limb, m) if op == 'Add' else _val(limb, l) - _val(limb, m)
                return {'limbs': _limbs(limb, t, len(l)), 'flag': not 0 <= t < 1 << (WIDTH[limb] * len(l))}
            with whole(rep, key, b, rule, r, {L: seqty(limb), R: seqty(limb)}, eouts, want, limb=limb):
                one_loop(rep, key, b, rule, r, spec, eouts)
        # ---- the derived forms
        for suf in ('_checked', '_wrapping'):
            nf += derived(rep, prog, tr, low, suf, OPS1)
    nf += contracts(rep, prog)
    rep.floor('slice additions and subtractions', nf, 24)
    return rep


def known(t):
    return all(x.op not in ('call', 'fin', 'phi') for x in subterms(t))
