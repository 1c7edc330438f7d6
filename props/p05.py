"""P05 - multi-limb multiplication is exact."""
from .p04 import *
from .bitsc import _val, _limbs

RULE = ('Each limb-slice multiplication is brought to its nested loop recurrence (MIR instantiated at a narrow and at the pointer-wide limb, '
        'over slices and vectors) and compared with the schoolbook recurrence: row recurrence (low limb added in place, high limb carried, every limb of the '
        'right operand), one row per limb of the left operand, final carry, lost limbs reported; adding one limb is used by its contract (decided under P04).')

OPS = {('IntSlice', 'shrink'): {}, ('ElementMul', 'add_item'): {'mut': (0,), 'ret': 'bool'}}
OPSM = {('ElementMul', 'mul_overflowing'): {'mut': (0,), 'ret': 'arg0,bool'}}
OUT = sym('#o', 'usize')      # index of the row


def row_spec(limb, l, R, base, lost, L):
    S, c, o = sym('#S', seqty(limb)), sym('#c', limb), sym('#l', 'bool')
    w = WIDE[limb]

    def step(st):
        t = BIN('add', w, BIN('mul', w, CAST(limb, w, l), CAST(limb, w, SEL(R, IT))), CAST(limb, w, st['carry']))
        low, high = CAST(w, limb, t), CAST(w, limb, BIN('shr', w, t, mkint(WIDTH[limb], 'u32')))
        at = BIN('add', 'usize', base, IT)
        d = {'limbs': CALL('ElementMul::add_item', 0, st['limbs'], at, low), 'carry': high}
        if lost:
            d['lost'] = OR(st['lost'], RET('ElementMul::add_item', st['limbs'], at, low))
        return d
    vs = {'limbs': (ANY, S), 'carry': (mkint(0, limb), c)}
    if lost:
        vs['lost'] = (FALSE, o)
    return Spec('up', LEN(R), vs, step, lambda st: dict(st))


def nested(rep, key, b, rule, r, limb, L, R, lost, spec, outs):
    """outer loop over the left operand, one row per limb"""
    ls = main_loop(r)
    used = {x.a[0] for o in outs.values() for x in subterms(o) if x.op == 'fin'}
    outer = [l for l in ls if l.id in used]
    if len(outer) != 1:
        rep.ob(key, UNDECIDED, where(b), rule, '%d outer loops' % len(outer))
        return
    outer = outer[0]
    view = LoopView(outer, spec.N, spec.dir)
    if not view.counters:
        rep.ob(key, UNDECIDED, where(b), rule, 'no induction variable')
        return
    toout = {p: subst(t, lambda x: OUT if x is IT else None) for p, t in view.map.items()}
    f = lambda x: toout.get(x)
    M = resub(outer, f)
    inner_ls = [resub(l, f) for l in ls if l is not outer]
    if len(inner_ls) != 1:
        rep.ob(key, UNDECIDED, where(b), rule, '%d inner loops' % len(inner_ls))
        return
    il = inner_ls[0]
    seqs = [p for (p, i, s) in view.data.values() if isseq(p)]
    if len(seqs) != 1:
        rep.ob(key, UNDECIDED, where(b), rule, 'working sequences')
        return
    W = seqs[0]
    if spec.dir == 'up':
        base, l = OUT, SEL(L, OUT)
    else:
        base = BIN('sub', 'usize', OUT, mkint(1))
        l = SEL(W, base)
    rs = row_spec(limb, l, R, base, lost, L)
    LENS[rs.vars['limbs'][1]] = LEN(W)
    terms = [s for (_, _, s) in M.phis.values()] + [e[0] for e in M.exits]

    def result(v, inits):
        args = (inits['limbs'], base, l, R)
        if v == 'limbs':
            return ROW(*args)
        if v == 'carry':
            return raw('tcall', limb, raw('op', 'row:carry', *args))
        return raw('tcall', 'bool', raw('op', 'row:lost', *args))
    res, mp = inner(il, rs, terms, result)
    if mp is None and lost:
        # the flag may accumulate over the rows
        rs2 = row_spec(limb, l, R, base, lost, L)
        LENS[rs2.vars['limbs'][1]] = LEN(W)
        rs2.vars['lost'] = (ANY, rs2.vars['lost'][1])
        r2, m2 = inner(il, rs2, terms, lambda v, inits: OR(inits['lost'], result(v, inits)) if v == 'lost' else result(v, inits))
        if m2 is not None:
            res, mp = r2, m2
    report(rep, key + ': row', b, rule, res)
    if mp is None:
        if all(x[1] == HOLD for x in res):
            rep.ob(key + ': rows', UNDECIDED, where(b), rule, 'row results')
        return
    back = {OUT: IT}
    g = lambda x: mp.get(x)
    h = lambda x: back.get(x)
    M = resub(resub(M, g), h)
    # the induction variables of the outer loop must survive for the comparison
    M.phis = {k: (p, i, s) if k not in view.counters else outer.phis[k] for k, (p, i, s) in M.phis.items()}
    M.exits = [tuple([subst(outer.exits[j][0], lambda x: None)]) + tuple(e[1:]) for j, e in enumerate(M.exits)]
    report(rep, key + ': rows', b, rule, compare(M, outs, spec))


def ROW(S, base, l, R):
    t = raw('opout', 'row:limbs', 0, S, base, l, R)
    LENS[t] = LEN(S)
    return t


def run():
    rep = Report('P05', RULE, ['64-bit target', 'operand lengths whose sum fits a machine word'])
    prog = facts.load('numeric_bits')
    nf = 0
    for b, limb, kind in methods(prog, 'ElementMul', 'mul'):
        nf += 1
        rep.saw(b.path)
        key = 'ElementMul::mul on %s of %s' % (kind, limb)
        rule = 'full product: as many limbs as both operands together, one row per limb of the left operand'
        r, err = analyse(prog, b, hooks={'call': contract_hook(OPS)})
        if r is None:
            rep.ob(key, UNDECIDED, where(b), rule, err)
            continue
        L, R = params(prog, b, r)
        out, sh = unwrap(r.ret)
        NN = BIN('add', 'usize', LEN(L), LEN(R))
        S = sym('#S', seqty(limb))
        LENS[S] = NN

        def step(st, L=L, R=R, limb=limb):
            args = (st['limbs'], IT, SEL(L, IT), R)
            c = raw('tcall', limb, raw('op', 'row:carry', *args))
            return {'limbs': CALL('ElementMul::add_item', 0, ROW(*args), BIN('add', 'usize', IT, LEN(R)), c)}
        spec = Spec('up', LEN(L), {'limbs': (raw('rep', mkint(0, limb), NN), S)}, step, lambda st: {'product': st['limbs']})
        want = lambda l, m, limb=limb: {'product': trim(_limbs(limb, _val(limb, l) * _val(limb, m), len(l) + len(m)))}
        with whole(rep, key, b, rule, r, {L: seqty(limb), R: seqty(limb)}, {'product': r.ret}, want, limb=limb, tries=120, far=.02, lens=(0, 1, 1, 2, 2, 3)):
            nested(rep, key, b, rule, r, limb, L, R, False, spec, {'product': out})
            rep.ob(key + ': no leading zero limbs', HOLD if sh else UNDECIDED, where(b), 'the result is shrunk', None)
    for b, limb, kind in methods(prog, 'ElementMul', 'mul_overflowing'):
        nf += 1
        rep.saw(b.path)
        key = 'ElementMul::mul_overflowing on %s of %s' % (kind, limb)
        rule = 'product modulo the width of the left operand; the flag is set exactly when a row loses something'
        r, err = analyse(prog, b, hooks={'call': contract_hook(OPS)})
        if r is None:
            rep.ob(key, UNDECIDED, where(b), rule, err)
            continue
        L, R = params(prog, b, r)
        S, o = sym('#S', seqty(limb)), sym('#w', 'bool')
        LENS[S] = LEN(L)

        def step(st, R=R, limb=limb):
            i = BIN('sub', 'usize', IT, mkint(1))
            l = SEL(st['limbs'], i)
            args = (UPD(st['limbs'], i, mkint(0, limb)), i, l, R)
            c = raw('tcall', limb, raw('op', 'row:carry', *args))
            at = BIN('add', 'usize', i, LEN(R))
            return {'limbs': CALL('ElementMul::add_item', 0, ROW(*args), at, c),
                    'lost': OR(st['lost'], raw('tcall', 'bool', raw('op', 'row:lost', *args)), RET('ElementMul::add_item', ROW(*args), at, c))}
        spec = Spec('down', LEN(L), {'limbs': (L, S), 'lost': (FALSE, o)}, step, lambda st: {'limbs': st['limbs'], 'flag': st['lost']})
        outs = {'limbs': final(r, b, 0), 'flag': FIELD(r.ret, None, 1)}

        def want(l, m, limb=limb):
            t = _val(limb, l) * _val(limb, m)
            return {'limbs': _limbs(limb, t, len(l)), 'flag': t >= 1 << (WIDTH[limb] * len(l))}
        with whole(rep, key, b, rule, r, {L: seqty(limb), R: seqty(limb)}, outs, want, limb=limb, tries=120, far=.02, lens=(0, 1, 1, 2, 2, 3)):
            nested(rep, key, b, rule, r, limb, L, R, True, spec, outs)
    for suf in ('_checked', '_wrapping'):
        nf += derived(rep, prog, 'ElementMul', 'mul', suf, OPSM)
    rep.floor('slice multiplications', nf, 12)
    contracts(rep, prog)      # the helpers the others are stated with
    return rep
