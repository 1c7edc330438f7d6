"""P16 - conversions and comparisons between arbitrary-precision and machine integers go by value."""
from .p15 import *
from sa.loops import Spec, compare, IT
from .bitsc import get0

RULE = ('Calls are replaced by the integer operation they are separately shown to perform; the remaining expression is compared with the definition (range test and value of a '
        'conversion, order and equality of values) in every sign and order case; the truncation loop is matched with its recurrence over the limbs.')


LOW = ('int_to_arr', 'arr_to_int')


def to_prim(prog, b):
    t, a = head(prog, b)
    if len(a) >= 2 and a[0] in PRIMS and a[1].replace('&', '').strip() == BI:
        return t, a[0]
    return None, None


def run():
    rep = Report('P16', RULE, ['words represent values as decided by P14', 'limb conversions of machine integers as decided here'])
    prog = facts.load('numeric_ints')
    n = 0
    import props.p15 as p15
    for b in prog.roots:
        if '::tests::' in b.path or BI not in b.path:
            continue
        t, a = head(prog, b)
        tt, ty = to_prim(prog, b)
        if t == 'From' and b.name == 'from' and len(a) == 2 and a[1] in PRIMS and a[0] == BI:
            n += 1
            R = Root(rep, prog, b, 'same value', LOW)
            if R.ok:
                R.ob(R.r.ret, BIGZ(R.zs[0]))
                R.returns()
        elif tt == 'TryFrom' and b.name == 'try_from':
            n += 1
            R = Root(rep, prog, b, 'in range, same value', LOW)
            if R.ok:
                R.ob(R.r.ret, TRY(R.zs[0], ty), bounds=(ty,))
                R.returns()
        elif tt == 'FromChecked' and b.name == 'from_checked':
            n += 1
            R = Root(rep, prog, b, 'in range, same value', LOW)
            if R.ok:
                lo, hi = PRIMS[ty]
                z = R.zs[0]
                R.ob(R.r.ret, ITE(ZLT(K(hi), z), AGG(OPT, 0), ITE(ZLT(z, K(lo)), AGG(OPT, 0), AGG(OPT, 1, CONV(z, ty)))), bounds=(ty,))
                R.returns()
        elif tt == 'FromSaturating' and b.name == 'saturate_from':
            n += 1
            R = Root(rep, prog, b, 'nearest value')
            if R.ok:
                lo, hi = PRIMS[ty]
                z = R.zs[0]
                R.ob(R.r.ret, ITE(ZLT(K(hi), z), mkint(hi, ty), ITE(ZLT(z, K(lo)), mkint(lo % (1 << WIDTH[ty]), ty), CONV(z, ty))), bounds=(ty,))
                R.returns()
        elif tt == 'FromTruncating' and b.name == 'truncate_from':
            n += 1
            truncating(rep, prog, b, ty)
        elif t == 'PartialEq' and b.name == 'eq' and len(a) == 2 and a[0] == BI and a[1] in PRIMS:
            n += 1
            R = Root(rep, prog, b, 'equal values', LOW)
            if R.ok:
                R.ob(R.r.ret, ZEQ(*R.zs), bounds=(a[1],))
                R.returns()
        elif t == 'PartialOrd' and b.name == 'partial_cmp' and len(a) == 2 and a[0] == BI and a[1] in PRIMS:
            n += 1
            R = Root(rep, prog, b, 'order of the values')
            if R.ok:
                R.ob(R.r.ret, AGG(OPT, 1, CMPZ(*R.zs)), bounds=(a[1],))
                R.returns()
    rep.floor('conversions and comparisons', n, 60)
    return rep


def truncating(rep, prog, b, ty):
    """low bits: the loop visits the limbs from the top, keeping acc = acc * 2^64 + limb modulo 2^width"""
    R = Root(rep, prog, b, 'low bits')
    if not R.ok:
        return
    z, r = R.zs[0], R.r
    used = [L for L in r.loops.values() if any(x.op in ('fin', 'exitsel') and x.a[0] == L.id for x in subterms(r.ret))]
    if not used:
        R.ob(r.ret, CONV(z, ty), bounds=(ty,))
        R.returns()
        return
    try:
        unroll(r.ret, r.loops)
        R.ob(r.ret, CONV(z, ty), bounds=(ty,))
        R.returns()
        return
    except Many:
        pass
    for v in INTERESTING + [x + d for lo, hi in (PRIMS[ty],) for x in (lo, hi) for d in (-1, 0, 1)] + [(5 << 64) + 7, -(5 << 64) - 7, (3 << 128) + (5 << 64) + 9]:
        try:
            got = execute(r, {R.bigs[0]: v})
        except Stuck:
            continue
        if got % (1 << WIDTH[ty]) != v % (1 << WIDTH[ty]):
            rep.ob(R.key, VIOLATED, where(b), RULE, {'value': str(v), 'found': got, 'required': v % (1 << WIDTH[ty])})
            return
    ok, why = len(used) == 1 and descending(R, used[0], ty) or (False, 'recurrence not recognised')
    rep.ob(R.key, HOLD if ok else UNDECIDED, where(b), RULE, why)


def descending(R, L, ty):
    z = R.zs[0]
    W = WIDTH[ty]
    accs = [(p, i, s) for p, i, s in L.phis.values() if tyof(p) == ty]
    for c, ci, cs in L.phis.values():
        for a, ai, as_ in accs:
            if c is a or tyof(c) != 'usize':
                continue
            sq = [x for x in subterms(as_) if x.op == 'sel' and (isseqz(x.a[0]) or x.a[0].op == 'load' and isseqz(x.a[0].a[0]))]
            if len(set(sq)) != 1:
                continue
            q = sq[0].a[0]
            q0 = q if isseqz(q) else q.a[0]
            if q0.a[1].a[0] is not Z('abs', z):
                continue
            act = LT(mkint(0), c)
            if not (ci is LEN(q) and ai is mkint(0, ty)):
                continue
            if same(cs, BIN('sub', 'usize', c, mkint(1)), act)[0] != HOLD or same(sq[0].a[1], BIN('sub', 'usize', c, mkint(1)), act)[0] != HOLD:
                continue
            if len(L.exits) != 1 or same(L.exits[0][0], NOT(act), TRUE)[0] != HOLD:
                continue
            limb = sym('limb', 'usize')
            st = subst(as_, lambda x: limb if x is sq[0] else None)

            def f(S):
                p = S.mod(S.red(st))
                if p is None:
                    raise Stuck('step')
                want = padd({(('int', a, ty),): 1 << 64}, {(('int', limb, 'usize'),): 1})
                return all(k % (1 << W) == 0 for k in full(padd(p, want, -1)).values())
            try:
                if not all(ok for _, ok in cases(f)):
                    continue
            except Stuck:
                continue
            fin = raw('fin', L.id, a.a[1], a.a[2])
            rest = subst(R.r.ret, lambda x: CONV(Z('abs', z), ty) if x is fin else None)
            if any(x.op in ('fin', 'exitsel', 'phi') for x in subterms(rest)):
                continue
            v, d = decide(rest, CONV(z, ty), R.bigs, bounds=(ty,))
            return v == HOLD, d
    return False, 'recurrence not recognised'
