"""P01 - the primitive integers' and floats' implementations of the numeric traits deliver the named operation."""
from .common import *

RULE = ('For every implementation of the numeric operator traits on a primitive type, the value-flow summary of the '
        'method (from MIR, all paths joined by gating conditions) is compared by normal form with the operation the '
        'trait names, for all inputs, including the condition under which it can panic.')


def F(op, n, *a):
    return raw('f' + op, n, *a)


def spec_int(tr, meth, n, rhs_ty, A):
    """(value, pre, panic condition or None)"""
    a = A[0] if A else None
    b = A[1] if len(A) > 1 else None
    lo, hi = irange(n)
    z = lambda v: mkint(v, n)
    w = WIDTH[n]
    tc = lambda f: CAST('u32', n, raw('tcall', 'u32', raw('iop', f, n, a)))
    kind = {'Wrapping': 'w', 'Overflowing': 'o', 'Checked': 'c'}
    for k in kind:
        if tr.startswith(k):
            op = tr[len(k):].lower()
            if op in ('add', 'sub', 'mul'):
                v, o = BIN(op, n, a, b), OVF(op, n, a, b)
                if k == 'Wrapping':
                    return v, TRUE, FALSE
                if k == 'Overflowing':
                    return TUPLE(v, o), TRUE, FALSE
                return ITE(o, NONE, SOME(v)), TRUE, FALSE
            if op == 'div' and k == 'Checked':
                bad = EQ(b, z(0))
                if signed(n):
                    bad = OR(bad, AND(EQ(a, z(lo)), EQ(b, z(-1))))
                return ITE(bad, NONE, SOME(BIN('div', n, a, b))), TRUE, FALSE
            if op in ('shl', 'shr'):
                rt = tyof(b)
                if k == 'Wrapping':
                    m = BIN('band', 'u32', CAST(rt, 'u32', b), mkint(w - 1, 'u32'))
                    return BIN(op, n, a, m), TRUE, FALSE
                if k == 'Checked':
                    okc = LT(b, mkint(w, rt)) if w <= irange(rt)[1] else TRUE
                    if signed(rt):
                        okc = AND(GE(b, mkint(0, rt)), okc)
                    return ITE(okc, SOME(BIN(op, n, a, CAST(rt, 'u32', b))), NONE), TRUE, FALSE
    T = {
        ('Bounded', 'max_value'): lambda: (z(hi), TRUE, FALSE),
        ('Bounded', 'min_value'): lambda: (z(lo), TRUE, FALSE),
        ('BoundedBit', 'leading_zeros'): lambda: (tc('leading_zeros'), TRUE, FALSE),
        ('BoundedBit', 'trailing_zeros'): lambda: (tc('trailing_zeros'), TRUE, FALSE),
        ('Zero', 'zero'): lambda: (z(0), TRUE, FALSE),
        ('Zero', 'is_zero'): lambda: (EQ(a, z(0)), TRUE, FALSE),
        ('One', 'one'): lambda: (z(1), TRUE, FALSE),
        ('One', 'is_one'): lambda: (EQ(a, z(1)), TRUE, FALSE),
        ('Signed', 'abs'): lambda: (ITE(LT(a, z(0)), NEG(n, a), a), NE(a, z(lo)), None),
        ('Signed', 'is_positive'): lambda: (GE(a, z(0)), TRUE, FALSE),
        ('Signed', 'is_negative'): lambda: (LT(a, z(0)), TRUE, FALSE),
        ('ConvertBytes', 'to_le_bytes'): lambda: (raw('bytes', 'le', n, a), TRUE, FALSE),
        ('ConvertBytes', 'to_ne_bytes'): lambda: (raw('bytes', 'le', n, a), TRUE, FALSE),
        ('ConvertBytes', 'to_be_bytes'): lambda: (raw('bytes', 'be', n, a), TRUE, FALSE),
        ('ConvertBytes', 'from_le_bytes'): lambda: (raw('unbytes', 'le', n, a), TRUE, FALSE),
        ('ConvertBytes', 'from_ne_bytes'): lambda: (raw('unbytes', 'le', n, a), TRUE, FALSE),
        ('ConvertBytes', 'from_be_bytes'): lambda: (raw('unbytes', 'be', n, a), TRUE, FALSE),
    }
    f = T.get((tr, meth))
    return f() if f else None


def fconst(n, v):
    import struct
    return raw('float', int.from_bytes(struct.pack('<d' if n == 'f64' else '<f', v), 'little'), n)


def spec_float(tr, meth, n, A):
    a = A[0] if A else None
    b = A[1] if len(A) > 1 else None
    zero, one = fconst(n, 0.0), fconst(n, 1.0)
    if tr == 'Real' and meth in ('floor', 'ceil', 'round', 'trunc', 'fract', 'log', 'sqrt'):
        return raw('fop', meth, n, *A)
    if tr == 'TrigOps' and meth in ('sin', 'cos', 'tan'):
        return raw('fop', meth, n, a)
    if tr == 'TrigOps' and meth in ('csc', 'sec', 'cot'):
        return F('div', n, one, raw('fop', {'csc': 'sin', 'sec': 'cos', 'cot': 'tan'}[meth], n, a))
    big = {'f32': (0x7f7fffff, 0xff7fffff, 0x00800000), 'f64': (0x7fefffffffffffff, 0xffefffffffffffff, 0x0010000000000000)}[n]
    T = {
        ('Pow', 'pow'): lambda: raw('fop', 'powf', n, a, b),
        ('Signed', 'abs'): lambda: raw('fop', 'abs', n, a),
        ('Signed', 'is_negative'): lambda: raw('flt', a, zero),
        ('Signed', 'is_positive'): lambda: raw('fle', zero, a),
        ('Zero', 'zero'): lambda: zero, ('One', 'one'): lambda: one,
        ('Zero', 'is_zero'): lambda: raw('feq', *sorted((a, zero), key=lambda t: t.id)),
        ('One', 'is_one'): lambda: raw('feq', *sorted((a, one), key=lambda t: t.id)),
        ('Bounded', 'max_value'): lambda: raw('float', big[0], n),
        ('Bounded', 'min_value'): lambda: raw('float', big[1], n),
        ('BoundedSigned', 'min_positive'): lambda: raw('float', big[2], n),
        ('BoundedSigned', 'max_negative'): lambda: raw('fneg', n, raw('float', big[2], n)),
        ('ConvertBytes', 'to_le_bytes'): lambda: raw('bytes', 'le', n, a),
        ('ConvertBytes', 'to_ne_bytes'): lambda: raw('bytes', 'le', n, a),
        ('ConvertBytes', 'to_be_bytes'): lambda: raw('bytes', 'be', n, a),
        ('ConvertBytes', 'from_le_bytes'): lambda: raw('unbytes', 'le', n, a),
        ('ConvertBytes', 'from_ne_bytes'): lambda: raw('unbytes', 'le', n, a),
        ('ConvertBytes', 'from_be_bytes'): lambda: raw('unbytes', 'be', n, a),
    }
    f = T.get((tr, meth))
    return f() if f else None


def run():
    rep = Report('P01', RULE, ['64-bit little-endian target', 'core/std integer and float methods implement their documented operation'])
    prog = facts.load('numeric_traits')
    seen = {}
    for b in prog.roots:
        tr = (b.j.get('itrait') or '').split('<')[0].split('::')[-1]
        if not tr or 'iself' not in b.j:
            continue
        s = selfs(prog, b)
        ta = targs(prog, b)
        e = Engine(prog, Models())
        args = [e.param(b, i + 1) for i in range(b.argc)]

        def vals(unp=True):
            out = []
            for i, a in enumerate(args):
                t = b.local_ty(i + 1)
                if t['k'] == 'ref':
                    inner = prog.types[t['e']]
                    out.append(e.symval(a.a[0], inner))
                else:
                    out.append(a)
            return out
        key = '%s%s for %s::%s' % (tr, '<%s>' % ta[-1] if ta and ta[-1] != s and tr.startswith('Checked') else '', s.split('::')[-1], b.name)
        if s in WIDTH:
            sp = spec_int(tr, b.name, s, None, vals())
            if sp:
                v, pre, pan = sp
                check_value(rep, key, prog, b, v, '%s::%s on %s is the machine operation it names' % (tr, b.name, s), pre, pan)
                seen[(tr, b.name)] = seen.get((tr, b.name), 0) + 1
        elif s in ('f32', 'f64'):
            sp = spec_float(tr, b.name, s, vals())
            if sp is not None:
                check_value(rep, key, prog, b, sp, '%s::%s on %s is the operation it names' % (tr, b.name, s))
                seen[(tr, b.name)] = seen.get((tr, b.name), 0) + 1
        elif 'NonZero<' in s:
            n = models.nz_ty(s)
            A = [models.nz_get(x, n) if i == 0 else x for i, x in enumerate(vals())]
            lo, hi = irange(n)
            sp = spec_int(tr, b.name, n, None, A)
            pre, pan = TRUE, None
            if A:
                pre = NE(A[0], mkint(0, n))
            if (tr, b.name) == ('Bounded', 'min_value') and not signed(n):
                v = mkint(1, n)
            elif (tr, b.name) == ('BoundedSigned', 'min_positive'):
                v = mkint(1, n)
            elif (tr, b.name) == ('BoundedSigned', 'max_negative'):
                v = mkint(-1, n)
            elif sp:
                v = sp[0]
                pre = AND(pre, sp[1])
            else:
                continue
            ty = b.local_ty(0)
            post = (lambda r: nz_ret(r.ret, n)) if ty['k'] == 'adt' else None
            check_value(rep, key, prog, b, v, '%s::%s on %s is the machine operation it names' % (tr, b.name, s), pre, post=post)
            seen[(tr, b.name)] = seen.get((tr, b.name), 0) + 1
    rep.counts['methods'] = {'%s::%s' % k: v for k, v in sorted(seen.items())}
    for t, m, least in (('WrappingAdd', 'wrapping_add', 12), ('WrappingSub', 'wrapping_sub', 12), ('WrappingMul', 'wrapping_mul', 12),
                        ('OverflowingAdd', 'overflowing_add', 12), ('OverflowingMul', 'overflowing_mul', 12), ('CheckedAdd', 'checked_add', 12),
                        ('CheckedShl', 'checked_shl', 23), ('CheckedShr', 'checked_shr', 23), ('CheckedDiv', 'checked_div', 12), ('One', 'is_one', 26)):
        rep.floor('%s::%s' % (t, m), seen.get((t, m), 0), least)
    return rep


def nz_ret(v, n):
    return models.nz_get(v, n)
