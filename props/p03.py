"""P03 - widening multiply-add is exact."""
from .common import *
from sa.decide import padd, pscale, pmul, TooBig

RULE = ('For every implementation of widening multiplication on a primitive unsigned type the two returned words are brought to exact '
        'integer polynomials over the operands (wrap-around, masking and shifting expressed through floor atoms); '
        'low + 2^w * high must equal self * mul + add in that ring, with no panic.')


def run():
    rep = Report('P03', RULE, ['64-bit target'])
    prog = facts.load('numeric_traits')
    n = 0
    for b in prog.roots:
        if b.name != 'widening_mul' or 'iself' not in b.j or selfs(prog, b) not in WIDTH:
            continue
        ty = selfs(prog, b)
        n += 1
        rep.saw(b.path)
        key = 'widening_mul for ' + ty
        rule = 'low + 2^%d * high == self * mul + add' % WIDTH[ty]
        r, err = analyse(prog, b)
        if r is None:
            rep.ob(key, UNDECIDED, where(b), rule, err)
            continue
        a, m, ad = [Engine(prog, Models()).param(b, i) for i in (1, 2, 3)]
        lo, hi = FIELD(r.ret, None, 0), FIELD(r.ret, None, 1)
        w = WIDTH[ty]
        ok = False
        try:
            nm = Norm()
            L, H = nm.ip(lo), nm.ip(hi)
            want = padd(pmul(nm.ip(a)[0], nm.ip(m)[0]), nm.ip(ad)[0])
            got = padd(L[0], pscale(H[0], 1 << w))
            # both sides are below 2^2w: equality modulo 2^2w suffices
            diff = padd(got, want, -1)
            ok = all(c % (1 << (2 * w)) == 0 for c in diff.m.values())
        except TooBig:
            pass
        if ok:
            rep.ob(key, HOLD, where(b), rule)
        else:
            # diagnosis against wide arithmetic on the value expressions
            import random
            rnd = random.Random(1)
            bad = None
            from sa.decide import Val, NoEval, constants
            cs = constants(lo, hi)
            for _ in range(3000):
                v = Val(rnd, cs)
                try:
                    x, y, z = v.ev(a), v.ev(m), v.ev(ad)
                    if v.ev(lo) + (v.ev(hi) << w) != x * y + z:
                        bad = {'self': x, 'mul': y, 'add': z, 'low': v.ev(lo), 'high': v.ev(hi)}
                        break
                except NoEval as ex:
                    break
            rep.ob(key, VIOLATED if bad else UNDECIDED, where(b), rule, bad or 'not the same polynomial')
        v, d = same(panic_cond(r), FALSE)
        rep.ob(key + ':panics', v, where(b), 'never panics', d)
    rep.floor('widening multiplications', n, 6)
    return rep
