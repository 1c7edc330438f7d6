"""P28 - greatest common divisors, factorials and powers of primitive integers."""
from math import gcd, factorial
from .compc import *
from sa.conc import Run, NoEval
from sa.term import irange, signed, isint

RULE = ('Greatest common divisor: the loop carries a pair that starts as the two operands, in each turn replaces (x, y) by (y mod x, x), ends when x is zero and yields y '
        '(Euclid\'s invariant: the set of common divisors of the pair never changes). Factorial: the loop multiplies an accumulator that starts at one by every number of the inclusive range '
        'from one to the operand. Power: the machine power of the operand to the exponent. A function of another form is reported when its summary has another value at some operands.')
INTS = ['u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize']


def folding(t):
    """the operator folded by the standard library's product or sum, with its operands"""
    if t.op == 'call' and 'callback' in str(t.a[0]):
        d = show(t, 6)
        for k, o in (('accum::Product>::product', 'mul'), ('accum::Sum>::sum', 'add')):
            if k in d:
                return o, t.a[-2], t.a[-1]
    return None


class Fold(Run):
    def _ev(self, t):
        if t.op == 'tcall' and folding(t.a[1]):
            return self.ev(BIN(folding(t.a[1])[0], t.a[0], *folding(t.a[1])[1:]))
        return super()._ev(t)


def value(r, env, t):
    e = Fold(r.loops, dict(env), turns=2000)
    k = e.panicked(r)
    if k == 'maybe':
        raise NoEval('panic?')
    if k:
        return 'panic'
    return e.ev(t)


class Num(Comp):
    def witness(self, shape, d, points, want):
        """shape: the structure matches; points: operand tuples"""
        v = HOLD if shape else UNDECIDED
        n = 0
        for pt in points:
            try:
                got = value(self.r, zip(self.p, pt), self.r.ret)
            except (NoEval, RecursionError, ZeroDivisionError, TypeError, KeyError, AttributeError, IndexError, ValueError) as x:
                d = d or ('no value: %s' % x)
                break
            n += 1
            w = want(*pt)
            if w is not None and got != w and not (callable(w) and w(got)):
                return self.ob('value', VIOLATED, {'at': pt, 'found': got, 'defined': 'not this' if callable(w) else w})
        else:
            if v == UNDECIDED:
                d = ('same value at %d operands' % n, d)
        self.ob('value', v, None if v == HOLD else d)


def euclid(c):
    """why the function is not Euclid's recurrence, or None"""
    a, b = c.p
    t = c.r.ret
    if t.op == 'ite':
        # a shortcut for two zeros
        z = AND(EQ(a, mkint(0, tyof(a))), EQ(b, mkint(0, tyof(a))))
        if t.a[0] is z and isint(t.a[1]) and t.a[1].a[0] == 0:
            t = t.a[2]
    if t.op != 'fin':
        return 'result %s' % show(t, 4)[:80]
    L = c.r.loops.get(t.a[0])
    if L is None or len(L.phis) != 2 or len(L.exits) != 1:
        return 'loop'
    (n1, (p1, i1, s1)), (n2, (p2, i2, s2)) = L.phis.items()
    if t.a[1] == n1:
        (n1, p1, i1, s1), (n2, p2, i2, s2) = (n2, p2, i2, s2), (n1, p1, i1, s1)
    if t.a[1] != n2:
        return 'which'
    if s2 is not p1 or not (s1.op == 'rem' and s1.a[1] is p2 and s1.a[2] is p1):
        return 'step %s, %s' % (show(s1, 4)[:60], show(s2, 4)[:60])
    ex = L.exits[0][0]
    if ex is not EQ(p1, mkint(0, tyof(a))):
        return 'exit %s' % show(ex, 4)[:60]
    pairs = [(i1, i2)]
    if i1.op == 'ite' and i2.op == 'ite' and i1.a[0] is i2.a[0]:
        pairs = [(i1.a[1], i2.a[1]), (i1.a[2], i2.a[2])]
    for x, y in pairs:
        if not ((x is a and y is b) or (x is b and y is a)):
            return 'start %s, %s' % (show(x, 4)[:60], show(y, 4)[:60])
    return None


def product(c):
    n = c.p[0]
    t = c.r.ret
    if t.op != 'fin' or len(c.r.loops) != 1:
        return 'result %s' % show(t, 4)[:80]
    L = c.r.loops[t.a[0]]
    acc = L.phis.get(t.a[1])
    if acc is None or not (isint(acc[1]) and acc[1].a[0] == 1):
        return 'start'
    others = {k: v for k, v in L.phis.items() if k != t.a[1]}
    idx = next((v for v in others.values() if isint(v[1])), None)
    done = next((v for v in others.values() if v[1] is FALSE), None)
    if idx is None or done is None or len(others) != 2 or idx[1].a[0] != 1:
        return 'range'
    i, f = idx[0], done[0]
    live = AND(NOT(f), NOT(LT(n, i)))
    if NOT(live) is not L.exits[0][0] or len(L.exits) != 1:
        return 'exit'
    if idx[2] is not ITE(AND(live, NOT(EQ(n, i))), BIN('add', tyof(n), i, mkint(1, tyof(n))), i):
        return 'next'
    if done[2] is not OR(f, AND(live, EQ(n, i))):
        return 'last'
    s = acc[2]
    while s.op == 'tcall':
        s = s.a[1]
    f = folding(s)
    if f and f[0] == 'mul' and set(f[1:]) == {acc[0], i}:
        return None
    if s.op == 'mul' and set(s.a[1:]) == {acc[0], i}:
        return None
    return 'step %s' % show(s, 6)[:100]


def run():
    rep = Report('P28', RULE, ['results that do not fit the type are outside (overflow)'])
    prog = facts.load('numeric_traits')
    k = [0, 0, 0]
    for b in prog.roots:
        ty = prog.tys(b.j['iself']) if 'iself' in b.j else ''
        tr = (b.j.get('itrait') or '').split('<')[0]
        if ty not in INTS:
            continue
        lo, hi = irange(ty)
        if b.name == 'gcd' and tr.endswith('ops::Gcd'):
            k[0] += 1
            c = Num(rep, prog, b, 'the greatest common divisor (of signed operands, up to sign); zero of two zeros')
            if not c:
                continue
            why = euclid(c)
            xs = [0, 1, 2, 3, 4, 5, 6, 8, 9, 12, 15, 16, 18, 24, 36, 48, 60, 64, 90, 96, 105, 120, 126, 127, hi, hi - 1, hi // 2, hi // 3] + ([-1, -2, -3, -4, -6, -9, -12, -15, -48, -60, -127] if lo < 0 else [])

            def want(x, y):
                g = gcd(x, y)
                return g if x >= 0 and y >= 0 else (lambda got: got in (g, -g))
            c.witness(why is None, why, [(x, y) for x in xs for y in xs], want)
            pan = [p for p in c.r.panics if p[0] is not FALSE and not p[1].startswith('overflow')]
            c.ob('does not panic', UNDECIDED if pan else HOLD, pan and show(pan[0][0], 6)[:200] or None)
        elif b.name == 'factorial' and tr.endswith('ops::Factorial'):
            k[1] += 1
            c = Num(rep, prog, b, 'the product of the numbers from one to the operand')
            if not c:
                continue
            why = product(c)
            c.witness(why is None, why, [(x,) for x in range(0, 35) if factorial(x) <= hi], factorial)
        elif b.name == 'pow' and tr.endswith('ops::Pow'):
            k[2] += 1
            c = Num(rep, prog, b, 'the operand multiplied as often as the exponent says, for exponents of at most 32 bits')
            if not c:
                continue
            spec = raw('iop', 'pow', ty, c.p[0], CAST(ty, 'u32', c.p[1]))
            bases = [0, 1, 2, 3, 5, 7, 10, 11, 15] + ([-1, -2, -3] if lo < 0 else [])
            pts = [(x, y) for x in bases for y in range(0, 130) if lo <= x ** y <= hi and y <= hi]
            c.witness(c.r.ret is spec, show(c.r.ret, 6)[:200], pts, pow)
    rep.floor('gcd functions', k[0], 12)
    rep.floor('factorial functions', k[1], 1)
    rep.floor('power functions', k[2], 12)
    return rep
