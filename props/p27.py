"""P27 - rationals are exact fractions in lowest terms; fixed-point values scale by a power of two."""
from fractions import Fraction
from math import gcd
import itertools

from .compc import *
from sa.term import is_int_ty, wrap

RULE = ('The numerator and denominator (raw value) returned by every operation, as value-flow expressions over those of the operands, equal the defining formula: '
        'the fraction of the formula divided through by the greatest common divisor taken with the sign of the denominator, zero as 0/1. '
        'A different expression is reported when its value at integers differs from the defined one, whichever sign the divisor function gives its result.')
MIN, MAX = -1000003, 1000002
ZERO, ONE = const('zero'), const('one')


class NoEval(Exception):
    pass


def euclid(a, b):
    """a greatest common divisor by remainders of truncating division, as it comes out"""
    lo, hi = min(a, b), max(a, b)
    while lo:
        lo, hi = rem(hi, lo), lo
    return hi


def div(a, b):
    if b == 0:
        raise ZeroDivisionError
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def rem(a, b):
    return a - b * div(a, b)


T2 = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'div': div, 'rem': rem,
      'shl': lambda a, b: a << b, 'shr': lambda a, b: a >> b, 'band': lambda a, b: a & b, 'bor': lambda a, b: a | b, 'bxor': lambda a, b: a ^ b}
CALLS = {'abs': abs, 'is_positive': lambda a: a >= 0, 'is_negative': lambda a: a < 0, 'is_zero': lambda a: a == 0, 'is_one': lambda a: a == 1,
         'min_positive': lambda: 1, 'max_negative': lambda: -1, 'neg': lambda a: -a}


class Ev:
    def __init__(self, env, g):
        self.env, self.g, self.memo = env, g, {}

    def __call__(self, t):
        k = t.id
        if k not in self.memo:
            self.memo[k] = self.go(t)
        return self.memo[k]

    def go(self, t):
        o, a = t.op, t.a
        if t in self.env:
            return self.env[t]
        if o == 'tconst':
            return {'zero': 0, 'one': 1, 'min': MIN, 'max': MAX}[a[0]]
        if o == 't':
            xs = [self(x) for x in a[1:]]
            if a[0] in T2 and len(xs) == 2:
                return T2[a[0]](*xs)
            if a[0] == 'neg':
                return -xs[0]
            if a[0] == 'bnot':
                return ~xs[0]
            raise NoEval(a[0])
        if o == 'int':
            return a[0]
        if o == 'bool':
            return a[0]
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if o == 'ite':
            return self(a[1]) if self(a[0]) else self(a[2])
        if o == 'and':
            return all(self(x) for x in a)
        if o == 'or':
            return any(self(x) for x in a)
        if o == 'not':
            return not self(a[0])
        if o == 'eq':
            return self(a[0]) == self(a[1])
        if o == 'lt':
            return self(a[0]) < self(a[1])
        if o == 'tcall':
            return self(a[1])
        if o == 'agg':
            return (a[1],) + tuple(self(x) for x in a[2:])
        if o in T2 and len(a) == 3 and is_int_ty(a[0]):
            return wrap(T2[o](self(a[1]), self(a[2])), a[0])
        if o == 'fld':
            v = self(a[0])
            if isinstance(v, tuple) and v[0] == a[1]:
                return v[1 + a[2]]
            raise NoEval('field')
        if o == 'discr':
            v = self(a[0])
            if isinstance(v, tuple):
                return v[0]
            raise NoEval('discr')
        if o == 'insw':
            return (self(a[0]) in a[1]) != a[2]
        if o == 'call':
            nm = str(a[0]).split('::')[-1]
            xs = [self(x) for x in a[1:] if not (isinstance(x, T) and x.op == 'targs')]
            if nm == 'gcd' and len(xs) == 2:
                return self.g(*xs)
            if nm in CALLS:
                return CALLS[nm](*xs)
            raise NoEval(nm)
        raise NoEval(o)


def lowest(f):
    return (0, f.numerator, f.denominator)


def reduced(p, q):
    """the term of the fraction p/q in lowest terms"""
    g = raw('call', *GCD.pre, p, q) if GCD.pre else None
    d = ITE(EQ(LT(g, ZERO), LT(q, ZERO)), g, t_('sub', ZERO, g))
    z = EQ(p, ZERO)
    return ITE(z, ZERO, t_('div', p, d)), ITE(z, ONE, t_('div', q, d))


class GCD:
    pre = None


class Frac(Comp):
    def decide(self, what, got, spec, formula, leaves, domain):
        """got: {path name: term}; spec: the same as terms (or None); formula(values) -> expected python value or 'panic'"""
        v, d = UNDECIDED, 'no term of the definition'
        if spec is not None:
            v, d = HOLD, None
            for k, (x, y) in enumerate(zip(got, spec)):
                try:
                    x = closed(x, self.r.loops, TRUE)
                except Fail as f:
                    v, d = UNDECIDED, 'no closed form: %s' % f
                    break
                w, e = self.agree(x, y)
                if w != HOLD:
                    v, d = UNDECIDED, ('form', e)
                    break
        # a difference in value under every convention for the sign of the divisor
        wit = []
        evals = 0
        for g in (euclid, lambda a, b: gcd(a, b)):
            hit = None
            for vals in itertools.product(*domain):
                env = dict(zip(leaves, vals))
                try:
                    ex = formula(*vals)
                except ArithmeticError:
                    ex = 'panic'
                if ex is None:
                    continue
                ev = Ev(env, g)
                try:
                    pan = any(ev(c) for (c, k, w_) in self.r.panics if c is not FALSE and not k.startswith('overflow'))
                    val = 'panic' if pan else tuple(ev(x) for x in got)
                except NoEval as n:
                    hit = ('?', str(n))
                    break
                except ArithmeticError:
                    val = 'panic'
                except (TypeError, ValueError, KeyError, IndexError) as n:
                    hit = ('?', repr(n))
                    break
                evals += 1
                if val != ex:
                    hit = ('differs', {'at': dict((show(k), x) for k, x in env.items()), 'found': val, 'defined': ex})
                    break
            wit.append(hit)
        if all(h and h[0] == 'differs' for h in wit):
            v, d = VIOLATED, wit[0][1]
        elif v == UNDECIDED and all(h is None for h in wit):
            d = ('same value at %d choices' % evals, d)
        elif v == HOLD and any(h for h in wit):
            v, d = UNDECIDED, wit
        self.ob(what, v, d)


R = r'rat::Rat<T>$'
F = r'fixed::Fixed<T, N>$'
SM = list(range(-7, 8)) + [12, -12, 30]
DE = list(range(1, 8)) + [10, 12]
LO = [(n, d) for n in SM for d in DE if gcd(n, d) == 1]


def find_gcd(prog):
    """how the divisor function appears in terms"""
    for b in roots(prog, 'new', r'rat::Rat'):
        r, err = analyse(prog, b)
        if r is None:
            continue
        for x in subterms(r.ret):
            if x.op == 'call' and str(x.a[0]).split('::')[-1] == 'gcd':
                return tuple(x.a[:-2])
    return None


def run():
    rep = Report('P27', RULE, ['element operations are those of the integers (no numerator, denominator or raw value leaves its type)'])
    prog = facts.load('numeric_reals')
    GCD.pre = find_gcd(prog)
    n = 0

    def fn(name, ty, tr=None, rule=''):
        nonlocal n
        for b in roots(prog, name, ty if tr else ty.split('<')[0], tr):
            n += 1
            c = Frac(rep, prog, b, rule)
            if c:
                yield c
    num, den, val = (lambda v: FIELD(v, 0, 0)), (lambda v: FIELD(v, 0, 1)), (lambda v: FIELD(v, 0, 0))
    M = lambda a, b: t_('mul', a, b)

    def form(p, q):
        return reduced(p, q) if GCD.pre else None

    def two(c, f, what='value'):
        """rational operands and result; f on Fractions"""
        def g(a, b, x, y):
            if gcd(a, b) != 1 or gcd(x, y) != 1:
                return None
            return lowest(f(Fraction(a, b), Fraction(x, y)))[1:]
        return g
    # rationals
    for tr, m in (('Add', 'add'), ('Sub', 'sub'), ('Mul', 'mul'), ('Div', 'div')):
        for c in fn(m, R, 'ops::arith::' + tr, 'the exact fraction in lowest terms with positive denominator; panics exactly for a zero divisor'):
            a, b, x, y = num(c.p[0]), den(c.p[0]), num(c.p[1]), den(c.p[1])
            if m in ('add', 'sub'):
                P, Q = t_(m, M(a, y), M(x, b)), M(b, y)
            elif m == 'mul':
                P, Q = M(a, x), M(b, y)
            else:
                P, Q = M(a, y), M(b, x)
            op = {'add': lambda u, v: u + v, 'sub': lambda u, v: u - v, 'mul': lambda u, v: u * v, 'div': lambda u, v: u / v}[m]
            dn, dd = SM[:15:2] + [6, 12], [1, 2, 3, 4, 6]
            c.decide('value', (num(c.r.ret), den(c.r.ret)), form(P, Q), two(c, op), (a, b, x, y), (dn, dd, dn, dd))
    for c in fn('new', R, None, 'refused exactly for a zero denominator, otherwise the fraction in lowest terms with positive denominator'):
        p, q = c.p
        s = form(p, q)
        if s:
            s = (ITE(EQ(q, ZERO), AGG('core::option::Option', 0), SOME(AGG('numeric_reals::rat::Rat', 0, s[0], s[1]))),)
        c.decide('value', (c.r.ret,), s, lambda a, b: ((0,),) if b == 0 else ((1, lowest(Fraction(a, b))),), (p, q), (SM, SM))

    def one_(c, spec, f, what='value', dom=None):
        a, b = num(c.p[0]), den(c.p[0])
        c.decide(what, (num(c.r.ret), den(c.r.ret)), spec(a, b), lambda x, y: lowest(f(Fraction(x, y)))[1:] if gcd(x, y) == 1 else None, (a, b), (dom or SM, DE))
    for c in fn('neg', R, 'ops::arith::Neg', 'the negated fraction'):
        one_(c, lambda a, b: (t_('neg', a), b), lambda f: -f)
    for c in fn('abs', R, 'class::Signed', 'the magnitude'):
        ab = next((y for y in subterms(c.r.ret) if y.op == 'call' and str(y.a[0]).split('::')[-1] == 'abs'), None)
        one_(c, lambda a, b: (rebuild(ab.op, tuple(ab.a[:-1]) + (a,)) if ab is not None else t_('abs', a), b), abs)
    for c in fn('zero', R, 'identity::Zero', 'zero is 0/1'):
        c.decide('value', (num(c.r.ret), den(c.r.ret)), (ZERO, ONE), lambda: (0, 1), (), ())
    for c in fn('default', R, 'default::Default', 'zero is 0/1'):
        c.decide('value', (num(c.r.ret), den(c.r.ret)), (ZERO, ONE), lambda: (0, 1), (), ())
    for c in fn('one', R, 'identity::One', 'one is 1/1'):
        c.decide('value', (num(c.r.ret), den(c.r.ret)), (ONE, ONE), lambda: (1, 1), (), ())
    for nm, x, y in (('min_value', 'min', MIN), ('max_value', 'max', MAX)):
        for c in fn(nm, R, 'class::Bounded', 'the bound of the numerator over one'):
            c.decide('value', (num(c.r.ret), den(c.r.ret)), (const(x), ONE), lambda y=y: (y, 1), (), ())

    def test(c, spec, f):
        a, b = num(c.p[0]), den(c.p[0])
        c.decide('value', (c.r.ret,), (spec(a, b),) if spec else None, lambda x, y: (f(Fraction(x, y)),) if gcd(x, y) == 1 else None, (a, b), (SM, DE))
    for c in fn('is_zero', R, 'identity::Zero', 'true exactly for zero'):
        test(c, lambda a, b: EQ(a, ZERO), lambda f: f == 0)
    for c in fn('is_one', R, 'identity::One', 'true exactly for one'):
        test(c, lambda a, b: AND(EQ(a, ONE), EQ(b, ONE)), lambda f: f == 1)
    for nm, f in (('is_positive', lambda f: f >= 0), ('is_negative', lambda f: f < 0)):
        for c in fn(nm, R, 'class::Signed', 'the sign of the fraction'):
            ab = next((y for y in subterms(c.r.ret) if y.op == 'tcall'), None)
            test(c, None if ab is None or str(ab.a[1].a[0]).split('::')[-1] != nm else (lambda a, b: rebuild('tcall', (ab.a[0], rebuild('call', tuple(ab.a[1].a[:-1]) + (a,))))), f)
    for c in fn('eq', R, 'cmp::PartialEq', 'equal exactly when the fractions are'):
        a, b, x, y = num(c.p[0]), den(c.p[0]), num(c.p[1]), den(c.p[1])
        c.decide('value', (c.r.ret,), (AND(EQ(a, x), EQ(b, y)),), lambda a, b, x, y: (Fraction(a, b) == Fraction(x, y),) if gcd(a, b) == 1 == gcd(x, y) else None,
                 (a, b, x, y), (SM[:15:2] + [1, 3], [1, 2, 3, 5], SM[:15:2] + [1, 3], [1, 2, 3, 5]))
    for c in fn('into_pair', R, None, 'numerator, then denominator'):
        a, b = num(c.p[0]), den(c.p[0])
        c.decide('value', (FIELD(c.r.ret, 0, 0), FIELD(c.r.ret, 0, 1)), (a, b), lambda x, y: (x, y), (a, b), (SM, DE))
    from .p20 import placed
    for k, nm in enumerate(('numerator', 'denominator')):
        for c in fn(nm, R, None, 'part %d' % k):
            placed(c, c.r.ret, (('f', k),))

    def whole(c, pick, f, dom):
        """result is a whole number pick(num, denom)"""
        a, b = num(c.p[0]), den(c.p[0])
        s = form(pick(a, b), ONE) if pick else None
        c.decide('value', (num(c.r.ret), den(c.r.ret)), s, lambda x, y: (f(Fraction(x, y)), 1) if gcd(x, y) == 1 else None, (a, b), (dom, DE))
    POS = [x for x in SM if x >= 0] + [8, 9, 10, 11, 13]
    q_ = lambda a, b: t_('div', a, b)
    r_ = lambda a, b: t_('rem', a, b)
    for c in fn('ceil', R, 'class::Real', 'the smallest whole number not below'):
        whole(c, lambda a, b: t_('add', q_(a, b), ITE(LT(ZERO, r_(a, b)), ONE, ZERO)), lambda f: -((-f.numerator) // f.denominator), SM)
    for c in fn('floor', R, 'class::Real', 'the largest whole number not above'):
        whole(c, lambda a, b: t_('sub', q_(a, b), ITE(LT(r_(a, b), ZERO), ONE, ZERO)), lambda f: f.numerator // f.denominator, SM)
    for c in fn('round', R, 'class::Real', 'the nearest whole number, the lower one of two'):
        tw = t_('add', ONE, ONE)

        def near(a, b):
            ng = LT(r_(a, b), ZERO)
            d = ITE(ng, t_('add', r_(a, b), b), r_(a, b))
            return t_('add', ITE(LT(q_(b, tw), d), ONE, ZERO), ITE(ng, t_('sub', q_(a, b), ONE), q_(a, b)))
        whole(c, near, lambda f: -((f.denominator - 2 * f.numerator) // (2 * f.denominator)), SM + POS)
    # fixed-point values
    FR = list(range(-20, 21)) + [64, -64, 100, -101]
    FN = [0, 1, 2, 3, 5]

    def N_(c):
        return next((x for x in subterms(c.r.ret) if x.op == 'sym' and x.a[0] == 'N'), sym('N', 'usize'))

    def fixed(name, tr, rule, spec, f, operands=1, bool_=False, dom=None):
        for c in fn(name, F, tr, rule):
            N = N_(c)
            ls = [val(c.p[k]) if tyof(c.p[k]) != 'T' else c.p[k] for k in range(operands)]
            got = c.r.ret if bool_ else val(c.r.ret)
            s = spec(N, *ls) if spec else None
            d = [dom or FR] * operands if operands < 2 else [FR[::3] + [0, 1, 8]] * 2
            c.decide('value', (got,), (s,) if s is not None else None, lambda nn, *v: (f(nn, *v),), [N] + ls, [FN] + d)
    A = 'ops::arith::'
    one = lambda N: t_('shl', ONE, N)
    fixed('add', A + 'Add', 'sum of the raw values', lambda N, a, b: t_('add', a, b), lambda n, a, b: a + b, 2)
    fixed('sub', A + 'Sub', 'difference of the raw values', lambda N, a, b: t_('sub', a, b), lambda n, a, b: a - b, 2)
    fixed('mul', A + 'Mul', 'product of the values, rounded down to a step', lambda N, a, b: t_('shr', t_('mul', a, b), N), lambda n, a, b: (a * b) >> n, 2)
    fixed('div', A + 'Div', 'quotient of the values, rounded towards zero to a step', lambda N, a, b: t_('div', t_('shl', a, N), b), lambda n, a, b: div(a << n, b), 2)
    fixed('rem', A + 'Rem', 'remainder of the raw values', lambda N, a, b: t_('rem', a, b), lambda n, a, b: rem(a, b), 2)
    fixed('neg', A + 'Neg', 'the negated raw value', lambda N, a: t_('neg', a), lambda n, a: -a)
    fixed('new', None, 'zero', lambda N: ZERO, lambda n: 0, 0)
    fixed('default', 'default::Default', 'zero', lambda N: ZERO, lambda n: 0, 0)
    fixed('zero', 'identity::Zero', 'zero', lambda N: ZERO, lambda n: 0, 0)
    fixed('one', 'identity::One', 'one at the scale', lambda N: one(N), lambda n: 1 << n, 0)
    fixed('from_val', None, 'the value at the scale', lambda N, a: t_('shl', a, N), lambda n, a: a << n)
    fixed('from_raw', None, 'the raw value', lambda N, a: a, lambda n, a: a)
    fixed('is_zero', 'identity::Zero', 'true exactly for zero', lambda N, a: EQ(a, ZERO), lambda n, a: a == 0, 1, True)
    fixed('is_one', 'identity::One', 'true exactly for one', lambda N, a: EQ(a, one(N)), lambda n, a: a == 1 << n, 1, True)
    fixed('eq', 'cmp::PartialEq', 'equal exactly when the raw values are', lambda N, a, b: EQ(a, b), lambda n, a, b: a == b, 2, True)
    o3 = lambda a, b: (0,) if a < b else (1,) if a == b else (2,)
    OR_ = lambda k: AGG('core::cmp::Ordering', k)
    three = lambda a, b: ITE(LT(a, b), OR_(0), ITE(EQ(a, b), OR_(1), OR_(2)))
    fixed('cmp', 'cmp::Ord', 'the order of the raw values', lambda N, a, b: three(a, b), lambda n, a, b: o3(a, b), 2, True)
    fixed('partial_cmp', 'cmp::PartialOrd', 'the order of the raw values', lambda N, a, b: SOME(three(a, b)), lambda n, a, b: (1, o3(a, b)), 2, True)
    fixed('min_value', 'class::Bounded', 'the bound of the raw value', lambda N: const('min'), lambda n: MIN, 0)
    fixed('max_value', 'class::Bounded', 'the bound of the raw value', lambda N: const('max'), lambda n: MAX, 0)
    fixed('min_positive', 'class::BoundedSigned', 'one step', lambda N: ONE, lambda n: 1, 0)
    fixed('max_negative', 'class::BoundedSigned', 'one step down', lambda N: t_('neg', ONE), lambda n: -1, 0)
    fl = lambda N, a: t_('shl', t_('shr', a, N), N)
    fr = lambda N, a: t_('rem', a, one(N))
    fixed('floor', 'class::Real', 'the largest whole value not above', fl, lambda n, a: (a >> n) << n)
    fixed('ceil', 'class::Real', 'the smallest whole value not below',
          lambda N, a: ITE(EQ(a, t_('band', a, t_('bnot', t_('sub', one(N), ONE)))), fl(N, a), t_('add', one(N), fl(N, a))), lambda n, a: -((-a >> n) << n))
    fixed('trunc', 'class::Real', 'the whole part towards zero', lambda N, a: t_('sub', a, fr(N, a)), lambda n, a: a - rem(a, 1 << n))
    fixed('fract', 'class::Real', 'what is left of the whole part towards zero', fr, lambda n, a: rem(a, 1 << n))
    def nearest(n, a):
        h = Fraction(a, 1 << n)
        return -((h.denominator - 2 * h.numerator) // (2 * h.denominator)) << n if n else a

    def rounds(N, a):
        f = fr(N, a)
        x = ITE(LT(f, ZERO), t_('add', one(N), f), f)
        half = t_('div', t_('shl', one(N), N), t_('add', one(N), one(N)))
        ce = ITE(EQ(a, t_('band', a, t_('bnot', t_('sub', one(N), ONE)))), fl(N, a), t_('add', one(N), fl(N, a)))
        return ITE(LT(half, x), ce, fl(N, a))
    fixed('round', 'class::Real', 'the nearest whole value, the lower one of two', rounds, nearest)
    for nm, f in (('abs', abs), ('is_positive', lambda a: a >= 0), ('is_negative', lambda a: a < 0)):
        for c in fn(nm, F, 'class::Signed', 'the magnitude' if nm == 'abs' else 'the sign of the raw value'):
            a = val(c.p[0])
            got = val(c.r.ret) if nm == 'abs' else c.r.ret
            ab = next((y for y in subterms(got) if y.op == 'call' and str(y.a[0]).split('::')[-1] == nm), None)
            sp = rebuild(ab.op, tuple(ab.a[:-1]) + (a,)) if ab is not None else None
            if sp is not None and nm != 'abs':
                tc = next((y for y in subterms(got) if y.op == 'tcall' and y.a[1] is ab), None)
                sp = rebuild('tcall', (tc.a[0], sp)) if tc is not None else None
            c.decide('value', (got,), (sp,) if sp is not None else None, lambda nn, v, f=f: (f(v),), [N_(c), a], [FN, FR])
    fixed('is_whole', None, 'true exactly for whole values', lambda N, a: EQ(a, t_('band', a, t_('bnot', t_('sub', one(N), ONE)))), lambda n, a: a % (1 << n) == 0, 1, True)
    rep.floor('rational and fixed-point functions', n, 53)
    return rep
