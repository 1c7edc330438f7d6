"""Arbitrary-precision integers seen as integers: calls of the integer's own operations are replaced by the mathematical operation on values,
limb routines by the natural-number operation they are separately shown to perform.  What remains of a function is an expression over
integers, compared with its definition by polynomial normal form in every sign and order case."""
from .common import *
from .bitsc import params, final
from sa.decide import HOLD, VIOLATED, UNDECIDED
import itertools
from sa.unroll import unroll, Many

BI = 'numeric_ints::big_int::BigInt'
ORD = 'core::cmp::Ordering'
OPT, RES = 'core::option::Option', 'core::result::Result'
LESS, EQUAL, GREATER = AGG(ORD, 0), AGG(ORD, 1), AGG(ORD, 2)
PRIMS = {t: (0, (1 << WIDTH[t]) - 1) for t in UINTS}
PRIMS.update({t: (-(1 << WIDTH[t] - 1), (1 << WIDTH[t] - 1) - 1) for t in SINTS})


def Z(name, *a):
    return raw('z', name, *a)


def K(n):
    return raw('z', 'k', n)


def BIGZ(z):
    return raw('tcall', BI, raw('zbig', z))


def VAL(b):
    if b.op == 'tcall' and isinstance(b.a[1], T) and b.a[1].op == 'zbig':
        return b.a[1].a[0]
    if b.op == 'ite':
        return Z('ite', b.a[0], VAL(b.a[1]), VAL(b.a[2]))
    return Z('val', b)


def ZLT(a, b):
    return raw('tcall', 'bool', raw('zlt', a, b))


def ZEQ(a, b):
    return raw('tcall', 'bool', raw('zeq', a, b))


def NEG(z):
    return ZLT(z, K(0))


def INT(x, ty=None):
    """value of a machine integer"""
    if isint(x):
        v = x.a[0]
        t = ty or x.a[1]
        if t in SINTS and v > PRIMS[t][1]:
            v -= 1 << WIDTH[t]
        return K(v)
    if x.op == 'tcall' and isinstance(x.a[1], T) and x.a[1].op == 'zconv':
        return Z('wrap', x.a[1].a[0], x.a[0])
    return Z('int', x, ty or tyof(x))


def CONV(z, ty):
    """machine integer of type ty congruent to z"""
    return raw('tcall', ty, raw('zconv', z))


def SEQ(z, canon, ty='alloc::vec::Vec<usize>'):
    return raw('tcall', ty, raw('zseq', z, canon))


def tstr(t):
    s = tyof(t)
    return s if isinstance(s, str) else ''


def isseqz(t):
    return t.op == 'tcall' and isinstance(t.a[1], T) and t.a[1].op == 'zseq'


def isatom(x):
    return x.op == 'tcall' and isinstance(x.a[1], T) and x.a[1].op in ('zlt', 'zeq')


LIMB = {('ElementAdd', 'add'), ('ElementSub', 'sub'), ('ElementMul', 'mul'), ('ElementMul', 'mul_long'), ('BitwiseDiv', 'div_long'), ('ElementDiv', 'div_long'),
        ('ElementShl', 'shl'), ('ElementShr', 'shr'), ('BitwiseAdd', 'add'), ('BitwiseSub', 'sub'), ('BitwiseMul', 'mul'), ('BitwiseShr', 'shr'), ('BitwiseShl', 'shl'),
        ('ElementBitand', 'bitand'), ('ElementBitor', 'bitor'), ('ElementBitxor', 'bitxor')}
OPS = {'add': 'add', 'sub': 'sub', 'mul': 'mul', 'div': 'tdiv', 'rem': 'trem', 'shl': 'shl', 'shr': 'shr', 'bitand': 'zand', 'bitor': 'zor', 'bitxor': 'zxor'}
BITZ = ('zand', 'zor', 'zxor')     # of non-negative integers


class Abs:
    """call hook"""

    def __init__(self, prog, root=None, low=()):
        self.prog, self.root = prog, root
        self.low = set(low)          # names left to the engine
        self.calls = []
        self.pre = []                # (condition needed to return, why)

    def tys(self, t):
        return self.prog.tys(t) if isinstance(t, int) else t.get('s', '?') if isinstance(t, dict) else str(t)

    def isbig(self, ty):
        return ty.replace('&', '').replace("'_ ", '').replace('mut ', '').strip() == BI

    def obj(self, eng, s, a):
        """BigInt term behind any references"""
        for _ in range(4):
            if a.op == 'ref' or tstr(a).startswith('&') and not isseqz(a):
                a = eng.load(s, a)
            else:
                break
        return a

    def seq(self, eng, s, a, ty=''):
        """(natural value, canonical) of a limb sequence argument"""
        for _ in range(5):
            n = LEN(a) if isseq(a) and a.op != 'sub' else None
            m = re.match(r'\[usize; (\d+)\]$', tstr(a) or '') or re.match(r'&?(?:mut )?\[usize; (\d+)\]$', ty or '')
            if a.op in ('arr', 'rep', 'upd', 'fin', 'ite', 'sym') and (n is not None and isint(n) or m):
                n = n.a[0] if n is not None and isint(n) else int(m.group(1))
                if n <= 8 and not isseqz(a) and not any(isseqz(x) for x in subterms(a)):
                    return Z('limbs', *[SEL(a, mkint(i)) for i in range(n)]), n == 1
            if isseqz(a):
                return a.a[1].a
            if a.op == 'ite':
                x, y = self.seq(eng, s, a.a[1]), self.seq(eng, s, a.a[2])
                return (Z('ite', a.a[0], x[0], y[0]), x[1] and y[1]) if x is not None and y is not None else None
            if a.op == 'ref' or tstr(a).startswith('&'):
                a = eng.load(s, a)
            elif a.op in ('ptrcast', 'transmute', 'unsize', 'slice') and isinstance(a.a[-1], T):
                a = a.a[-1]
            else:
                break
        return None

    def hook(self, eng, fr, s, c, args, atys, dty, cond, where):
        n, tr, p = c.get('n', ''), str(c.get('tr', '')), c.get('p', '')
        rp = c.get('rp') or p
        ts = [self.tys(t) for t in atys]
        short = tr.rsplit('::', 1)[-1]
        d = self.tys(dty)
        if n in self.low:
            return NotImplemented
        r = self.inherent(eng, fr, s, c, args, ts, d, cond, where, n, p, rp, dty)
        if r is not NotImplemented:
            return r
        big = [self.isbig(t) for t in ts]
        if any(big) and tr:
            r = self.trait(eng, s, c, args, ts, big, d, cond, where, n, short, dty)
            if r is not NotImplemented:
                self.calls.append((short, n, tuple(ts)))
                return r
        if short in ('From', 'FromAll') and self.isbig(d) and ts[0] in PRIMS:
            self.calls.append((short, n, tuple(ts)))
            return BIGZ(INT(args[0], ts[0]))
        if short == 'Into' and n == 'into' and self.isbig(d) and ts[0] in PRIMS:
            return BIGZ(INT(args[0], ts[0]))
        if short in ('Zero', 'One') and self.isbig(d) and n in ('zero', 'one'):
            return BIGZ(K(0 if n == 'zero' else 1))
        if short == 'Default' and self.isbig(d):
            return BIGZ(K(0))
        # limb routines
        for t_, m in LIMB:
            if n == m and (short == t_ or '::%s::' % t_ in p):
                xs = [self.seq(eng, s, a) for a in args[:1]]
                if m in ('shl', 'shr'):
                    if xs[0] is None:
                        return NotImplemented
                    return SEQ(Z(m, xs[0][0], INT(args[1], 'usize')), False)
                xs.append(self.seq(eng, s, args[1]))
                if None in xs:
                    return NotImplemented
                a, b = xs[0][0], xs[1][0]
                if m in ('add', 'mul'):
                    return SEQ(Z(m, a, b), False)
                if m.startswith('bit'):
                    return SEQ(Z(OPS[m], a, b), False)
                if m == 'sub':
                    return TUPLE(SEQ(Z('abs', Z('sub', a, b)), False), ZLT(a, b))
                if m == 'div_long':
                    self.pre.append((AND(cond, ZEQ(b, K(0))), 'division by zero'))
                    return TUPLE(SEQ(Z('quo', a, b), False), SEQ(Z('rem', a, b), False))
        if n == 'shrink' and ('IntSlice' in p or short == 'IntSlice'):
            x = self.seq(eng, s, args[0])
            if x is not None:
                return SEQ(x[0], True, ts[0])
        if n == 'int_to_arr':
            return SEQ(INT(args[0], ts[0]), False, d)
        if n == 'arr_to_int':
            x = self.seq(eng, s, args[0])
            m = re.match(r'core::option::Option<(\w+)>$', d)
            if x is not None and m and m.group(1) in PRIMS:
                t = m.group(1)
                fit = NOT(ZLT(K(PRIMS[t][1]), x[0]))
                return ITE(fit, AGG(OPT, 1, CONV(x[0], t)), AGG(OPT, 0))
        if n in ('eq', 'ne') and short == 'PartialEq' and len(args) == 2:
            x, y = self.seq(eng, s, args[0]), self.seq(eng, s, args[1])
            if x is not None and y is not None:
                if x[1] and y[1]:
                    e = ZEQ(x[0], y[0])
                elif (x[1] or y[1]) and (y if x[1] else x)[0].a[0] == 'limbs':
                    # as many limbs as written, leading zeros included
                    k = len((y if x[1] else x)[0].a) - 1
                    e = ZEQ(x[0], y[0])
                    if k > 1:
                        e = AND(e, NOT(ZLT((x if x[1] else y)[0], K(1 << 64 * (k - 1)))))
                else:
                    return NotImplemented
                return e if n == 'eq' else NOT(e)
        if n in ('deref', 'borrow', 'as_ref', 'as_slice', 'into_boxed_slice', 'into', 'from') and len(args) == 1:
            x = self.seq(eng, s, args[0])
            if x is not None and ('[usize]' in d or 'Vec<usize>' in d):
                return SEQ(x[0], x[1], d)
        if n in ('index', 'index_mut') and len(args) == 2 and 'RangeFull' in ts[1]:
            x = self.seq(eng, s, args[0])
            if x is not None:
                return SEQ(x[0], x[1], d)
        return NotImplemented

    def inherent(self, eng, fr, s, c, args, ts, d, cond, where, n, p, rp, dty):
        if not p.startswith('numeric_ints::big_int::'):
            return NotImplemented
        if p == 'numeric_ints::big_int::MaybeInline::<\'_>::slice' or p.startswith('numeric_ints::big_int::MaybeInline') and n == 'slice':
            v = self.obj(eng, s, args[0])
            if v.op == 'tcall' and v.a[1].op == 'zval':
                return SEQ(Z('abs', v.a[1].a[0]), True, '&[usize]')
            return NotImplemented
        if not p.startswith(BI + '::'):
            return NotImplemented
        if n == 'with_slice':
            z = VAL(self.obj(eng, s, args[0]))
            return eng.call_value(fr, s, args[1], [SEQ(Z('abs', z), True, '&[usize]')], dty, cond, where)
        if n == 'with_slices':
            zs = [VAL(self.obj(eng, s, a)) for a in args[:2]]
            return eng.call_value(fr, s, args[2], [SEQ(Z('abs', z), True, '&[usize]') for z in zs], dty, cond, where)
        if n in ('is_inline', 'is_interned') and d == 'bool':
            # small numbers are inline, those of several limbs are not; where the limit lies is the representation's business
            i = raw('tcall', 'bool', raw('zinl', Z('abs', VAL(self.obj(eng, s, args[0])))))
            return i if n == 'is_inline' else NOT(i)
        if n == 'val':
            return raw('tcall', d, raw('zval', VAL(self.obj(eng, s, args[0]))))
        if n == 'new_slice':
            x = self.seq(eng, s, args[0])
            if x is None:
                return NotImplemented
            return BIGZ(Z('ite', args[1], Z('negate', x[0]), x[0]))
        if n == 'new_inline':
            x = INT(args[0], 'usize')
            return BIGZ(Z('ite', args[1], Z('negate', x), x))
        if n == 'new':
            return BIGZ(K(0))
        return NotImplemented

    def trait(self, eng, s, c, args, ts, big, d, cond, where, n, short, dty):
        zv = lambda i: VAL(self.obj(eng, s, args[i])) if big[i] else INT(self.obj(eng, s, args[i]), ts[i].replace('&', ''))
        known = lambda i: big[i] or ts[i].replace('&', '') in PRIMS
        if short == 'Signed' and n in ('is_negative', 'is_positive'):
            return NEG(zv(0)) if n == 'is_negative' else NOT(NEG(zv(0)))
        if short == 'Signed' and n == 'abs':
            return BIGZ(Z('abs', zv(0)))
        if short == 'Zero' and n == 'is_zero':
            return ZEQ(zv(0), K(0))
        if short == 'One' and n == 'is_one':
            return ZEQ(zv(0), K(1))
        if short == 'Clone' and n == 'clone' and big[0]:
            return self.obj(eng, s, args[0])
        if short == 'Neg' and n == 'neg':
            return BIGZ(Z('negate', zv(0)))
        if n in OPS and short.lower() == n and len(args) == 2 and known(0) and known(1) and self.isbig(d):
            if n in ('div', 'rem'):
                self.pre.append((AND(cond, ZEQ(zv(1), K(0))), 'division by zero'))
            return BIGZ(Z(OPS[n], zv(0), zv(1)))
        if n.endswith('_assign') and n[:-7] in OPS and short.lower() == n.replace('_', '') and known(1):
            o = n[:-7]
            x = self.obj(eng, s, args[0])
            if o in ('div', 'rem'):
                self.pre.append((AND(cond, ZEQ(zv(1), K(0))), 'division by zero'))
            z = Z(OPS[o], VAL(x), zv(1))
            eng.store(s, args[0], BIGZ(z))
            return UNIT
        if short == 'PartialEq' and n in ('eq', 'ne') and known(0) and known(1):
            e = ZEQ(zv(0), zv(1))
            return e if n == 'eq' else NOT(e)
        if short == 'PartialOrd' and n in ('lt', 'le', 'gt', 'ge') and known(0) and known(1):
            a, b = zv(0), zv(1)
            return {'lt': ZLT(a, b), 'le': NOT(ZLT(b, a)), 'gt': ZLT(b, a), 'ge': NOT(ZLT(a, b))}[n]
        if short in ('Ord', 'PartialOrd') and n in ('cmp', 'partial_cmp') and known(0) and known(1):
            o = CMPZ(zv(0), zv(1))
            return o if n == 'cmp' else AGG(OPT, 1, o)
        if short == 'Ord' and n in ('max', 'min'):
            return NotImplemented
        if short in ('TryFrom', 'TryInto') and n in ('try_from', 'try_into'):
            m = re.match(r'core::result::Result<(\w+), (.*)>$', d)
            if m and m.group(1) in PRIMS:
                return TRY(zv(0), m.group(1))
        if short == 'FromChecked' and n == 'from_checked':
            m = re.match(r'core::option::Option<(\w+)>$', d)
            if m and m.group(1) in PRIMS:
                t = m.group(1)
                lo, hi = PRIMS[t]
                z = zv(0)
                return ITE(ZLT(K(hi), z), AGG(OPT, 0), ITE(ZLT(z, K(lo)), AGG(OPT, 0), AGG(OPT, 1, CONV(z, t))))
        if short == 'FromTruncating' and n == 'truncate_from' and d in PRIMS:
            return CONV(zv(0), d)
        if short == 'FromSaturating' and n == 'saturate_from' and d in PRIMS:
            lo, hi = PRIMS[d]
            z = zv(0)
            return ITE(ZLT(K(hi), z), mkint(hi, d), ITE(ZLT(z, K(lo)), mkint(lo % (1 << WIDTH[d]), d), CONV(z, d)))
        return NotImplemented


ERR = 'numeric_ints::big_int::OutOfRangeError'
SIDE = 'numeric_ints::big_int::Side'


def TRY(z, t):
    lo, hi = PRIMS[t]
    return ITE(ZLT(K(hi), z), AGG(RES, 1, AGG(ERR, 0, AGG(SIDE, 0))), ITE(ZLT(z, K(lo)), AGG(RES, 1, AGG(ERR, 0, AGG(SIDE, 1))), AGG(RES, 0, CONV(z, t))))


def CMPZ(a, b):
    return ITE(ZLT(a, b), LESS, ITE(ZEQ(a, b), EQUAL, GREATER))


# ------------------------------------------------------------------ symbolic evaluation
class Split(Exception):
    def __init__(self, key):
        self.key = key


class Stuck(Exception):
    pass


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
        if not r[m]:
            del r[m]
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n, key=str))
            r[k] = r.get(k, 0) + c * d
            if not r[k]:
                del r[k]
    return r


def pkey(p):
    return tuple(sorted(((m, c) for m, c in p.items()), key=str))


def const_of(p):
    if not p:
        return 0
    if len(p) == 1 and () in p:
        return p[()]
    return None


def prng(p, ranges):
    """bounds of a polynomial, from the ranges of its machine integers"""
    lo = hi = 0
    for m, c in p.items():
        a, b = 1, 1
        for v in m:
            r = ranges(v)
            if r is None:
                return None, None
            xs = [None if x is None or y is None else x * y for x in (a, b) for y in r]
            if len(m) > 1:
                if None in xs:
                    return None, None
                a, b = min(xs), max(xs)
            else:
                a, b = r
        if c < 0:
            a, b = b, a
        lo = None if lo is None or a is None else lo + c * a
        hi = None if hi is None or b is None else hi + c * b
    return lo, hi


class Sym:
    """polynomial value of an integer expression under an assignment of signs and conditions"""

    def __init__(self, asg, ranges, wide=None):
        self.asg = asg
        self.wide = wide or {}
        self.ranges = lambda v, asg: ranges(v, asg, self.wide)

    def slot(self, x):
        """the integer whose limbs a sequence holds"""
        if x.op == 'load':
            x = x.a[0]
        if isseqz(x):
            z = x.a[1].a[0]
            if z.a[0] == 'abs' and z.a[1].a[0] == 'val' and z.a[1].a[1] in self.wide:
                return z.a[1].a[1]
        return None

    def ask(self, key):
        if key not in self.asg:
            raise Split(key)
        return self.asg[key]

    def rng(self, p):
        return prng(p, lambda v: self.ranges(v, self.asg))

    def neg(self, p):
        """is p < 0"""
        k = const_of(p)
        if k is not None:
            return k < 0
        lo, hi = self.rng(p)
        if lo is not None and lo >= 0:
            return False
        if hi is not None and hi < 0:
            return True
        # integer content out of a positive multiple
        p = full(p)
        k = const_of(p)
        if k is not None:
            return k < 0
        return self.ask(('neg', pkey(p)))

    def zero(self, p):
        k = const_of(p)
        if k is not None:
            return k == 0
        lo, hi = self.rng(p)
        if lo is not None and lo > 0 or hi is not None and hi < 0:
            return False
        p = full(p)
        if not p:
            return True
        a, b = pkey(p), pkey({m: -c for m, c in p.items()})
        return self.ask(('zero', min(a, b, key=str)))

    def atom(self, x):
        a, b = (self.z(y) for y in x.a[1].a)
        return self.neg(padd(a, b, -1)) if x.a[1].op == 'zlt' else self.zero(padd(a, b, -1))

    def red(self, t):
        """decide every condition in a term"""
        for _ in range(60):
            at = [x for x in subterms(t) if isatom(x)]
            if at:
                # innermost first
                x = min(at, key=lambda y: len(subterms(y)))
                v = TRUE if self.atom(x) else FALSE
                t = subst(t, lambda y: v if y is x else None)
                continue
            conds = [x.a[0] for x in subterms(t) if x.op == 'ite'] + ([t] if tyof(t) == 'bool' and t not in (TRUE, FALSE) else [])
            if not conds:
                return t
            c = min(conds, key=lambda y: len(subterms(y)))
            prim = [y for y in subterms(c) if tyof(y) == 'bool' and y.op not in ('and', 'or', 'not', 'bool', 'ite')]
            y = min(prim, key=lambda q: len(subterms(q))) if prim else c
            v = self.compared(y)
            if v is None:
                v = self.ask(('cond', y))
            v = TRUE if v else FALSE
            t = subst(t, lambda q: v if q is y else None)
        raise Stuck('conditions')

    def compared(self, y):
        """a comparison of machine integers, by their values"""
        if y.op not in ('lt', 'eq') or not all(isinstance(x, T) for x in y.a[-2:]):
            return None
        a, b = y.a[-2:]
        ty = next((t for t in (tyof(a), tyof(b)) if t in WIDTH), None)
        if ty is None:
            return None
        d = padd(self.machine(a, ty), self.machine(b, ty), -1)
        return self.neg(d) if y.op == 'lt' else self.zero(d)

    def z(self, t):
        o = t.a[0]
        if o == 'k':
            return {(): t.a[1]} if t.a[1] else {}
        if o == 'ite':
            c = self.red(t.a[1])
            if c not in (TRUE, FALSE):
                raise Stuck('condition')
            return self.z(t.a[2] if c is TRUE else t.a[3])
        if o == 'val':
            b = self.red(t.a[1])
            if b is not t.a[1]:
                return self.z(VAL(b))
            if b in self.wide:
                n, more = self.wide[b]
                r = {(('limb', b, k),): 1 << 64 * k for k in range(n)}
                if more:
                    r[(('high', b),)] = 1 << 64 * n
                return {m: -c for m, c in r.items()} if self.ask(('negative', b)) else r
            return {(('val', b),): 1}
        if o == 'int':
            return self.machine(t.a[1], t.a[2])
        if o == 'limbs':
            r = {}
            for k, x in enumerate(t.a[1:]):
                r = padd(r, self.machine(x, 'usize'), 1 << 64 * k)
            return full(r)
        if o == 'wrap':
            p = self.z(t.a[1])
            lo, hi = PRIMS[t.a[2]]
            a, b = self.rng(p)
            if a is not None and b is not None and a >= lo and b <= hi:
                return p
            if not self.neg(padd({(): hi} if hi else {}, p, -1)) and not self.neg(padd(p, {(): lo} if lo else {}, -1)):
                return p
            return {(('wrap', pkey(p), t.a[2]),): 1}
        if o == 'negate':
            return {m: -c for m, c in self.z(t.a[1]).items()}
        if o == 'abs':
            p = self.z(t.a[1])
            return {m: -c for m, c in p.items()} if self.neg(p) else p
        a = self.z(t.a[1])
        b = self.z(t.a[2])
        if o == 'add':
            return padd(a, b)
        if o == 'sub':
            return padd(a, b, -1)
        if o == 'mul':
            return pmul(a, b)
        if o in ('quo', 'rem', 'shl', 'shr', 'pow'):
            if o in ('quo', 'rem', 'shl', 'shr') and not a:
                return {}
            if o in ('shl', 'shr') and const_of(b) == 0:
                return a
            if o in ('shl', 'shr') and self.neg(a):
                na = {m: -c for m, c in a.items()}
                return {((o, pkey(na), pkey(b)),): -1}
            return {((o, pkey(a), pkey(b)),): 1}
        if o in BITZ:
            if self.neg(a) or self.neg(b):
                raise Stuck(o)
            if not a or not b:
                return {} if o == 'zand' else a or b
            ka, kb = sorted((pkey(a), pkey(b)), key=repr)
            if ka == kb:
                return {} if o == 'zxor' else a
            return {((o, ka, kb),): 1}
        if o in ('tdiv', 'trem'):
            na, nb = self.neg(a), self.neg(b)
            ab = {m: -c for m, c in a.items()} if na else a
            bb = {m: -c for m, c in b.items()} if nb else b
            if o == 'tdiv':
                return {(('quo', pkey(ab), pkey(bb)),): -1 if na != nb else 1}
            return {(('rem', pkey(ab), pkey(bb)),): -1 if na else 1}
        raise Stuck(o)

    def machine(self, x, ty):
        """value of a machine integer term"""
        x = self.red(x)
        if isint(x):
            v = x.a[0]
            if ty in SINTS and v > PRIMS[ty][1]:
                v -= 1 << WIDTH[ty]
            return {(): v} if v else {}
        u = self.unsigned(x)
        if u is not None:
            return u
        p = self.mod(x)
        if p is not None and not (len(p) == 1 and p == {(('int', x, tyof(x) or ty),): 1}):
            lo, hi = PRIMS[ty]
            a, b = self.rng(p)
            if a is not None and b is not None and a >= lo and b <= hi:
                return p
            if not self.neg(padd({(): hi} if hi else {}, p, -1)) and not self.neg(padd(p, {(): lo} if lo else {}, -1)):
                return p
        return {(('int', x, ty),): 1}

    def unsigned(self, x):
        """quotients and remainders by constants, limbs and lengths"""
        if x.op == 'sel' and isint(x.a[1]):
            b = self.slot(x.a[0])
            if b is not None and x.a[1].a[0] < self.wide[b][0]:
                return {(('limb', b, x.a[1].a[0]),): 1}
        if x.op == 'len':
            b = self.slot(x.a[0])
            if b is not None:
                n, more = self.wide[b]
                return {(('len', b, n + 1),): 1} if more else {(): n}
        if x.op in ('div', 'rem', 'shr', 'band') and x.a[0] in UINTS:
            y, k = x.a[1], x.a[2]
            if x.op == 'band' and isint(y):
                y, k = k, y
            if not isint(k):
                return None
            c = k.a[0]
            if x.op == 'shr':
                c = 1 << c
            elif x.op == 'band':
                c += 1
                if c & (c - 1):
                    return None
            if c == 0:
                return None
            p = self.machine(y, x.a[0])
            lo, hi = self.rng(p)
            if hi is not None and lo is not None and lo >= 0 and hi < c:
                return {} if x.op in ('div', 'shr') else p
            return {(('quo' if x.op in ('div', 'shr') else 'rem', pkey(full(p)), pkey({(): c})),): 1}
        return None

    def mod(self, x):
        """polynomial congruent to a machine integer term modulo 2^width of its type"""
        if isint(x):
            return {(): x.a[0]} if x.a[0] else {}
        u = self.unsigned(x)
        if u is not None:
            return u
        if x.op == 'shl' and isint(x.a[2]):
            p = self.mod(x.a[1])
            return None if p is None else {m: c << x.a[2].a[0] for m, c in p.items()}
        if x.op in ('bor', 'bxor') and x.a[0] in UINTS:
            # no bit set in both
            for u, v in (x.a[1:], x.a[1:][::-1]):
                if u.op == 'shl' and isint(u.a[2]):
                    lo, hi = self.rng(self.machine(v, x.a[0]))
                    if hi is not None and lo is not None and lo >= 0 and hi < 1 << u.a[2].a[0]:
                        a, b = self.mod(u), self.mod(v)
                        return padd(a, b) if a is not None and b is not None else None
        if x.op == 'tcall' and x.a[1].op == 'zconv':
            return self.z(x.a[1].a[0])
        if x.op == 'cast':
            src, dst = x.a[0] if isinstance(x.a[0], str) else tyof(x.a[2]), x.a[1]
            y = x.a[2]
            if src in WIDTH and dst in WIDTH and WIDTH[dst] <= WIDTH[src]:
                return self.mod(y)
            if src in WIDTH and dst in WIDTH:
                return self.machine(y, src)
        if x.op == 'neg':
            p = self.mod(x.a[1])
            return None if p is None else {m: -c for m, c in p.items()}
        if x.op in ('add', 'sub', 'mul') and x.a[0] in WIDTH:
            a, b = self.mod(x.a[1]), self.mod(x.a[2])
            if a is None or b is None:
                return None
            return pmul(a, b) if x.op == 'mul' else padd(a, b, 1 if x.op == 'add' else -1)
        if x.op in ('sym', 'sel', 'fld', 'load', 'fin', 'phi'):
            t = tyof(x)
            return {(('int', x, t),): 1} if t in WIDTH else None
        return None


def leafeq(S, a, b):
    """equality of two condition-free terms"""
    if a is b:
        return True
    if a in (TRUE, FALSE) and b in (TRUE, FALSE):
        return False
    if a.op == 'agg' and b.op == 'agg':
        if a.a[:2] != b.a[:2] or len(a.a) != len(b.a):
            return False
        return all(leafeq(S, S.red(x), S.red(y)) for x, y in zip(a.a[2:], b.a[2:]))
    if a.op == 'tuple' and b.op == 'tuple':
        return len(a.a) == len(b.a) and all(leafeq(S, S.red(x), S.red(y)) for x, y in zip(a.a, b.a))
    ta, tb = tyof(a), tyof(b)
    if BI in (ta, tb) or a.op == 'tcall' and isinstance(a.a[1], T) and a.a[1].op == 'zbig' or b.op == 'tcall' and isinstance(b.a[1], T) and b.a[1].op == 'zbig':
        return full(S.z(VAL(a))) == full(S.z(VAL(b)))
    if ta in WIDTH or tb in WIDTH:
        ty = ta if ta in WIDTH else tb
        p, q = S.mod(a), S.mod(b)
        if p is None or q is None:
            raise Stuck('machine value %s' % show(a if p is None else b, 3)[:80])
        d = full(padd(p, q, -1))
        return all(c % (1 << WIDTH[ty]) == 0 for c in d.values())
    raise Stuck('%s / %s' % (show(a, 3)[:60], show(b, 3)[:60]))


def consistent(asg):
    """cheap contradictions among the assumed signs"""
    neg = {k[1]: v for k, v in asg.items() if k[0] == 'neg'}
    for k, v in neg.items():
        o = pkey({m: -c for m, c in dict(k).items()})
        if v and neg.get(o):
            return False
    for k, v in asg.items():
        if k[0] == 'zero' and v:
            for q in (k[1], pkey({m: -c for m, c in dict(k[1]).items()})):
                if neg.get(q):
                    return False
                # both not negative is fine
    # p >= 0 and -p >= 0 is only p == 0
    return True


def full(p):
    """remainders by constants through quotients"""
    for m in list(p):
        for i, v in enumerate(m):
            if v[0] == 'rem' and const_of(dict(v[2])):
                c = p[m]
                rest = m[:i] + m[i + 1:]
                q = {k: x for k, x in p.items() if k != m}
                d = dict(v[1])
                d = padd(d, {(('quo', v[1], v[2]),): 1}, -const_of(dict(v[2])))
                return full(padd(q, pmul({rest: 1}, d), c))
    return p


def ranges(v, asg, wide={}):
    """range of one variable under the assumptions made"""
    if v[0] == 'limb':
        n, more = wide[v[1]]
        low = 1 if v[2] == n - 1 and not more and (n > 1 or asg.get(('negative', v[1]))) else 0
        return refine(v, asg, low, (1 << 64) - 1)
    if v[0] == 'high':
        return 1, None
    if v[0] == 'len':
        return v[2], None
    if v[0] == 'rem' and const_of(dict(v[2])):
        return 0, const_of(dict(v[2])) - 1
    if v[0] == 'quo' and const_of(dict(v[2])):
        hi = None
        r = prng(dict(v[1]), lambda u: ranges(u, asg, wide))
        if r[1] is not None:
            hi = r[1] // const_of(dict(v[2]))
        return 0, hi
    if v[0] in ('quo', 'rem', 'shl', 'shr') + BITZ:
        return 0, None
    if v[0] == 'wrap':
        return PRIMS[v[2]]
    if v[0] in ('val', 'int'):
        lo, hi = PRIMS.get(v[2], (None, None)) if v[0] == 'int' else (None, None)
        return refine(v, asg, lo, hi)
    return None


def refine(v, asg, lo, hi):
        # (what the assumptions say about one variable)
        for k, val in asg.items():
            # comparisons with constants
            if k[0] == 'neg' and 1 <= len(k[1]) <= 2:
                d = dict(k[1])
                c = d.pop((), 0)
                if list(d) == [(v,)] and d[(v,)] in (1, -1):
                    if d[(v,)] == 1:          # v + c < 0
                        if val:
                            hi = min(-c - 1, hi) if hi is not None else -c - 1
                        else:
                            lo = max(-c, lo) if lo is not None else -c
                    else:                     # c - v < 0
                        if val:
                            lo = max(c + 1, lo) if lo is not None else c + 1
                        else:
                            hi = min(c, hi) if hi is not None else c
            if k[0] == 'zero' and val and 1 <= len(k[1]) <= 2:
                d = dict(k[1])
                c = d.pop((), 0)
                if list(d) == [(v,)] and d[(v,)] in (1, -1):
                    x = -c * d[(v,)]
                    lo = hi = x
        if lo is not None and hi is not None and lo > hi:
            raise Dead()
        return (lo, hi) if lo is not None or hi is not None else None


class Dead(Exception):
    pass


def cases(f, asg=None, depth=0, budget=None, wide=None):
    """run f(Sym) in every case; yields (assignment, result)"""
    budget = budget if budget is not None else [600]
    asg = asg or {}
    budget[0] -= 1
    if budget[0] < 0:
        raise Stuck('too many cases')
    try:
        yield asg, f(Sym(asg, ranges, wide))
    except Dead:
        return
    except Split as sp:
        if depth > 14:
            raise Stuck('too deep')
        for v in (True, False):
            a = dict(asg)
            a[sp.key] = v
            if consistent(a):
                yield from cases(f, a, depth + 1, budget, wide)


# ------------------------------------------------------------------ concrete evaluation
class Conc:
    def __init__(self, env):
        self.env = env

    def atom(self, x):
        a, b = (self.z(y) for y in x.a[1].a)
        return a < b if x.a[1].op == 'zlt' else a == b

    def red(self, t):
        for _ in range(80):
            at = [x for x in subterms(t) if isatom(x)]
            if at:
                x = min(at, key=lambda y: len(subterms(y)))
                v = TRUE if self.atom(x) else FALSE
                t = subst(t, lambda y: v if y is x else None)
                continue
            zi = next((x for x in subterms(t) if x.op == 'tcall' and isinstance(x.a[1], T) and x.a[1].op == 'zinl'), None)
            if zi is not None and zi in self.env:
                t = subst(t, lambda y: self.env[zi] if y is zi else None)
                continue
            if zi is not None:
                v = self.z(zi.a[1].a[0])
                if 2 <= v < 1 << 64:
                    raise Stuck('inline')
                v = mkbool(v < 2)
                t = subst(t, lambda y: v if y is zi else None)
                continue
            sq = [x for x in subterms(t) if x.op in ('sel', 'len') and (isseqz(x.a[0]) or x.a[0].op == 'load' and isseqz(x.a[0].a[0])) and (x.op == 'len' or isint(x.a[1]))]
            if sq:
                x = sq[0]
                q = x.a[0] if isseqz(x.a[0]) else x.a[0].a[0]
                v = self.z(q.a[1].a[0])
                ls = [v >> 64 * i & (1 << 64) - 1 for i in range(max(1, (v.bit_length() + 63) // 64))]
                if x.op == 'sel' and x.a[1].a[0] >= len(ls):
                    raise Stuck('beyond the end')
                v = mkint(len(ls) if x.op == 'len' else ls[x.a[1].a[0]])
                t = subst(t, lambda y: v if y is x else None)
                continue
            zc = [x for x in subterms(t) if x.op == 'tcall' and isinstance(x.a[1], T) and x.a[1].op == 'zconv']
            if zc:
                x = min(zc, key=lambda y: len(subterms(y)))
                v = mkint(self.z(x.a[1].a[0]) % (1 << WIDTH[x.a[0]]), x.a[0])
                t = subst(t, lambda y: v if y is x else None)
                continue
            t2 = subst(t, lambda y: self.env.get(y) if isinstance(self.env.get(y), T) else None)
            if t2 is t:
                return t
            t = t2
        raise Stuck('value')

    def z(self, t):
        o = t.a[0]
        if o == 'k':
            return t.a[1]
        if o == 'ite':
            c = self.red(t.a[1])
            if c not in (TRUE, FALSE):
                raise Stuck('condition')
            return self.z(t.a[2] if c is TRUE else t.a[3])
        if o == 'val':
            if t.a[1] in self.env:
                return self.env[t.a[1]]
            b = self.red(t.a[1])
            if b is t.a[1]:
                raise Stuck('value of %s' % show(b, 3)[:50])
            return self.z(VAL(b))
        if o == 'int':
            x = self.red(t.a[1])
            if not isint(x):
                raise Stuck('int')
            v = x.a[0]
            return v - (1 << WIDTH[t.a[2]]) if t.a[2] in SINTS and v > PRIMS[t.a[2]][1] else v
        if o == 'limbs':
            r = 0
            for k, x in enumerate(t.a[1:]):
                x = self.red(x)
                if not isint(x):
                    raise Stuck('limb')
                r += x.a[0] << 64 * k
            return r
        if o == 'wrap':
            v = self.z(t.a[1]) % (1 << WIDTH[t.a[2]])
            return v - (1 << WIDTH[t.a[2]]) if t.a[2] in SINTS and v > PRIMS[t.a[2]][1] else v
        if o == 'negate':
            return -self.z(t.a[1])
        if o == 'abs':
            return abs(self.z(t.a[1]))
        a, b = self.z(t.a[1]), self.z(t.a[2])
        if o == 'add':
            return a + b
        if o == 'sub':
            return a - b
        if o == 'mul':
            return a * b
        if o in ('quo', 'tdiv', 'rem', 'trem'):
            if b == 0:
                raise Stuck('division by zero')
            q = abs(a) // abs(b)
            q = -q if (a < 0) != (b < 0) else q
            return q if o in ('quo', 'tdiv') else a - q * b
        if o in BITZ:
            if a < 0 or b < 0:
                raise Stuck(o)
            return a & b if o == 'zand' else a | b if o == 'zor' else a ^ b
        if o in ('shl', 'shr'):
            if b < 0 or b > 300:
                raise Stuck('shift')
            m = abs(a) << b if o == 'shl' else abs(a) >> b
            return -m if a < 0 else m
        if o == 'pow':
            if b < 0 or b > 300 or abs(a).bit_length() * b > 100000:
                raise Stuck('pow')
            return a ** b
        raise Stuck(o)

    def out(self, t):
        """python value of a result"""
        if t in self.env and isinstance(self.env[t], int):
            return self.env[t]
        if tyof(t) == BI or t.op == 'agg' and t.a[0] == BI or t.op == 'tcall' and isinstance(t.a[1], T) and t.a[1].op == 'zbig':
            return self.z(VAL(t))
        t = self.red(t)
        if t.op == 'agg':
            return (t.a[0], t.a[1]) + tuple(self.out(x) for x in t.a[2:])
        if t.op == 'tuple':
            return tuple(self.out(x) for x in t.a)
        if isint(t):
            return t.a[0]
        if t in (TRUE, FALSE):
            return t is TRUE
        if tyof(t) == BI or t.op == 'tcall' and isinstance(t.a[1], T) and t.a[1].op == 'zbig':
            return self.z(VAL(t))
        raise Stuck('result %s' % show(t, 3)[:60])


WORDY = [(1 << 61) + 3, (1 << 62) - 1, -(1 << 62) + 1, (1 << 32) + 1, -(1 << 61), 1 << 33]
INTERESTING = [0, 1, 2, 3, -1, -2, -3, 7, -7, 12, -12, 64, 130, 1 << 31, -(1 << 31), (1 << 62), -(1 << 62), (1 << 64) - 1, 1 << 64, -(1 << 64), (1 << 64) + 5, (1 << 127), -(1 << 127), 1 << 128, (1 << 130) + 3, -(1 << 130) - 9]


def near(t):
    lo, hi = PRIMS[t]
    return [v for v in (lo, lo + 1, hi, hi - 1) if lo <= v <= hi]


def witness(a, b, bigs, ints, pre=TRUE, bounds=(), words=None):
    """values on which two results differ"""
    vals = list(INTERESTING)
    for t in bounds:
        lo, hi = PRIMS[t]
        vals += [lo - 1, lo, lo + 1, hi - 1, hi, hi + 1]
    vals = list(dict.fromkeys(vals))
    if len(bigs) > 1:
        vals = vals[:24]
    if words:
        vals += WORDY
    dom = [vals] * len(bigs) + [list(dict.fromkeys([v for v in INTERESTING if PRIMS[tyof(x)][0] <= v <= PRIMS[tyof(x)][1]] + near(tyof(x)))) for x in ints]
    n = 0
    for pt in itertools.product(*dom):
        n += 1
        if n > 1500:
            break
        env = {}
        for x, v in zip(list(bigs) + list(ints), pt):
            env[x] = v if x in bigs else mkint(v % (1 << WIDTH[tyof(x)]), tyof(x))
            if words and x in bigs:
                w = words(x, v)
                if w is not None:
                    env[w[0]] = w[1]
                env[raw('tcall', 'bool', raw('zinl', Z('abs', VAL(x))))] = mkbool(w is not None)
        C = Conc(env)
        try:
            if pre is not TRUE and C.red(pre) is not TRUE:
                continue
            x, y = C.out(a), C.out(b)
        except Stuck:
            continue
        if x != y:
            return {'inputs': {show(k, 1): str(v) for k, v in zip(list(bigs) + list(ints), pt)}, 'found': str(x), 'required': str(y)}
    return None


def decide(found, spec, bigs, ints=(), pre=TRUE, bounds=()):
    """verdict on: for all values with pre, found equals spec"""
    def f(S):
        if pre is not TRUE:
            p = S.red(pre)
            if p is FALSE:
                return True
        return leafeq(S, S.red(found), S.red(spec))
    err = None
    try:
        bad = None
        # integers whose limbs are looked at, by number of limbs
        ws = sorted({x.a[1].a[0].a[1].a[1] for q in (found, pre) for x in subterms(q) if isseqz(x) and x.a[1].a[0].a[0] == 'abs' and x.a[1].a[0].a[1].a[0] == 'val'}, key=lambda x: x.id)
        for lens in itertools.product(((1, False), (2, False), (3, False), (3, True)), repeat=len(ws)):
            for asg, ok in cases(f, wide=dict(zip(ws, lens))):
                if not ok:
                    bad = asg
                    break
            if bad is not None:
                break
        if bad is None:
            return HOLD, None
        err = 'differs in a case'
    except Stuck as s:
        err = 'not reduced: %s' % s
    except RecursionError:
        err = 'too deep'
    w = witness(found, spec, bigs, ints, pre, bounds)
    if w is not None:
        return VIOLATED, w
    return UNDECIDED, err


def execute(r, env, limit=320):
    """python value of a result with loops, for given values of the parameters"""
    env = dict(env)
    for L in r.loops.values():
        if not any(x.op in ('fin', 'exitsel') and x.a[0] == L.id for x in subterms(r.ret)):
            continue
        C = Conc(env)
        val = lambda C, p, t: C.out(t) if tyof(p) == BI else C.red(t)
        cur = {p: val(C, p, i) for p, i, _ in L.phis.values()}
        for _ in range(limit):
            D = Conc(dict(env, **{}) | cur)
            on = [D.red(e[0]) for e in L.exits]
            if any(x is not TRUE and x is not FALSE for x in on):
                raise Stuck('exit')
            hit = [k for k, x in enumerate(on) if x is TRUE]
            if hit:
                break
            cur = {p: val(D, p, s) for p, _, s in L.phis.values()}
        else:
            raise Stuck('turns')
        for p, v in cur.items():
            env[raw('fin', L.id, p.a[1], p.a[2])] = v
        env[raw('exitsel', L.id)] = mkint(hit[0])
    return Conc(env).out(r.ret)
