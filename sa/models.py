"""Semantics of the library operations the analysed crates use (core/alloc), on the term domain."""
import re
from .term import *
from .engine import Undecided, State, AND, NOT

INT_IMPL = re.compile(r'^core::num::<impl (\w+)>::(\w+)$')
F_IMPL = re.compile(r'^(?:core|std)::(?:num::)?(?:f32|f64)?(?:::)?(?:math::)?<impl (f32|f64)>::(\w+)$')

ARITH = {
    'core::ops::arith::Add::add': 'add', 'core::ops::arith::Sub::sub': 'sub',
    'core::ops::arith::Mul::mul': 'mul', 'core::ops::arith::Div::div': 'div',
    'core::ops::arith::Rem::rem': 'rem', 'core::ops::bit::BitAnd::bitand': 'band',
    'core::ops::bit::BitOr::bitor': 'bor', 'core::ops::bit::BitXor::bitxor': 'bxor',
    'core::ops::bit::Shl::shl': 'shl', 'core::ops::bit::Shr::shr': 'shr',
}
ASSIGN = {
    'core::ops::arith::AddAssign::add_assign': 'add', 'core::ops::arith::SubAssign::sub_assign': 'sub',
    'core::ops::arith::MulAssign::mul_assign': 'mul', 'core::ops::arith::DivAssign::div_assign': 'div',
    'core::ops::arith::RemAssign::rem_assign': 'rem', 'core::ops::bit::BitAndAssign::bitand_assign': 'band',
    'core::ops::bit::BitOrAssign::bitor_assign': 'bor', 'core::ops::bit::BitXorAssign::bitxor_assign': 'bxor',
    'core::ops::bit::ShlAssign::shl_assign': 'shl', 'core::ops::bit::ShrAssign::shr_assign': 'shr',
}
FOPS = {'add', 'sub', 'mul', 'div', 'rem'}
TCOMM = {'add', 'mul', 'band', 'bor', 'bxor'}


def TOP(op, *a):
    """operator of an abstract number type T"""
    if op in TCOMM and len(a) == 2 and a[1].id < a[0].id:
        a = (a[1], a[0])
    if op == 'neg' and a[0].op == 't' and a[0].a[0] == 'neg':
        return a[0].a[1]
    if op == 'bnot' and a[0].op == 't' and a[0].a[0] == 'bnot':
        return a[0].a[1]
    return raw('t', op, *a)


PRIM = set(WIDTH) | {'bool', 'f32', 'f64'}


def peel(s):
    while s.startswith('&'):
        s = s[1:]
        if s.startswith('mut '):
            s = s[4:]
    return s


def isref(a):
    while a.op == 'ite':
        if isref(a.a[1]):
            return True
        a = a.a[2]
    return a.op == 'ref' or (a.op == 'sym' and isinstance(a.a[1], str) and a.a[1].startswith('&'))


class Models:
    def __init__(self, extra=None):
        self.extra = extra or {}

    # -------------------------------------------------------------
    def dispatch(self, e, fr, s, c, args, atys, dty, cond, where):
        p = c['p']
        rp = c.get('rp', '')
        self.c, self.where, self.cond = c, where, cond
        f = self.extra.get(p) or self.extra.get(rp)
        if f:
            r = f(e, fr, s, c, args, atys, dty, cond, where)
            if r is not NotImplemented:
                return r
        m = INT_IMPL.match(rp or p) or INT_IMPL.match(p)
        if m and m.group(1) in WIDTH:
            r = self.int_method(e, s, m.group(1), m.group(2), args, cond, where)
            if r is not NotImplemented:
                return r
        selfs = peel(e.selfty(c)) if c.get('tr') else ''
        ws = c.get('rc', '').startswith('numeric')
        if p in ARITH and not ws:
            a, b = self.val(e, s, args[0]), self.val(e, s, args[1])
            return self.arith(e, ARITH[p], selfs, a, b, cond, where)
        if p in ASSIGN and not ws:
            a, b = e.load(s, args[0]), self.val(e, s, args[1])
            if selfs.startswith('&'):
                return NotImplemented
            e.store(s, args[0], self.arith(e, ASSIGN[p], selfs, a, b, cond, where))
            return UNIT
        if p == 'core::ops::arith::Neg::neg' and not ws and 'NonZero<' in selfs:
            return m_nzneg(self, e, fr, s, c, args, atys, dty, cond, where)
        if p == 'core::ops::arith::Neg::neg' and not ws:
            a = self.val(e, s, args[0])
            if selfs in WIDTH:
                e.res.panics.append((AND(cond, EQ(a, mkint(irange(selfs)[0], selfs))), 'overflow:Neg', where))
                return NEG(selfs, a)
            if selfs in ('f32', 'f64'):
                return raw('fneg', selfs, a)
            return TOP('neg', a)
        if p == 'core::ops::bit::Not::not' and not ws:
            a = self.val(e, s, args[0])
            if selfs in PRIM:
                return BNOT(selfs, a)
            return TOP('bnot', a)
        g = TABLE.get(p)
        if g is not None:
            r = g(self, e, fr, s, c, args, atys, dty, cond, where)
            if r is not NotImplemented:
                return r
        g = TABLE.get(rp)
        if g is not None:
            r = g(self, e, fr, s, c, args, atys, dty, cond, where)
            if r is not NotImplemented:
                return r
        for rx, g in PATTERNS:
            if rx.match(rp or p):
                r = g(self, e, fr, s, c, args, atys, dty, cond, where)
                if r is not NotImplemented:
                    return r
        return NotImplemented

    def val(self, e, s, a):
        d = 0
        while d < 5 and isref(a):
            a = e.load(s, a)
            d += 1
        return a

    def arith(self, e, op, ty, a, b, cond, where):
        if ty in WIDTH or ty == 'bool':
            if op in ('add', 'sub', 'mul'):
                o = OVF(op, ty, a, b)
                if o is not FALSE:
                    e.res.panics.append((AND(cond, o), 'overflow:' + op.capitalize(), where))
            elif op in ('div', 'rem'):
                z = EQ(b, mkint(0, ty))
                if z is not FALSE:
                    e.res.panics.append((AND(cond, z), 'divzero' if op == 'div' else 'remzero', where))
                if signed(ty):
                    o = AND(EQ(b, mkint(-1, ty)), EQ(a, mkint(irange(ty)[0], ty)))
                    if o is not FALSE:
                        e.res.panics.append((AND(cond, o), 'overflow:' + op.capitalize(), where))
            elif op in ('shl', 'shr'):
                bt = tyof(b)
                if bt in WIDTH:
                    o = GE(b, mkint(WIDTH[ty], bt)) if WIDTH[ty] <= irange(bt)[1] else FALSE
                    if o is not FALSE:
                        e.res.panics.append((AND(cond, o), 'overflow:' + op.capitalize(), where))
            return BIN(op, ty, a, b)
        if ty in ('f32', 'f64'):
            return raw('f' + op, ty, a, b)
        return TOP(op, a, b)

    # ------------------------------------------------------------- ints
    def int_method(self, e, s, n, m, args, cond, where):
        a = self.val(e, s, args[0]) if args else None
        b = self.val(e, s, args[1]) if len(args) > 1 else None
        z = lambda v: mkint(v, n)
        lo, hi = irange(n)
        w = WIDTH[n]

        def shamt(x):
            return x
        kind, _, op = m.partition('_')
        if kind == 'wrapping' and op in ('add', 'sub', 'mul'):
            return BIN(op, n, a, b)
        if m == 'wrapping_neg':
            return NEG(n, a)
        if kind == 'wrapping' and op in ('shl', 'shr'):
            return BIN(op, n, a, BIN('band', 'u32', b, mkint(w - 1, 'u32')))
        if kind in ('wrapping', 'overflowing', 'checked', 'saturating') and op in ('div', 'rem') and kind != 'checked':
            zb = EQ(b, z(0))
            if zb is not FALSE:
                e.res.panics.append((AND(cond, zb), 'divzero' if op == 'div' else 'remzero', where))
            q = BIN(op, n, a, b)
            mo = AND(EQ(a, z(lo)), EQ(b, z(-1))) if signed(n) else FALSE
            if kind == 'overflowing':
                return TUPLE(q, mo)
            if kind == 'saturating' and op == 'div':
                return ITE(mo, z(hi), q)
            return q
        if kind == 'overflowing' and op in ('add', 'sub', 'mul'):
            return TUPLE(BIN(op, n, a, b), OVF(op, n, a, b))
        if m == 'overflowing_neg':
            return TUPLE(NEG(n, a), EQ(a, z(lo)) if signed(n) else NE(a, z(0)))
        if kind == 'overflowing' and op in ('shl', 'shr'):
            return TUPLE(BIN(op, n, a, BIN('band', 'u32', b, mkint(w - 1, 'u32'))), GE(b, mkint(w, 'u32')))
        if kind == 'checked' and op in ('add', 'sub', 'mul'):
            return ITE(OVF(op, n, a, b), NONE, SOME(BIN(op, n, a, b)))
        if kind == 'checked' and op in ('div', 'rem'):
            bad = EQ(b, z(0))
            if signed(n):
                bad = OR(bad, AND(EQ(a, z(lo)), EQ(b, z(-1))))
            return ITE(bad, NONE, SOME(BIN(op, n, a, b)))
        if m == 'checked_neg':
            return ITE(EQ(a, z(lo)) if signed(n) else NE(a, z(0)), NONE, SOME(NEG(n, a)))
        if kind == 'checked' and op in ('shl', 'shr'):
            return ITE(LT(b, mkint(w, 'u32')), SOME(BIN(op, n, a, b)), NONE)
        if kind == 'saturating' and op in ('add', 'sub', 'mul') and not signed(n):
            return ITE(OVF(op, n, a, b), z(0) if op == 'sub' else z(hi), BIN(op, n, a, b))
        if kind == 'saturating' and op in ('add', 'sub', 'mul'):
            if op == 'add':
                neg = LT(b, z(0))
            elif op == 'sub':
                neg = NOT(LT(b, z(0)))
            else:
                neg = NOT(EQ(LT(a, z(0)), LT(b, z(0))))
            return ITE(OVF(op, n, a, b), ITE(neg, z(lo), z(hi)), BIN(op, n, a, b))
        if m == 'unsigned_abs':
            u = 'u' + n[1:]
            return ITE(LT(a, z(0)), NEG(u, CAST(n, u, a)), CAST(n, u, a))
        if m == 'abs' or m == 'wrapping_abs':
            if m == 'abs':
                e.res.panics.append((AND(cond, EQ(a, z(lo))), 'overflow:Neg', where))
            return ITE(LT(a, z(0)), NEG(n, a), a)
        if m == 'is_positive':
            return LT(z(0), a)
        if m == 'is_negative':
            return LT(a, z(0))
        if m == 'signum':
            return ITE(LT(a, z(0)), z(-1), ITE(EQ(a, z(0)), z(0), z(1)))
        if m == 'min_value':
            return z(lo)
        if m == 'max_value':
            return z(hi)
        if m == 'is_power_of_two':
            return NotImplemented
        if m == 'abs_diff':
            u = n if not signed(n) else 'u' + n[1:]
            return ITE(LT(a, b), BIN('sub', u, CAST(n, u, b), CAST(n, u, a)), BIN('sub', u, CAST(n, u, a), CAST(n, u, b)))
        if m in ('unchecked_add', 'unchecked_sub', 'unchecked_mul', 'unchecked_shl', 'unchecked_shr'):
            return BIN(m[10:], n, a, b)
        if m == 'cast_signed':
            return CAST(n, 'i' + n[1:], a)
        if m == 'cast_unsigned':
            return CAST(n, 'u' + n[1:], a)
        if m == 'carrying_add' and not signed(n):
            cin = CAST('bool', n, args[2])
            t = BIN('add', n, a, b)
            return TUPLE(BIN('add', n, t, cin), OR(OVF('add', n, a, b), OVF('add', n, t, cin)))
        if m == 'borrowing_sub' and not signed(n):
            cin = CAST('bool', n, args[2])
            t = BIN('sub', n, a, b)
            return TUPLE(BIN('sub', n, t, cin), OR(OVF('sub', n, a, b), OVF('sub', n, t, cin)))
        if m in ('to_le', 'from_le'):
            return a
        if m in ('to_le_bytes', 'to_ne_bytes'):
            return raw('arr', *[CAST(n, 'u8', BIN('shr', n, a, mkint(8 * i, 'u32'))) for i in range(w // 8)]) if False else raw('bytes', 'le', n, a)
        if m == 'to_be_bytes':
            return raw('bytes', 'be', n, a)
        if m in ('from_le_bytes', 'from_ne_bytes'):
            return raw('unbytes', 'le', n, a)
        if m == 'from_be_bytes':
            return raw('unbytes', 'be', n, a)
        rty = {'leading_zeros': 'u32', 'trailing_zeros': 'u32', 'count_ones': 'u32', 'count_zeros': 'u32',
               'ilog2': 'u32', 'ilog10': 'u32', 'ilog': 'u32', 'leading_ones': 'u32', 'trailing_ones': 'u32'}.get(m)
        known = ('pow', 'wrapping_pow', 'isqrt', 'swap_bytes', 'reverse_bits', 'rotate_left', 'rotate_right',
                 'div_euclid', 'rem_euclid', 'next_power_of_two', 'div_ceil', 'div_floor')
        if m in known or rty:
            if m == 'pow':
                e.res.panics.append((AND(cond, raw('powovf', n, a, b)), 'overflow:Pow', where))
            if m in ('div_euclid', 'rem_euclid'):
                zb = EQ(b, z(0))
                e.res.panics.append((AND(cond, zb), 'divzero', where))
            vs = [self.val(e, s, x) for x in args]
            return raw('iop', m, n, *vs) if not rty else raw('tcall', rty, raw('iop', m, n, *vs))
        if m in ('checked_pow', 'overflowing_pow', 'saturating_pow'):
            v = raw('iop', 'wrapping_pow', n, a, b)
            o = raw('powovf', n, a, b)
            if m == 'checked_pow':
                return ITE(o, NONE, SOME(raw('iop', 'pow', n, a, b)))
            if m == 'overflowing_pow':
                return TUPLE(v, o)
            return NotImplemented
        return NotImplemented


TABLE = {}
PATTERNS = []


def model(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def pattern(rx):
    def d(f):
        PATTERNS.append((re.compile(rx), f))
        return f
    return d


# ------------------------------------------------------------------ comparison, clone, identity
def _cmpop(fn):
    def g(self, e, fr, s, c, args, atys, dty, cond, where):
        if c.get('rc', '').startswith('numeric'):
            return NotImplemented
        st = peel(e.selfty(c))
        a, b = self.val(e, s, args[0]), self.val(e, s, args[1])
        t = e.type_by_str(st)
        if t is not None and t['k'] == 'adt' and c.get('inst') is not None and t['p'] not in (ORDERING,):
            return NotImplemented
        fl = st in ('f32', 'f64')
        if st == '()':
            a = b = UNIT
        return fn(a, b, fl)
    return g


TABLE['core::cmp::PartialEq::eq'] = _cmpop(lambda a, b, fl: raw('feq', *sorted((a, b), key=lambda t: t.id)) if fl else EQ(a, b))
TABLE['core::cmp::PartialEq::ne'] = _cmpop(lambda a, b, fl: NOT(raw('feq', *sorted((a, b), key=lambda t: t.id))) if fl else NE(a, b))
TABLE['core::cmp::PartialOrd::lt'] = _cmpop(lambda a, b, fl: raw('flt', a, b) if fl else LT(a, b))
TABLE['core::cmp::PartialOrd::gt'] = _cmpop(lambda a, b, fl: raw('flt', b, a) if fl else GT(a, b))
TABLE['core::cmp::PartialOrd::le'] = _cmpop(lambda a, b, fl: raw('fle', a, b) if fl else LE(a, b))
TABLE['core::cmp::PartialOrd::ge'] = _cmpop(lambda a, b, fl: raw('fle', b, a) if fl else GE(a, b))
TABLE['core::cmp::Ord::cmp'] = _cmpop(lambda a, b, fl: CMP3(a, b))
TABLE['core::cmp::PartialOrd::partial_cmp'] = _cmpop(lambda a, b, fl: raw('fpcmp', a, b) if fl else SOME(CMP3(a, b)))


@model('core::cmp::Ord::max', 'core::cmp::max')
def m_max(self, e, fr, s, c, args, atys, dty, cond, where):
    a, b = args
    return ITE(LT(b, a), a, b)


@model('core::cmp::Ord::min', 'core::cmp::min')
def m_min(self, e, fr, s, c, args, atys, dty, cond, where):
    a, b = args
    return ITE(LT(b, a), b, a)


@model('core::cmp::Ord::clamp')
def m_clamp(self, e, fr, s, c, args, atys, dty, cond, where):
    x, lo, hi = args
    return ITE(LT(x, lo), lo, ITE(LT(hi, x), hi, x))


@model('core::clone::Clone::clone')
def m_clone(self, e, fr, s, c, args, atys, dty, cond, where):
    if c.get('rc', '').startswith('numeric'):
        return NotImplemented
    st = e.selfty(c)
    if st.startswith('alloc::') and not st.startswith('alloc::vec::Vec') and not st.startswith('alloc::boxed'):
        return NotImplemented
    return e.load(s, args[0])


@model('core::clone::impls::clone', 'core::iter::traits::collect::IntoIterator::into_iter')
def m_into_iter(self, e, fr, s, c, args, atys, dty, cond, where):
    if c.get('rc', '').startswith('numeric'):
        return NotImplemented
    st = e.selfty(c)
    a = args[0]
    if a.op == 'agg' and (a.a[0].startswith('it:') or a.a[0].startswith('core::ops::range::') or a.a[0].startswith('core::iter::')):
        return a
    ty = e.type_by_str(st)
    if st.startswith('&') and a.op in ('ref', 'sym', 'ite', 'phi', 'fin'):
        inner = peel(st)
        t = e.type_by_str(inner)
        if t is not None and (t['k'] in ('array', 'slice') or inner.startswith('alloc::vec::Vec')):
            return slice_iter(e, s, a, 'ref')
        return NotImplemented
    if ty is not None and (ty['k'] == 'array' or st.startswith('alloc::vec::Vec')):
        return AGG('it:seq', 0, a, mkint(0), LEN(a))
    if ty is not None and ty['k'] == 'adt' and ty['p'].startswith(('core::iter', 'core::ops::range', 'core::slice', 'core::array', 'alloc::vec')):
        return a
    return NotImplemented


def slice_iter(e, s, ptr, mode):
    return AGG('it:slice', 0, ptr, mkint(0), e.ptr_len(s, ptr))


# ------------------------------------------------------------------ iterator protocol
def it_next(self, e, fr, s, it, dty, cond, where, back=False):
    """-> (has, item, new iterator).  Effects of closures happen under `has`."""
    if it.op == 'ite':
        h1, x1, n1 = it_next(self, e, fr, s, it.a[1], dty, cond, where, back)
        h2, x2, n2 = it_next(self, e, fr, s, it.a[2], dty, cond, where, back)
        return ITE(it.a[0], h1, h2), ITE(it.a[0], x1, x2), ITE(it.a[0], n1, n2)
    if it.op != 'agg':
        raise Undecided('iterator ' + show(it, 3))
    k = it.a[0]
    fs = list(it.a[2:])
    one = mkint(1)
    if k == 'core::ops::range::Range':
        a, b = fs[0], fs[1]
        n = tyof(a) or tyof(b) or 'usize'
        has = LT(a, b)
        if back:
            nb = BIN('sub', n, b, mkint(1, n))
            return has, nb, AGG(k, 0, a, ITE(has, nb, b))
        return has, a, AGG(k, 0, ITE(has, BIN('add', n, a, mkint(1, n)), a), b)
    if k == 'core::ops::range::RangeInclusive':
        a, b, ex = fs[0], fs[1], fs[2]
        n = tyof(a) or tyof(b) or 'usize'
        has = AND(NOT(ex), LE(a, b))
        last = EQ(a, b)
        if back:
            return has, b, AGG(k, 0, a, ITE(AND(has, NOT(last)), BIN('sub', n, b, mkint(1, n)), b), OR(ex, AND(has, last)))
        return has, a, AGG(k, 0, ITE(AND(has, NOT(last)), BIN('add', n, a, mkint(1, n)), a), b, OR(ex, AND(has, last)))
    if k == 'core::ops::range::RangeFrom':
        n = tyof(fs[0]) or 'usize'
        return TRUE, fs[0], AGG(k, 0, BIN('add', n, fs[0], mkint(1, n)))
    if k in ('it:slice', 'it:seq'):
        p, i, j = fs
        has = LT(i, j)
        ix = BIN('sub', 'usize', j, one) if back else i
        item = e.extend(p, ('i', ix)) if k == 'it:slice' else SEL(p, ix)
        if back:
            return has, item, AGG(k, 0, p, i, ITE(has, ix, j))
        return has, item, AGG(k, 0, p, ITE(has, BIN('add', 'usize', i, one), i), j)
    if k == 'it:rev':
        h, x, n = it_next(self, e, fr, s, fs[0], dty, cond, where, not back)
        return h, x, AGG(k, 0, n)
    if k == 'it:enum':
        h, x, n = it_next(self, e, fr, s, fs[0], dty, cond, where, back)
        if back:
            ln = it_len(e, s, fs[0])
            return h, TUPLE(BIN('add', 'usize', fs[1], BIN('sub', 'usize', ln, one)), x), AGG(k, 0, n, fs[1])
        return h, TUPLE(fs[1], x), AGG(k, 0, n, ITE(h, BIN('add', 'usize', fs[1], one), fs[1]))
    if k == 'it:zip':
        if back:
            n = it_len(e, s, it)
            fs = [it_trim(e, s, x, n) for x in fs]
            h1, x1, n1 = it_next(self, e, fr, s, fs[0], dty, cond, where, True)
            h2, x2, n2 = it_next(self, e, fr, s, fs[1], dty, cond, where, True)
            return AND(h1, h2), TUPLE(x1, x2), AGG(k, 0, n1, n2)
        h1, x1, n1 = it_next(self, e, fr, s, fs[0], dty, cond, where)
        h2, x2, n2 = it_next(self, e, fr, s, fs[1], dty, cond, where)
        h = AND(h1, h2)
        return h, TUPLE(x1, x2), AGG(k, 0, ITE(h, n1, fs[0]), ITE(h, n2, fs[1]))
    if k == 'it:chunks' and not back:
        p, i, j, w, st, exact = fs
        left = BIN('sub', 'usize', j, i)
        h = NOT(LT(left, w)) if exact is TRUE else LT(i, j)
        n = w if exact is TRUE else ITE(LT(left, w), left, w)
        to = BIN('add', 'usize', i, n if st is w else st)
        return h, e.extend(p, ('sub', i, n)), AGG(k, 0, p, ITE(h, to, i), j, w, st, exact)
    if k == 'it:map':
        h, x, n = it_next(self, e, fr, s, fs[0], dty, cond, where, back)
        y = under(self, e, fr, s, h, lambda st: e.call_value(fr, st, fs[1], [x], dty, AND(cond, h), where))
        return h, y, AGG(k, 0, n, fs[1])
    if k == 'it:deref':
        h, x, n = it_next(self, e, fr, s, fs[0], dty, cond, where, back)
        return h, e.load(s, x), AGG(k, 0, n)
    if k == 'it:take':
        h, x, n = it_next(self, e, fr, s, fs[0], dty, cond, where, back)
        if back:
            raise Undecided('take back')
        lim = NE(fs[1], mkint(0))
        hh = AND(h, lim)
        return hh, x, AGG(k, 0, ITE(lim, n, fs[0]), ITE(hh, BIN('sub', 'usize', fs[1], one), fs[1]))
    if k == 'it:once':
        return fs[1], fs[0], AGG(k, 0, fs[0], FALSE)
    if k == 'it:repeat':
        return TRUE, fs[0], it
    if k == 'it:chain' and not any(x.op == 'agg' and x.a[0] == 'it:map' for x in subterms(it)):
        a, b = (fs[1], fs[0]) if back else (fs[0], fs[1])
        h1, x1, n1 = it_next(self, e, fr, s, a, dty, cond, where, back)
        h2, x2, n2 = it_next(self, e, fr, s, b, dty, cond, where, back)
        n2 = ITE(h1, b, n2)
        return OR(h1, h2), ITE(h1, x1, x2), AGG(k, 0, *((n2, n1) if back else (n1, n2)))
    raise Undecided('iterator ' + k)


def it_trim(e, s, it, n):
    """the iterator cut to its first n items (n at most its length)"""
    k = it.a[0] if it.op == 'agg' else None
    if k in ('it:slice', 'it:seq'):
        p, i, j = it.a[2:]
        m = BIN('add', 'usize', i, n)
        return it if m is j else AGG(k, 0, p, i, m)
    if k == 'core::ops::range::Range':
        a, b = it.a[2:]
        return AGG(k, 0, a, BIN('add', 'usize', a, n))
    if k in ('it:map', 'it:enum', 'it:deref'):
        return AGG(k, 0, it_trim(e, s, it.a[2], n), *it.a[3:])
    if k == 'it:zip':
        return AGG(k, 0, it_trim(e, s, it.a[2], n), it_trim(e, s, it.a[3], n))
    if k == 'it:rev':
        x = it.a[2]
        if x.a[0] in ('it:slice', 'it:seq'):
            p, i, j = x.a[2:]
            return AGG(k, 0, AGG(x.a[0], 0, p, BIN('sub', 'usize', j, n), j))
    raise Undecided('iterator trim')


def it_len(e, s, it):
    k = it.a[0] if it.op == 'agg' else None
    if k in ('it:slice', 'it:seq'):
        return BIN('sub', 'usize', it.a[4], it.a[3])
    if k == 'core::ops::range::Range':
        return ITE(LT(it.a[2], it.a[3]), BIN('sub', 'usize', it.a[3], it.a[2]), mkint(0))
    if k in ('it:rev', 'it:enum', 'it:map', 'it:deref'):
        return it_len(e, s, it.a[2])
    if k == 'it:zip':
        a, b = it_len(e, s, it.a[2]), it_len(e, s, it.a[3])
        return ITE(LT(b, a), b, a)
    if k == 'it:take':
        n = it.a[3]
        if it.a[2].op == 'agg' and it.a[2].a[0] == 'it:repeat':
            return n
        a = it_len(e, s, it.a[2])
        return ITE(LT(n, a), n, a)
    raise Undecided('iterator length')


def under(self, e, fr, s, c, f):
    """run f on a copy of the state and merge its effects under condition c"""
    if c is FALSE:
        return UNDEF
    st = State(dict(s.m))
    r = f(st)
    if r is None:
        return UNDEF
    s.m = e.merge_state(c, st, s).m if c is not TRUE else st.m
    return r


@model('core::iter::traits::iterator::Iterator::next')
def m_next(self, e, fr, s, c, args, atys, dty, cond, where):
    if c.get('rc', '').startswith('numeric'):
        return NotImplemented
    it = e.load(s, args[0])
    if not known_iter(it):
        return NotImplemented if 'inst' not in c else opaque_iter(e, c)
    h, x, n = it_next(self, e, fr, s, it, dty, cond, where)
    e.store(s, args[0], n)
    return ITE(h, SOME(x), NONE)


def opaque_iter(e, c):
    return NotImplemented


@model('core::iter::traits::double_ended::DoubleEndedIterator::next_back')
def m_next_back(self, e, fr, s, c, args, atys, dty, cond, where):
    it = e.load(s, args[0])
    if not known_iter(it):
        return NotImplemented
    h, x, n = it_next(self, e, fr, s, it, dty, cond, where, True)
    e.store(s, args[0], n)
    return ITE(h, SOME(x), NONE)


def known_iter(it):
    if it.op == 'ite':
        return known_iter(it.a[1]) and known_iter(it.a[2])
    return it.op == 'agg' and isinstance(it.a[0], str) and (it.a[0].startswith('it:') or it.a[0] in (
        'core::ops::range::Range', 'core::ops::range::RangeInclusive', 'core::ops::range::RangeFrom'))


def adapter(name, kind, extra=lambda self, e, s, args: []):
    def g(self, e, fr, s, c, args, atys, dty, cond, where):
        if not known_iter(args[0]):
            return NotImplemented
        return AGG(kind, 0, args[0], *extra(self, e, s, args))
    TABLE['core::iter::traits::iterator::Iterator::' + name] = g


def limited(it, n):
    """the first n items, as an iterator with two ends"""
    k = it.a[0] if it.op == 'agg' else None
    if k in ('it:slice', 'it:seq'):
        l = BIN('sub', 'usize', it.a[4], it.a[3])
        return AGG(k, 0, it.a[2], it.a[3], ITE(LT(n, l), BIN('add', 'usize', it.a[3], n), it.a[4]))
    if k == 'it:deref':
        x = limited(it.a[2], n)
        return None if x is None else AGG(k, 0, x)
    return None


def m_rev(self, e, fr, s, c, args, atys, dty, cond, where):
    it = args[0]
    if not known_iter(it):
        return NotImplemented
    if it.a[0] == 'it:take':
        it = limited(it.a[2], it.a[3]) or it
    return AGG('it:rev', 0, it)


TABLE['core::iter::traits::iterator::Iterator::rev'] = m_rev
adapter('enumerate', 'it:enum', lambda self, e, s, args: [mkint(0)])
adapter('map', 'it:map', lambda self, e, s, args: [args[1]])
adapter('copied', 'it:deref')
adapter('cloned', 'it:deref')
adapter('take', 'it:take', lambda self, e, s, args: [args[1]])
adapter('flatten', 'it:flat')
adapter('flat_map', 'it:flatmap', lambda self, e, s, args: [args[1]])


@model('core::iter::traits::iterator::Iterator::chain')
def m_chain(self, e, fr, s, c, args, atys, dty, cond, where):
    b = as_iter(e, s, args[1], atys[1] if len(atys) > 1 else None)
    if not known_iter(args[0]) or b is None:
        return NotImplemented
    return AGG('it:chain', 0, args[0], b)


def as_iter(e, s, b, ty=None):
    """the iterator of an IntoIterator value, where known"""
    if known_iter(b):
        return b
    if b.op == 'ref':
        return slice_iter(e, s, b, 'ref')
    t = e.prog.types[ty] if ty is not None else {'k': ''}
    if t['k'] == 'array' or t.get('s', '').startswith('alloc::vec::Vec<') or b.op == 'arr':
        return AGG('it:seq', 0, b, mkint(0), LEN(b))
    return None



@model('core::iter::traits::iterator::Iterator::skip')
def m_skip(self, e, fr, s, c, args, atys, dty, cond, where):
    it, n = args
    return do_skip(it, n)


def do_skip(it, n):
    if it.op == 'agg':
        k, fs = it.a[0], it.a[2:]
        if k in ('it:slice', 'it:seq'):
            ni = BIN('add', 'usize', fs[1], n)
            return AGG(k, 0, fs[0], ITE(LT(fs[2], ni), fs[2], ni), fs[2])
        if k == 'core::ops::range::Range':
            ni = BIN('add', 'usize', fs[0], n)
            return AGG(k, 0, ITE(LT(fs[1], ni), fs[1], ni), fs[1])
        if k == 'it:enum':
            return AGG(k, 0, do_skip(fs[0], n), BIN('add', 'usize', fs[1], n))
        if k in ('it:deref',):
            return AGG(k, 0, do_skip(fs[0], n))
        if k == 'it:zip':
            return AGG(k, 0, do_skip(fs[0], n), do_skip(fs[1], n))
    return NotImplemented


@model('core::iter::traits::iterator::Iterator::zip', 'core::iter::adapters::zip::zip')
def m_zip(self, e, fr, s, c, args, atys, dty, cond, where):
    b = args[1]
    if not known_iter(args[0]):
        return NotImplemented
    if not known_iter(b):
        t = e.prog.types[atys[1]] if len(atys) > 1 else {'k': ''}
        if b.op == 'ref':
            b = slice_iter(e, s, b, 'ref')
        elif t['k'] == 'array' or t.get('s', '').startswith('alloc::vec::Vec<'):
            b = AGG('it:seq', 0, b, mkint(0), LEN(b))
        else:
            return NotImplemented
    return AGG('it:zip', 0, args[0], b)


@model('core::iter::sources::once::once')
def m_once(self, e, fr, s, c, args, atys, dty, cond, where):
    return AGG('it:once', 0, args[0], TRUE)


@model('core::iter::sources::repeat::repeat')
def m_repeat(self, e, fr, s, c, args, atys, dty, cond, where):
    return AGG('it:repeat', 0, args[0])


@model('core::iter::sources::repeat_n::repeat_n')
def m_repeat_n(self, e, fr, s, c, args, atys, dty, cond, where):
    return AGG('it:take', 0, AGG('it:repeat', 0, args[0]), args[1])


@model('core::iter::traits::iterator::Iterator::by_ref')
def m_by_ref(self, e, fr, s, c, args, atys, dty, cond, where):
    return args[0]


@model('core::iter::traits::exact_size::ExactSizeIterator::len')
def m_xlen(self, e, fr, s, c, args, atys, dty, cond, where):
    it = e.load(s, args[0])
    if not known_iter(it):
        return NotImplemented
    return it_len(e, s, it)


# consumers: a synthetic loop over the iterator with an accumulator
def consume(self, e, fr, s, it, init, step, dty, cond, where, c):
    """step(st, acc, item) -> (acc', stop_cond, stop_value) ; returns (acc at end or stop value)"""
    if it.op == 'agg' and it.a[0] in ('it:flat', 'it:flatmap'):
        def outer(st, acc, x):
            if it.a[0] == 'it:flatmap':
                x = e.call_value(fr, st, it.a[3], [x], dty, cond, where)
                if x is None:
                    return None
            inner = as_iter(e, st, x)
            if inner is None and x.op in ('sel', 'sub', 'arr', 'fin', 'phi', 'push'):
                inner = AGG('it:seq', 0, x, mkint(0), LEN(x))
            if inner is None:
                raise Undecided('flatten of ' + x.op)

            def only(st2, acc2, y):
                r = step(st2, acc2, y)
                if r is not None and r[1] is not FALSE:
                    raise Undecided('early exit from flattened iteration')
                return r
            return consume(self, e, fr, st, inner, acc, only, dty, cond, where, dict(c, n=c['n'] + "'")), FALSE, UNDEF
        return consume(self, e, fr, s, it.a[2], init, outer, dty, cond, where, c)
    site = (e.cur_frame_id(), where.split('/')[-1], c['n'], str(len(e.stack)))
    rit, racc = ('syn', 'it') + site, ('syn', 'acc') + site
    s.m[rit] = it
    s.m[racc] = init
    lid = 'syn:' + '|'.join(site)

    def body(hst):
        itv = hst.m[rit]
        h, x, n = it_next(self, e, fr, hst, itv, dty, cond, where)
        done = State(dict(hst.m))
        ex = [('end', (NOT(h),), done)]
        st = State(dict(hst.m))
        st.m[rit] = n
        acc = st.m[racc]
        r = step(st, acc, x)
        if r is None:
            return [], ex
        acc2, stop, sv = r
        back = []
        if stop is not FALSE:
            es = State(dict(st.m))
            es.m[racc] = sv
            ex.append(('stop', (h, stop) if stop is not TRUE else (h,), es))
        if stop is not TRUE:
            st.m[racc] = acc2
            back.append(((h,) + (() if stop is FALSE else (NOT(stop),)), st))
        return back, ex
    ex = e.fix(lid, s, body, e.stack[-1].where() if e.stack else where)
    states = []
    n = len(ex)
    if n > 1:
        set_domain(raw('exitsel', lid), list(range(n)))
    for i, (to, ec, es) in enumerate(ex):
        states.append(((INSW(raw('exitsel', lid), [i], False),) if n > 1 else (), es))
    pc, ns = e.join(states, fr)
    v = ns.m.pop(racc)
    self.left = ns.m.pop(rit, None)
    s.m = ns.m
    return v


def consumer(name):
    def d(f):
        def g(self, e, fr, s, c, args, atys, dty, cond, where):
            if c.get('rc', '').startswith('numeric'):
                return NotImplemented
            it = args[0]
            byref = False
            if it.op == 'ref':
                it = e.load(s, it)
                byref = True
            if not known_iter(it):
                return NotImplemented
            self.left = None
            r = f(self, e, fr, s, it, args, dty, cond, where, c)
            if byref and r is not NotImplemented:
                # what has not been consumed stays in the iterator
                if self.left is None or it.a[0] in ('it:flat', 'it:flatmap'):
                    raise Undecided('rest of an iterator')
                e.store(s, args[0], self.left)
            return r
        TABLE['core::iter::traits::iterator::Iterator::' + name] = g
        return f
    return d


@consumer('fold')
def c_fold(self, e, fr, s, it, args, dty, cond, where, c):
    def step(st, acc, x):
        r = e.call_value(fr, st, args[2], [acc, x], dty, cond, where)
        return None if r is None else (r, FALSE, UNDEF)
    return consume(self, e, fr, s, it, args[1], step, dty, cond, where, c)


@consumer('for_each')
def c_for_each(self, e, fr, s, it, args, dty, cond, where, c):
    def step(st, acc, x):
        r = e.call_value(fr, st, args[1], [x], dty, cond, where)
        return None if r is None else (UNIT, FALSE, UNDEF)
    return consume(self, e, fr, s, it, UNIT, step, dty, cond, where, c)


@consumer('any')
def c_any(self, e, fr, s, it, args, dty, cond, where, c):
    def step(st, acc, x):
        r = e.call_value(fr, st, args[1], [x], dty, cond, where)
        return None if r is None else (FALSE, r, TRUE)
    return consume(self, e, fr, s, it, FALSE, step, dty, cond, where, c)


@consumer('all')
def c_all(self, e, fr, s, it, args, dty, cond, where, c):
    def step(st, acc, x):
        r = e.call_value(fr, st, args[1], [x], dty, cond, where)
        return None if r is None else (TRUE, NOT(r), FALSE)
    return consume(self, e, fr, s, it, TRUE, step, dty, cond, where, c)


@consumer('find')
def c_find(self, e, fr, s, it, args, dty, cond, where, c):
    def step(st, acc, x):
        root = ('syn', 'item', e.cur_frame_id(), where)
        st.m[root] = x
        r = e.call_value(fr, st, args[1], [raw('ref', root, ())], dty, cond, where)
        return None if r is None else (NONE, r, SOME(x))
    return consume(self, e, fr, s, it, NONE, step, dty, cond, where, c)


@consumer('find_map')
def c_find_map(self, e, fr, s, it, args, dty, cond, where, c):
    def step(st, acc, x):
        r = e.call_value(fr, st, args[1], [x], dty, cond, where)
        return None if r is None else (NONE, EQ(DISCR(r), mkint(1, 'isize')), r)
    return consume(self, e, fr, s, it, NONE, step, dty, cond, where, c)


def pos_consumer(name, back):
    def f(self, e, fr, s, it, args, dty, cond, where, c):
        it2 = AGG('it:enum', 0, it, mkint(0))
        if back:
            it2 = AGG('it:rev', 0, it2)

        def step(st, acc, x):
            i, v = x.a[2], x.a[3]
            r = e.call_value(fr, st, args[1], [v], dty, cond, where)
            return None if r is None else (NONE, r, SOME(i))
        return consume(self, e, fr, s, it2, NONE, step, dty, cond, where, c)
    consumer(name)(f)


pos_consumer('position', False)
pos_consumer('rposition', True)


@consumer('sum')
def c_sum(self, e, fr, s, it, args, dty, cond, where, c):
    n = e.scalar_name(dty)
    if n not in WIDTH:
        return NotImplemented

    def step(st, acc, x):
        x = self.val(e, st, x)
        return BIN('add', n, acc, x), FALSE, UNDEF
    return consume(self, e, fr, s, it, mkint(0, n), step, dty, cond, where, c)


@consumer('collect')
def c_collect(self, e, fr, s, it, args, dty, cond, where, c):
    t = e.prog.types[dty]
    if not t['s'].startswith('alloc::vec::Vec'):
        return NotImplemented

    def step(st, acc, x):
        return raw('push', acc, x), FALSE, UNDEF
    return consume(self, e, fr, s, it, raw('arr'), step, dty, cond, where, c)


def _lexi(name):
    def g(self, e, fr, s, it, args, dty, cond, where, c):
        b = as_iter(e, s, args[1])
        if b is None:
            return NotImplemented
        try:
            la, lb = it_len(e, s, it), it_len(e, s, b)
        except Undecided:
            return NotImplemented
        eq = AGG(ORDERING, 1)
        prims = '|'.join(sorted(WIDTH, key=len, reverse=True))
        over = re.search(r"\b(?:Iter|IterMut|IntoIter|Copied|Cloned)<[^<>]*?\b(%s)(?:, [^<>]*)?>" % prims, e.selfty(c) or '')

        def step(st, acc, x):
            p, q = (self.val(e, st, y) for y in x.a[2:])
            if not over and (tyof(p) not in WIDTH or tyof(q) not in WIDTH):
                raise Undecided('comparison of items')
            o = CMP3(p, q)
            return eq, NE(p, q), o
        v = consume(self, e, fr, s, AGG('it:zip', 0, it, b), eq, step, dty, cond, where, c)
        d = DISCR(v)
        same_ = EQ(d, DISCR(eq))
        if name in ('eq', 'ne'):
            t = AND(same_, EQ(la, lb))
            return t if name == 'eq' else NOT(t)
        o = ITE(same_, CMP3(la, lb), v)
        if name == 'cmp':
            return o
        if name == 'partial_cmp':
            return SOME(o)
        lt, gt = EQ(DISCR(o), DISCR(AGG(ORDERING, 0))), EQ(DISCR(o), DISCR(AGG(ORDERING, 2)))
        return {'lt': lt, 'gt': gt, 'le': NOT(gt), 'ge': NOT(lt)}[name]
    consumer(name)(g)


for n_ in ('cmp', 'partial_cmp', 'eq', 'ne', 'lt', 'le', 'gt', 'ge'):
    _lexi(n_)


@consumer('count')
def c_count(self, e, fr, s, it, args, dty, cond, where, c):
    return it_len(e, s, it)


# ------------------------------------------------------------------ slices, arrays, Vec
@pattern(r'^core::slice::<impl \[T\]>::(len|is_empty)$|^alloc::vec::Vec::<T, A>::(len|is_empty)$')
def m_len(self, e, fr, s, c, args, atys, dty, cond, where):
    l = e.ptr_len(s, args[0])
    return l if c['n'] == 'len' else EQ(l, mkint(0))


@pattern(r'^core::slice::<impl \[T\]>::(iter|iter_mut)$')
def m_iter(self, e, fr, s, c, args, atys, dty, cond, where):
    return slice_iter(e, s, args[0], c['n'])


@pattern(r'^core::slice::<impl \[T\]>::(chunks|chunks_mut|chunks_exact|chunks_exact_mut|windows)$')
def m_chunks(self, e, fr, s, c, args, atys, dty, cond, where):
    p, w = args
    e.res.panics.append((AND(cond, EQ(w, mkint(0))), 'chunk size', where))
    exact = TRUE if c['n'] not in ('chunks', 'chunks_mut') else FALSE
    return AGG('it:chunks', 0, p, mkint(0), e.ptr_len(s, p), w, mkint(1) if c['n'] == 'windows' else w, exact)


@pattern(r'^core::slice::<impl \[T\]>::(get|get_mut)$')
def m_get(self, e, fr, s, c, args, atys, dty, cond, where):
    ix = args[1]
    if ix.op == 'agg':
        st, n, ok = slice_range(e, s, args[0], ix)
        return ITE(ok, SOME(e.extend(args[0], ('sub', st, n))), NONE)
    return ITE(LT(ix, e.ptr_len(s, args[0])), SOME(e.extend(args[0], ('i', ix))), NONE)


@pattern(r'^core::slice::<impl \[T\]>::(get_unchecked|get_unchecked_mut)$')
def m_get_unchecked(self, e, fr, s, c, args, atys, dty, cond, where):
    ix = args[1]
    l = e.ptr_len(s, args[0])
    if ix.op == 'agg':
        st, n, ok = slice_range(e, s, args[0], ix)
        e.res.unsafe_ops.append((AND(cond, NOT(ok)), 'get_unchecked', where))
        return e.extend(args[0], ('sub', st, n))
    e.res.unsafe_ops.append((AND(cond, NOT(LT(ix, l))), 'get_unchecked', where))
    return e.extend(args[0], ('i', ix))


@pattern(r'^core::slice::<impl \[T\]>::(first|last|first_mut|last_mut)$')
def m_first(self, e, fr, s, c, args, atys, dty, cond, where):
    l = e.ptr_len(s, args[0])
    ix = mkint(0) if c['n'].startswith('first') else BIN('sub', 'usize', l, mkint(1))
    return ITE(EQ(l, mkint(0)), NONE, SOME(e.extend(args[0], ('i', ix))))


@pattern(r'^core::slice::<impl \[T\]>::swap$')
def m_slice_swap(self, e, fr, s, c, args, atys, dty, cond, where):
    p, i, j = args
    pi, pj = e.extend(p, ('i', i)), e.extend(p, ('i', j))
    x, y = e.load(s, pi), e.load(s, pj)
    l = e.ptr_len(s, p)
    e.res.panics.append((AND(cond, NOT(AND(LT(i, l), LT(j, l)))), 'bounds', where))
    e.store(s, pi, y)
    e.store(s, pj, x)
    return UNIT


@pattern(r'^core::slice::<impl \[T\]>::swap_with_slice$')
def m_swap_slice(self, e, fr, s, c, args, atys, dty, cond, where):
    x, y = e.load(s, args[0]), e.load(s, args[1])
    e.res.panics.append((AND(cond, NE(LEN(x), LEN(y))), 'bounds', where))
    e.store(s, args[0], y)
    e.store(s, args[1], x)
    return UNIT


@pattern(r'^core::slice::<impl \[T\]>::split_at(_mut)?$')
def m_split_at(self, e, fr, s, c, args, atys, dty, cond, where):
    p, m = args
    l = e.ptr_len(s, p)
    e.res.panics.append((AND(cond, LT(l, m)), 'bounds', where))
    return TUPLE(e.extend(p, ('sub', mkint(0), m)), e.extend(p, ('sub', m, BIN('sub', 'usize', l, m))))


@pattern(r'^core::slice::<impl \[T\]>::(as_ptr|as_mut_ptr)$|^alloc::vec::Vec::<T, A>::(as_ptr|as_mut_ptr)$')
def m_as_ptr(self, e, fr, s, c, args, atys, dty, cond, where):
    return e.extend(args[0], ('i', mkint(0)))


@pattern(r'^core::slice::<impl \[T\]>::(fill)$')
def m_fill(self, e, fr, s, c, args, atys, dty, cond, where):
    v = e.load(s, args[0])
    e.store(s, args[0], raw('rep', args[1], LEN(v)))
    return UNIT


@pattern(r'^alloc::slice::<impl \[T\]>::(to_vec)$|^<\[T\] as alloc::borrow::ToOwned>::to_owned$|^alloc::slice::<impl alloc::borrow::ToOwned for \[T\]>::to_owned$')
def m_to_vec(self, e, fr, s, c, args, atys, dty, cond, where):
    return e.load(s, args[0])


@pattern(r'^core::slice::<impl \[T\]>::(copy_from_slice|clone_from_slice)$')
def m_copy_from(self, e, fr, s, c, args, atys, dty, cond, where):
    a, b = e.load(s, args[0]), e.load(s, args[1])
    e.res.panics.append((AND(cond, NE(LEN(a), LEN(b))), 'bounds', where))
    e.store(s, args[0], b)
    return UNIT


@pattern(r'^core::slice::<impl \[T\]>::copy_within$')
def m_copy_within(self, e, fr, s, c, args, atys, dty, cond, where):
    p, r, d = args
    if r.op != 'agg':
        return NotImplemented
    v = e.load(s, p)
    st, n, ok = slice_range(e, s, p, r)
    l = LEN(v)
    e.res.panics.append((AND(cond, NOT(AND(ok, LE(d, BIN('sub', 'usize', l, n))))), 'bounds', where))
    e.store(s, e.extend(p, ('sub', d, n)), e.mksub(v, st, n))
    return UNIT


def permuted(self, e, fr, s, p, f, dty, cond, where, c):
    """element x of the slice becomes the old element f(x)"""
    v = e.load(s, p)
    n = LEN(v)

    def step(st, acc, x):
        return UPD(acc, x, SEL(v, f(x, n))), FALSE, UNDEF
    e.store(s, p, consume(self, e, fr, s, AGG('core::ops::range::Range', 0, mkint(0), n), raw('uninit', n), step, dty, cond, where, c))
    return UNIT


@pattern(r'^core::slice::<impl \[T\]>::reverse$')
def m_reverse(self, e, fr, s, c, args, atys, dty, cond, where):
    return permuted(self, e, fr, s, args[0], lambda x, n: BIN('sub', 'usize', BIN('sub', 'usize', n, x), mkint(1)), dty, cond, where, c)


@pattern(r'^core::slice::<impl \[T\]>::rotate_(left|right)$')
def m_rotate(self, e, fr, s, c, args, atys, dty, cond, where):
    k = args[1]
    l = e.ptr_len(s, args[0])
    e.res.panics.append((AND(cond, LT(l, k)), 'bounds', where))
    if c['n'] == 'rotate_right':
        k = BIN('sub', 'usize', l, k)

    def f(x, n):
        y = BIN('add', 'usize', x, k)
        return ITE(LT(y, n), y, BIN('sub', 'usize', y, n))
    return permuted(self, e, fr, s, args[0], f, dty, cond, where, c)


@pattern(r'^core::slice::<impl \[T\]>::split_(first|last)(_mut)?$')
def m_split_end(self, e, fr, s, c, args, atys, dty, cond, where):
    p = args[0]
    l = e.ptr_len(s, p)
    n1 = BIN('sub', 'usize', l, mkint(1))
    first = 'first' in c['n']
    one = e.extend(p, ('i', mkint(0) if first else n1))
    rest = e.extend(p, ('sub', mkint(1) if first else mkint(0), n1))
    return ITE(EQ(l, mkint(0)), NONE, SOME(TUPLE(one, rest)))


@pattern(r'^alloc::vec::Vec::<T, A>::extend_from_slice$')
def m_extend_slice(self, e, fr, s, c, args, atys, dty, cond, where):
    v, w = e.load(s, args[0]), e.load(s, args[1])
    if v.op == 'arr' and not v.a:
        e.store(s, args[0], w)
        return UNIT

    def step(st, acc, x):
        return raw('push', acc, SEL(w, x)), FALSE, UNDEF
    e.store(s, args[0], consume(self, e, fr, s, AGG('core::ops::range::Range', 0, mkint(0), LEN(w)), v, step, dty, cond, where, c))
    return UNIT


@model('core::iter::traits::collect::Extend::extend')
def m_extend(self, e, fr, s, c, args, atys, dty, cond, where):
    if not peel(e.selfty(c)).startswith('alloc::vec::Vec'):
        return NotImplemented
    it = args[1]
    if not known_iter(it):
        if it.op == 'ref':
            w = e.load(s, it)
        else:
            w = it
        t = e.prog.types[atys[1]] if len(atys) > 1 else None
        if t is None or not (t['k'] == 'array' or t['s'].startswith('alloc::vec::Vec') or it.op == 'ref'):
            return NotImplemented
        it = AGG('it:seq', 0, w, mkint(0), LEN(w))
    v = e.load(s, args[0])

    def step(st, acc, x):
        return raw('push', acc, self.val(e, st, x)), FALSE, UNDEF
    e.store(s, args[0], consume(self, e, fr, s, it, v, step, dty, cond, where, c))
    return UNIT


@model('alloc::vec::Vec::<T, A>::insert')
def m_insert(self, e, fr, s, c, args, atys, dty, cond, where):
    p, i, x = args
    v = e.load(s, p)
    l = LEN(v)
    e.res.panics.append((AND(cond, LT(l, i)), 'bounds', where))
    n = BIN('sub', 'usize', l, i)
    e.store(s, p, UPD(raw('updsub', raw('push', v, x), BIN('add', 'usize', i, mkint(1)), n, e.mksub(v, i, n)), i, x))
    return UNIT


@model('alloc::vec::Vec::<T, A>::pop')
def m_pop(self, e, fr, s, c, args, atys, dty, cond, where):
    v = e.load(s, args[0])
    if v.op == 'push':
        e.store(s, args[0], v.a[0])
        return SOME(v.a[1])
    l = LEN(v)
    n1 = BIN('sub', 'usize', l, mkint(1))
    empty = EQ(l, mkint(0))
    e.store(s, args[0], ITE(empty, v, e.mksub(v, mkint(0), n1)))
    return ITE(empty, NONE, SOME(SEL(v, n1)))


def slice_range(e, s, p, r):
    l = e.ptr_len(s, p)
    k = r.a[0].split('::')[-1]
    z = mkint(0)
    if k == 'Range':
        a, b = r.a[2], r.a[3]
        return a, BIN('sub', 'usize', b, a), AND(LE(a, b), LE(b, l))
    if k == 'RangeFrom':
        a = r.a[2]
        return a, BIN('sub', 'usize', l, a), LE(a, l)
    if k == 'RangeTo':
        return z, r.a[2], LE(r.a[2], l)
    if k == 'RangeFull':
        return z, l, TRUE
    if k == 'RangeInclusive':
        a, b = r.a[2], BIN('add', 'usize', r.a[3], mkint(1))
        return a, BIN('sub', 'usize', b, a), AND(LE(a, b), LE(b, l))
    if k == 'RangeToInclusive':
        b = BIN('add', 'usize', r.a[2], mkint(1))
        return z, b, LE(b, l)
    raise Undecided('slice index ' + k)


@model('core::ops::index::Index::index', 'core::ops::index::IndexMut::index_mut')
def m_index(self, e, fr, s, c, args, atys, dty, cond, where):
    if c.get('rc', '').startswith('numeric'):
        return NotImplemented
    st = peel(e.selfty(c))
    t = e.type_by_str(st)
    if t is None or not (t['k'] in ('array', 'slice') or st.startswith('alloc::vec::Vec')):
        return NotImplemented
    p, ix = args
    if ix.op == 'agg':
        a, n, ok = slice_range(e, s, p, ix)
        if ok is not TRUE:
            e.res.panics.append((AND(cond, NOT(ok)), 'bounds', where))
        return e.extend(p, ('sub', a, n))
    if tyof(ix) == 'usize' or ix.op in ('sym', 'fld', 'tcall', 'phi', 'fin', 'call'):
        ok = LT(ix, e.ptr_len(s, p))
        if ok is not TRUE:
            e.res.panics.append((AND(cond, NOT(ok)), 'bounds', where))
        return e.extend(p, ('i', ix))
    return NotImplemented


@model('core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut', 'core::borrow::Borrow::borrow',
       'core::borrow::BorrowMut::borrow_mut', 'core::convert::AsRef::as_ref', 'core::convert::AsMut::as_mut')
def m_deref(self, e, fr, s, c, args, atys, dty, cond, where):
    if c.get('rc', '').startswith('numeric'):
        return NotImplemented
    st = peel(e.selfty(c))
    t = e.type_by_str(st)
    if st.startswith('alloc::vec::Vec') or (t and t['k'] in ('array', 'slice')):
        return args[0]
    return NotImplemented


@pattern(r'^alloc::vec::Vec::<T, A>::(as_slice|as_mut_slice)$|^core::array::<impl \[T; N\]>::(as_slice|as_mut_slice)$')
def m_as_slice(self, e, fr, s, c, args, atys, dty, cond, where):
    return args[0]


@model('alloc::vec::Vec::<T>::new', 'alloc::vec::Vec::<T>::with_capacity')
def m_vec_new(self, e, fr, s, c, args, atys, dty, cond, where):
    return raw('arr')


@model('alloc::vec::from_elem')
def m_from_elem(self, e, fr, s, c, args, atys, dty, cond, where):
    return raw('rep', args[0], args[1])


@model('alloc::vec::Vec::<T, A>::push')
def m_push(self, e, fr, s, c, args, atys, dty, cond, where):
    v = e.load(s, args[0])
    if v.op == 'arr':
        e.store(s, args[0], raw('arr', *(v.a + (args[1],))))
    else:
        e.store(s, args[0], raw('push', v, args[1]))
    return UNIT


@model('alloc::vec::Vec::<T, A>::resize')
def m_resize(self, e, fr, s, c, args, atys, dty, cond, where):
    v = e.load(s, args[0])
    e.store(s, args[0], raw('resize', v, args[1], args[2]))
    return UNIT


@model('alloc::vec::Vec::<T, A>::truncate')
def m_truncate(self, e, fr, s, c, args, atys, dty, cond, where):
    v = e.load(s, args[0])
    l = LEN(v)
    e.store(s, args[0], ITE(LT(args[1], l), e.mksub(v, mkint(0), args[1]), v))
    return UNIT


@model('alloc::vec::Vec::<T, A>::clear')
def m_clear(self, e, fr, s, c, args, atys, dty, cond, where):
    e.store(s, args[0], raw('arr'))
    return UNIT


@model('alloc::vec::Vec::<T, A>::drain')
def m_drain(self, e, fr, s, c, args, atys, dty, cond, where):
    v = e.load(s, args[0])
    r = args[1]
    if r.op == 'agg' and r.a[0].endswith('RangeFrom'):
        l = LEN(v)
        ok = LE(r.a[2], l)
        if ok is not TRUE:
            e.res.panics.append((AND(cond, NOT(ok)), 'bounds', where))
        e.store(s, args[0], e.mksub(v, mkint(0), r.a[2]))
        return AGG('it:seq', 0, v, r.a[2], l)
    return NotImplemented


@model('core::mem::swap')
def m_swap(self, e, fr, s, c, args, atys, dty, cond, where):
    x, y = e.load(s, args[0]), e.load(s, args[1])
    e.store(s, args[0], y)
    e.store(s, args[1], x)
    return UNIT


@model('core::mem::replace')
def m_replace(self, e, fr, s, c, args, atys, dty, cond, where):
    x = e.load(s, args[0])
    e.store(s, args[0], args[1])
    return x


@model('core::mem::take')
def m_take(self, e, fr, s, c, args, atys, dty, cond, where):
    t = e.prog.types[dty]
    x = e.load(s, args[0])
    if t['s'].startswith('alloc::vec::Vec'):
        e.store(s, args[0], raw('arr'))
        return x
    return NotImplemented


@model('core::mem::forget', 'core::mem::drop')
def m_forget(self, e, fr, s, c, args, atys, dty, cond, where):
    return UNIT


@model('core::mem::size_of')
def m_size_of(self, e, fr, s, c, args, atys, dty, cond, where):
    t = e.prog.types[c['a'][0]]
    n = e.scalar_name(c['a'][0])
    if n in WIDTH:
        return mkint(WIDTH[n] // 8)
    if n == 'bool':
        return mkint(1)
    return raw('tcall', 'usize', raw('call', 'core::mem::size_of', raw('targs', t['s'])))


@model('core::array::from_fn')
def m_from_fn(self, e, fr, s, c, args, atys, dty, cond, where):
    t = e.prog.types[dty]
    n = e.cst(t['n'])
    it = AGG('core::ops::range::Range', 0, mkint(0), n)

    def step(st, acc, x):
        r = e.call_value(fr, st, args[0], [x], dty, cond, where)
        return None if r is None else (UPD(acc, x, r), FALSE, UNDEF)
    init = raw('uninit', n)
    return consume(self, e, fr, s, it, init, step, dty, cond, where, c)


@pattern(r'^core::array::<impl \[T; N\]>::map$')
def m_array_map(self, e, fr, s, c, args, atys, dty, cond, where):
    v = args[0]
    n = LEN(v)
    t = e.prog.types[atys[0]]
    if t['k'] == 'array':
        n = e.cst(t['n'])
    it = AGG('core::ops::range::Range', 0, mkint(0), n)

    def step(st, acc, x):
        r = e.call_value(fr, st, args[1], [SEL(v, x)], dty, cond, where)
        return None if r is None else (UPD(acc, x, r), FALSE, UNDEF)
    return consume(self, e, fr, s, it, raw('uninit', n), step, dty, cond, where, c)


@pattern(r'^core::array::<impl \[T; N\]>::each_(mut|ref)$')
def m_each(self, e, fr, s, c, args, atys, dty, cond, where):
    return raw('eachref', args[0], e.ptr_len(s, args[0]))


@model('core::mem::transmute_copy')
def m_transmute_copy(self, e, fr, s, c, args, atys, dty, cond, where):
    from .engine import plain
    src = e.prog.types[atys[0]]
    f = e.prog.types[src['e']]['s'] if 'e' in src else None
    t = e.prog.types[dty]['s']
    if f and plain(f) == plain(t):
        return e.load(s, args[0])
    return NotImplemented


@pattern(r'^core::mem::maybe_uninit::MaybeUninit::<T>::(new|assume_init|uninit|write|assume_init_ref|assume_init_mut|assume_init_read|as_ptr|as_mut_ptr)$')
def m_mu(self, e, fr, s, c, args, atys, dty, cond, where):
    n = c['n']
    if n in ('new', 'assume_init'):
        return args[0]
    if n == 'uninit':
        return raw('uninitv')
    if n == 'write':
        e.store(s, args[0], args[1])
        return args[0]
    if n == 'assume_init_read':
        return e.load(s, args[0])
    return args[0]


@model('core::hint::unreachable_unchecked')
def m_unreach(self, e, fr, s, c, args, atys, dty, cond, where):
    e.res.unsafe_ops.append((cond, 'unreachable_unchecked', where))
    return None


@model('core::hint::black_box')
def m_bb(self, e, fr, s, c, args, atys, dty, cond, where):
    return args[0]


@model('core::intrinsics::cold_path', 'core::intrinsics::assume')
def m_nop(self, e, fr, s, c, args, atys, dty, cond, where):
    return UNIT


@model('core::intrinsics::likely', 'core::intrinsics::unlikely')
def m_id(self, e, fr, s, c, args, atys, dty, cond, where):
    return args[0]


@model('core::intrinsics::three_way_compare')
def m_3way(self, e, fr, s, c, args, atys, dty, cond, where):
    return CMP3(args[0], args[1])


@model('core::intrinsics::discriminant_value')
def m_dv(self, e, fr, s, c, args, atys, dty, cond, where):
    d = DISCR(e.load(s, args[0]))
    t = e.type_by_str(peel(e.prog.types[atys[0]]['s']))
    if t and t['k'] == 'adt' and d.op == 'discr':
        ad = ADTS.get(t['p'])
        if ad and ad['kind'] == 'enum':
            set_domain(d, [variant_discr(t['p'], i).a[0] for i in range(len(ad['v']))])
    return d


# ------------------------------------------------------------------ abstract number traits
GEN1 = {
    'numeric_traits::identity::Zero::zero': 'zero', 'numeric_traits::identity::One::one': 'one',
    'numeric_traits::class::Bounded::max_value': 'max', 'numeric_traits::class::Bounded::min_value': 'min',
}


def _gen_const(nm):
    def g(self, e, fr, s, c, args, atys, dty, cond, where):
        if c.get('rc', '').startswith('numeric') and 'inst' in c:
            return NotImplemented
        return raw('tconst', nm, e.selfty(c))
    return g


for _k, _v in GEN1.items():
    TABLE[_k] = _gen_const(_v)


def _gen_ovf(op):
    def g(self, e, fr, s, c, args, atys, dty, cond, where):
        if c.get('rc', '').startswith('numeric') and 'inst' in c:
            return NotImplemented
        a, b = self.val(e, s, args[0]), self.val(e, s, args[1])
        x, y = a, b
        if op in ('add', 'mul') and y.id < x.id:
            x, y = y, x
        return TUPLE(TOP('w' + op, x, y), raw('tovf', op, x, y))
    return g


for _op in ('add', 'sub', 'mul'):
    TABLE['numeric_traits::ops::overflowing::Overflowing%s::overflowing_%s' % (_op.capitalize(), _op)] = _gen_ovf(_op)


@model('numeric_traits::identity::Zero::is_zero')
def m_is_zero(self, e, fr, s, c, args, atys, dty, cond, where):
    if c.get('rc', '').startswith('numeric') and 'inst' in c:
        return NotImplemented
    return EQ(self.val(e, s, args[0]), raw('tconst', 'zero', peel(e.selfty(c))))


@model('numeric_traits::identity::One::is_one')
def m_is_one(self, e, fr, s, c, args, atys, dty, cond, where):
    if c.get('rc', '').startswith('numeric') and 'inst' in c:
        return NotImplemented
    return EQ(self.val(e, s, args[0]), raw('tconst', 'one', peel(e.selfty(c))))


# ------------------------------------------------------------------ NonZero and floats
NZ = re.compile(r'^core::num::nonzero::NonZero::<(\w+)>::(\w+)$')


def nz_ty(sig):
    m = re.search(r'NonZero<(\w+)>', sig) or re.match(r'^(\w+)$', sig)
    return m.group(1) if m and m.group(1) in WIDTH else None


def nz_get(x, n):
    if x.op == 'scalar':
        return mkint(x.a[0], n)
    if x.op == 'agg' and x.a[0] == 'nz':
        return x.a[2]
    if x.op == 'ite':
        return ITE(x.a[0], nz_get(x.a[1], n), nz_get(x.a[2], n))
    if x.op == 'sym':
        return sym(x.a[0] + '.get', n)
    return raw('tcall', n, raw('nzget', x))


@pattern(r'^core::num::nonzero::NonZero::<\w+>::\w+$')
def m_nz(self, e, fr, s, c, args, atys, dty, cond, where):
    m = NZ.match(c.get('rp') or c['p']) or NZ.match(c['p'])
    n, f = m.group(1), m.group(2)
    if n == 'T':
        n = nz_ty(e.selfty(c))
        if n is None:
            return NotImplemented
    if f == 'new_unchecked':
        return AGG('nz', 0, args[0])
    if f == 'new':
        return ITE(EQ(args[0], mkint(0, n)), NONE, SOME(AGG('nz', 0, args[0])))
    a = nz_get(self.val(e, s, args[0]), n) if args else None
    if f == 'get':
        return a
    r = self.int_method(e, s, n, f, [a] + list(args[1:]), cond, where)
    if r is NotImplemented:
        return r
    ty = e.prog.types[dty]
    if ty['k'] == 'adt' and ty['p'].endswith('NonZero'):
        return AGG('nz', 0, r)
    return r


@pattern(r'^<core::num::nonzero::NonZero<\w+> as core::ops::arith::Neg>::neg$')
def m_nzneg(self, e, fr, s, c, args, atys, dty, cond, where):
    n = nz_ty(e.selfty(c))
    a = nz_get(self.val(e, s, args[0]), n)
    e.res.panics.append((AND(cond, EQ(a, mkint(irange(n)[0], n))), 'overflow:Neg', where))
    return AGG('nz', 0, NEG(n, a))


FLOATM = re.compile(r'^(?:std|core)::f(?:32|64)::(?:math::)?<impl (f32|f64)>::(\w+)$')


@pattern(r'^(?:std|core)::f(?:32|64)::(?:math::)?<impl f(32|64)>::\w+$')
def m_float(self, e, fr, s, c, args, atys, dty, cond, where):
    m = FLOATM.match(c.get('rp') or c['p'])
    n, f = m.groups()
    vs = [self.val(e, s, a) for a in args]
    if f in ('to_le_bytes', 'to_ne_bytes', 'to_be_bytes'):
        return raw('bytes', 'be' if f == 'to_be_bytes' else 'le', n, vs[0])
    if f in ('from_le_bytes', 'from_ne_bytes', 'from_be_bytes'):
        return raw('unbytes', 'be' if f == 'from_be_bytes' else 'le', n, vs[0])
    if f == 'recip':
        return raw('fdiv', n, raw('float', 0x3ff0000000000000 if n == 'f64' else 0x3f800000, n), vs[0])
    return raw('fop', f, n, *vs)
