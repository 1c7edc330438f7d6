"""Hash-consed terms: the value-number domain of the analysis.

A term is an immutable node (op, args); two occurrences of the same value number are the same
object.  Smart constructors fold constants and apply local identities, so the graph produced for a
function body is a gated value-flow graph in a lightly normalised form."""
import sys
sys.setrecursionlimit(200000)

_tab = {}
_n = [0]


class T:
    __slots__ = ('op', 'a', 'id', 'h', 'memo')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __lt__(self, o):
        return self.id < o.id


def raw(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.h = hash(k)
        _n[0] += 1
        t.id = _n[0]
        t.memo = None
        _tab[k] = t
    return t


def show(t, d=12):
    if not isinstance(t, T):
        return str(t)
    if d <= 0:
        return '…'
    o, a = t.op, t.a
    if o == 'int':
        return '%d' % a[0] if a[1] in ('usize', 'i32') else '%d_%s' % (a[0], a[1])
    if o == 'bool':
        return 'true' if a[0] else 'false'
    if o == 'sym':
        return a[0]
    if o == 'phi':
        return 'phi[%s]' % a[1]
    if o == 'fin':
        return 'fin[%s#%s]' % (a[1], str(a[0])[-12:])
    if o == 'undef':
        return 'undef'
    if o == 'agg':
        nm = str(a[0]).split('::')[-1]
        return '%s.%d{%s}' % (nm, a[1], ', '.join(show(x, d - 1) for x in a[2:]))
    if o == 'ite':
        return 'if(%s){%s}else{%s}' % tuple(show(x, d - 1) for x in a)
    if o == 'call':
        return '%s(%s)' % (a[0].split('::')[-1] if '<' not in a[0] else a[0], ', '.join(show(x, d - 1) for x in a[1:]))
    if o == 'ref':
        return '&%s' % show_ptr(a[0], a[1])
    return '%s(%s)' % (o, ', '.join(show(x, d - 1) for x in a))


def show_ptr(root, path):
    s = str(root) if not isinstance(root, tuple) else '.'.join(show(x, 4) if isinstance(x, T) else str(x)[-18:] for x in root)
    for p in path:
        s += '.' + '/'.join(show(x, 4) if isinstance(x, T) else str(x) for x in p)
    return s


TRUE = raw('bool', True)
FALSE = raw('bool', False)
UNDEF = raw('undef')
UNIT = raw('agg', 'tuple', 0)

WIDTH = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64,
         'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64, 'char': 32}


def is_int_ty(n):
    return n in WIDTH


def signed(n):
    return n[0] == 'i'


def irange(n):
    w = WIDTH[n]
    if signed(n):
        return -(1 << (w - 1)), (1 << (w - 1)) - 1
    return 0, (1 << w) - 1


def wrap(v, n):
    w = WIDTH[n]
    v &= (1 << w) - 1
    if signed(n) and v >> (w - 1):
        v -= 1 << w
    return v


def mkint(v, n='usize'):
    return raw('int', wrap(v, n), n)


def mkbool(b):
    return TRUE if b else FALSE


def sym(name, ty=None):
    return raw('sym', name, ty)


def isint(t):
    return t.op == 'int'


def isconst(t):
    return t.op in ('int', 'bool', 'str')


def tyof(t):
    """best-effort scalar type of a term: an int type name, 'bool', or None"""
    o = t.op
    if o == 'int':
        return t.a[1]
    if o == 'bool' or o in ('not', 'and', 'or', 'eq', 'lt', 'insw', 'addovf', 'subovf', 'mulovf', 'feq', 'flt', 'fle', 'xorb', 'forall'):
        return 'bool'
    if o in ('add', 'sub', 'mul', 'div', 'rem', 'band', 'bor', 'bxor', 'shl', 'shr', 'neg', 'bnot'):
        return t.a[0]
    if o == 'cast':
        return t.a[1]
    if o == 'tcall':
        return t.a[0]
    if o == 'iop':
        return t.a[1]
    if o == 'const':
        return t.a[2] if t.a[2] in WIDTH or t.a[2] == 'bool' else None
    if o == 'sym':
        return t.a[1] if isinstance(t.a[1], str) else None
    if o == 'len':
        return 'usize'
    if o in ('phi', 'fin'):
        return t.a[2]
    if o == 'ite':
        return tyof(t.a[1]) or tyof(t.a[2])
    if o == 'sel':
        return elemty(t.a[0])
    return None


_ELEM = __import__("re").compile(r"^(?:&(?:'\w+ )?(?:mut )?)?(?:alloc::vec::Vec<|alloc::boxed::Box<)?\[?(\w+)(?:; [^\]]*)?[\]>,]")


def elemty(t):
    """element type of a sequence term, where it is a scalar"""
    o = t.op
    if o in ('upd', 'sub', 'updsub'):
        return elemty(t.a[0])
    if o == 'opout':
        return elemty(t.a[2 + t.a[1]])
    if o == 'rep':
        return tyof(t.a[0])
    if o == 'arr':
        return tyof(t.a[0]) if t.a else None
    if o == 'ite':
        return elemty(t.a[1]) or elemty(t.a[2])
    s = t.a[1] if o == 'sym' else t.a[2] if o in ('phi', 'fin') else None
    if isinstance(s, str):
        m = _ELEM.match(s)
        if m and (m.group(1) in WIDTH or m.group(1) == 'bool'):
            return m.group(1)
    return None


# ---------------------------------------------------------------- booleans
def NOT(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a is UNDEF:
        return UNDEF
    if a.op == 'not':
        return a.a[0]
    if a.op == 'insw':
        return raw('insw', a.a[0], a.a[1], not a.a[2])
    if a.op == 'ite':
        return ITE(a.a[0], NOT(a.a[1]), NOT(a.a[2]))
    return raw('not', a)


def AND(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == 'and':
            for y in x.a:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    for x in out:
        if NOT(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return raw('and', *sorted(out, key=lambda t: t.id))


def OR(*xs):
    out = []
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        if x.op == 'or':
            for y in x.a:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    for x in out:
        if NOT(x) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    # or of insw over the same scrutinee
    sw = [x for x in out if x.op == 'insw']
    if len(sw) == len(out) and len({x.a[0] for x in sw}) == 1:
        d = sw[0].a[0]
        pos, negs = set(), None
        for x in sw:
            if x.a[2]:
                negs = set(x.a[1]) if negs is None else negs & set(x.a[1])
            else:
                pos |= set(x.a[1])
        if negs is None:
            return INSW(d, pos, False)
        return INSW(d, negs - pos, True)
    return raw('or', *sorted(out, key=lambda t: t.id))


def INSW(d, vals, neg):
    vals = tuple(sorted(vals))
    if not vals:
        return TRUE if neg else FALSE
    if isint(d):
        return mkbool((d.a[0] in vals) != neg)
    if d.op == 'ite':
        return ITE(d.a[0], INSW(d.a[1], vals, neg), INSW(d.a[2], vals, neg))
    if d is UNDEF:
        return UNDEF
    dom = discr_domain(d)
    if dom is not None:
        inside = [v for v in dom if v in vals]
        if not inside:
            return TRUE if neg else FALSE
        if len(inside) == len(dom):
            return FALSE if neg else TRUE
        # canonical: positive form over the domain
        if neg:
            vals = tuple(sorted(v for v in dom if v not in vals))
            neg = False
        # canonical polarity: for a two-valued domain use the smallest value
    return raw('insw', d, vals, neg)


_discr_dom = {}


def set_domain(d, vals):
    _discr_dom[d] = tuple(vals)


def discr_domain(d):
    r = _discr_dom.get(d)
    if r is not None:
        return r
    if d.op == 'discr' and d.a[0].op == 'cmp3':
        return (-1, 0, 1)
    return None


def ITE(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c is UNDEF:
        return UNDEF
    if a is b:
        return a
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if c.op == 'not':
        return ITE(c.a[0], b, a)
    if c.op == 'insw':
        dom = discr_domain(c.a[0])
        if c.a[2]:
            return ITE(NOT(c), b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return NOT(c)
    if a is TRUE:
        return OR(c, b)
    if b is FALSE:
        return AND(c, a)
    if a is FALSE and tyof(b) == 'bool':
        return AND(NOT(c), b)
    if b is TRUE and tyof(a) == 'bool':
        return OR(NOT(c), a)
    # nested same condition
    if a.op == 'ite' and a.a[0] is c:
        a = a.a[1]
    if b.op == 'ite' and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if b.op == 'ite' and b.a[2] is a:
        # c ? a : (d ? x : a)  ->  (!c && d) ? x : a
        return ITE(AND(NOT(c), b.a[0]), b.a[1], a)
    if b.op == 'ite' and b.a[1] is a:
        return ITE(OR(c, b.a[0]), a, b.a[2])
    # push through aggregates of the same constructor
    if a.op == 'agg' and b.op == 'agg' and a.a[:2] == b.a[:2] and len(a.a) == len(b.a):
        return raw('agg', a.a[0], a.a[1], *[ITE(c, x, y) for x, y in zip(a.a[2:], b.a[2:])])
    return raw('ite', c, a, b)


CTX = {}   # intervals assumed for some terms while simplifying inside one cell of a partition


def rng(t):
    r = _rng(t)
    if CTX and r is not None:
        c = CTX.get(t)
        if c is not None:
            return max(r[0], c[0]) if c[0] is not None else r[0], min(r[1], c[1]) if c[1] is not None else r[1]
    return r


def _rng(t):
    """cheap syntactic interval of an int term"""
    o = t.op
    if o == 'int':
        return t.a[0], t.a[0]
    if o == 'cast' and t.a[0] in WIDTH and t.a[1] in WIDTH:
        ra = rng(t.a[2]) or irange(t.a[0])
        lo, hi = ra
        tlo, thi = irange(t.a[1])
        if tlo <= lo and hi <= thi:
            return lo, hi
        return tlo, thi
    if o == 'cast' and t.a[0] == 'bool':
        return 0, 1
    if o == 'shr' and t.a[0] in WIDTH and not signed(t.a[0]) and isint(t.a[2]):
        lo, hi = rng(t.a[1])
        return lo >> t.a[2].a[0], hi >> t.a[2].a[0]
    if o == 'band' and t.a[0] in WIDTH and not signed(t.a[0]):
        h = [x.a[0] for x in t.a[1:] if isint(x)]
        if h:
            return 0, h[0]
    if o == 'rem' and t.a[0] in WIDTH and not signed(t.a[0]) and isint(t.a[2]) and t.a[2].a[0] > 0:
        return 0, t.a[2].a[0] - 1
    if o == 'len':
        return 0, (1 << 63) - 1      # objects are at most isize::MAX bytes; limbs are not zero-sized
    if o == 'ite':
        a, b = rng(t.a[1]), rng(t.a[2])
        if a is None or b is None:
            return None
        return min(a[0], b[0]), max(a[1], b[1])
    ty = tyof(t)
    if ty in WIDTH:
        return irange(ty)
    return None


# ---------------------------------------------------------------- comparisons
def EQ(a, b):
    if a is b:
        return TRUE
    if isconst(a) and isconst(b):
        return mkbool(a.a[0] == b.a[0])
    if a.op == 'bool':
        a, b = b, a
    if b is TRUE:
        return a
    if b is FALSE:
        return NOT(a)
    if a is UNDEF or b is UNDEF:
        return UNDEF
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite' and (isconst(y) or isconst(x.a[1]) or isconst(x.a[2])):
            return ITE(x.a[0], EQ(x.a[1], y), EQ(x.a[2], y))
    if a.op == 'agg' and b.op == 'agg':
        if a.a[0] == b.a[0] and a.a[1] != b.a[1]:
            return FALSE
        if a.a[:2] == b.a[:2] and len(a.a) == len(b.a):
            return AND(*[EQ(x, y) for x, y in zip(a.a[2:], b.a[2:])])
    if isint(a):
        a, b = b, a
    if isint(b):
        if a.op == 'cast' and a.a[0] == 'bool':
            return EQ(a.a[2], mkbool(b.a[0] == 1)) if b.a[0] in (0, 1) else FALSE
        if a.op == 'discr':
            return INSW(a, [b.a[0]], False)
        r = rng(a)
        if r and not (r[0] <= b.a[0] <= r[1]):
            return FALSE
        if a.op == 'cast' and a.a[0] in WIDTH and a.a[1] in WIDTH:
            r = rng(a.a[2])
            tlo, thi = irange(a.a[1])
            if r and tlo <= r[0] and r[1] <= thi:
                return EQ(a.a[2], mkint(b.a[0], a.a[0]))
        return raw('eq', a, b)
    if b.id < a.id:
        a, b = b, a
    return raw('eq', a, b)


def LT(a, b):
    if a is b:
        return FALSE
    if isint(a) and isint(b):
        return mkbool(a.a[0] < b.a[0])
    if a.op == 'bool' and b.op == 'bool':
        return mkbool(a.a[0] < b.a[0])
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if tyof(a) == 'bool' and tyof(b) == 'bool':
        return AND(NOT(a), b)
    if a.op == 'ite' and (isconst(b) or isconst(a.a[1]) or isconst(a.a[2])):
        return ITE(a.a[0], LT(a.a[1], b), LT(a.a[2], b))
    if b.op == 'ite' and (isconst(a) or isconst(b.a[1]) or isconst(b.a[2])):
        return ITE(b.a[0], LT(a, b.a[1]), LT(a, b.a[2]))
    if isint(b) or isint(a):
        ra, rb = rng(a), rng(b)
        if ra and rb:
            if ra[1] < rb[0]:
                return TRUE
            if ra[0] >= rb[1]:
                return FALSE
        for x, y, f in ((a, b, lambda p, q: LT(p, q)), (b, a, lambda p, q: LT(q, p))):
            if isint(y) and x.op == 'cast' and x.a[0] in WIDTH and x.a[1] in WIDTH:
                r = rng(x.a[2])
                tlo, thi = irange(x.a[1])
                if r and tlo <= r[0] and r[1] <= thi:
                    lo, hi = irange(x.a[0])
                    if lo <= y.a[0] <= hi:
                        return f(x.a[2], mkint(y.a[0], x.a[0]))
                if signed(x.a[0]) and not signed(x.a[1]) and WIDTH[x.a[1]] >= WIDTH[x.a[0]]:
                    # sign reinterpretation: negative values become the largest ones
                    h = irange(x.a[0])[1]
                    v = y.a[0]
                    if x is a and 0 <= v <= h + 1:
                        up = LT(x.a[2], mkint(v, x.a[0])) if v <= h else TRUE
                        return AND(NOT(LT(x.a[2], mkint(0, x.a[0]))), up)
                    if x is b and 0 <= v <= h:
                        return OR(LT(x.a[2], mkint(0, x.a[0])), LT(mkint(v, x.a[0]), x.a[2]))
    return raw('lt', a, b)


def GT(a, b):
    return LT(b, a)


def LE(a, b):
    return NOT(LT(b, a))


def GE(a, b):
    return NOT(LT(a, b))


def NE(a, b):
    return NOT(EQ(a, b))


# ---------------------------------------------------------------- integer arithmetic
COMM = {'add', 'mul', 'band', 'bor', 'bxor'}


def fold(op, n, x, y):
    if op == 'add':
        return wrap(x + y, n)
    if op == 'sub':
        return wrap(x - y, n)
    if op == 'mul':
        return wrap(x * y, n)
    if op == 'div':
        if y == 0:
            return None
        q = abs(x) // abs(y)
        return wrap(q if (x < 0) == (y < 0) else -q, n)
    if op == 'rem':
        if y == 0:
            return None
        r = abs(x) % abs(y)
        return wrap(-r if x < 0 else r, n)
    if op == 'band':
        return wrap(x & y, n)
    if op == 'bor':
        return wrap(x | y, n)
    if op == 'bxor':
        return wrap(x ^ y, n)
    if op == 'shl':
        return wrap(x << (y % WIDTH[n]), n)
    if op == 'shr':
        return wrap(x >> (y % WIDTH[n]), n)
    return None


def BIN(op, n, a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if n == 'bool':
        if op == 'band':
            return AND(a, b)
        if op == 'bor':
            return OR(a, b)
        if op == 'bxor':
            if a is b:
                return FALSE
            for x, y in ((a, b), (b, a)):
                if x is TRUE:
                    return NOT(y)
                if x is FALSE:
                    return y
            if a.op == 'not':
                return NOT(BIN('bxor', n, a.a[0], b))
            if b.op == 'not':
                return NOT(BIN('bxor', n, a, b.a[0]))
            if b.id < a.id:
                a, b = b, a
            return raw('xorb', a, b)
    if isint(a) and isint(b):
        r = fold(op, n, a.a[0], b.a[0])
        if r is not None:
            return mkint(r, n)
    if n in WIDTH:
        for x, y in ((a, b), (b, a)):
            if isint(y):
                v = y.a[0]
                if op in ('add', 'bor', 'bxor') and v == 0:
                    return x
                if op == 'mul' and v == 1:
                    return x
                if op in ('mul', 'band') and v == 0:
                    return y
                if op == 'band' and v == wrap(-1, n):
                    return x
        if isint(b):
            if op in ('sub', 'shl', 'shr') and b.a[0] == 0:
                return a
            if op == 'div' and b.a[0] == 1:
                return a
            # (x +- c1) +- c2
            if op in ('add', 'sub') and a.op in ('add', 'sub') and isint(a.a[2]):
                c = (a.a[2].a[0] if a.op == 'add' else -a.a[2].a[0]) + (b.a[0] if op == 'add' else -b.a[0])
                c = wrap(c, n)
                if c == 0:
                    return a.a[1]
                base = a.a[1]
                return raw('add', n, base, mkint(c, n)) if not (c >> (WIDTH[n] - 1)) else raw('sub', n, base, mkint(-c, n))
            if op == 'add' and signed(n) is False and b.a[0] >> (WIDTH[n] - 1):
                return BIN('sub', n, a, mkint(-b.a[0], n))
        if op == 'sub' and a is b:
            return mkint(0, n)
        if op == 'sub' and a.op == 'add':
            if a.a[1] is b:
                return a.a[2]
            if a.a[2] is b:
                return a.a[1]
        if op == 'add':
            for x, y in ((a, b), (b, a)):
                if x.op == 'sub' and x.a[2] is y:
                    return x.a[1]
        if op == 'bxor' and a is b:
            return mkint(0, n)
        if op in ('band', 'bor') and a is b:
            return a
        # ite with constants
        if a.op == 'ite' and isint(a.a[1]) and isint(a.a[2]) and isint(b):
            return ITE(a.a[0], BIN(op, n, a.a[1], b), BIN(op, n, a.a[2], b))
        if b.op == 'ite' and isint(b.a[1]) and isint(b.a[2]) and isint(a):
            return ITE(b.a[0], BIN(op, n, a, b.a[1]), BIN(op, n, a, b.a[2]))
    if op in COMM:
        if isint(a) or (not isint(b) and b.id < a.id):
            a, b = b, a
    return raw(op, n, a, b)


def NEG(n, a):
    if isint(a):
        return mkint(-a.a[0], n)
    if a.op == 'neg':
        return a.a[1]
    if n in ('f32', 'f64'):
        return a.a[1] if a.op == 'fneg' else raw('fneg', n, a)
    return raw('neg', n, a)


def BNOT(n, a):
    if n == 'bool':
        return NOT(a)
    if isint(a):
        return mkint(~a.a[0], n)
    if a.op == 'bnot':
        return a.a[1]
    return raw('bnot', n, a)


def CAST(f, t, a):
    if f == t or a is UNDEF:
        return a
    if f == 'bool' and a.op == 'bool':
        return mkint(int(a.a[0]), t)
    if isint(a) and t in WIDTH:
        return mkint(a.a[0], t)
    if a.op == 'ite' and f in ('bool',) or (a.op == 'ite' and (isconst(a.a[1]) or isconst(a.a[2]))):
        return ITE(a.a[0], CAST(f, t, a.a[1]), CAST(f, t, a.a[2]))
    if a.op == 'cast' and f in WIDTH and t in WIDTH and a.a[0] in WIDTH:
        lo, hi = rng(a.a[2]) or (None, None)
        if lo is not None:
            mlo, mhi = irange(f)
            if mlo <= lo and hi <= mhi:  # inner cast value preserving
                return CAST(a.a[0], t, a.a[2])
        if WIDTH[t] <= WIDTH[f]:  # only low bits matter
            return CAST(a.a[0], t, a.a[2])
    if a.op == 'cast' and a.a[0] == 'bool' and f in WIDTH and t in WIDTH:
        return CAST('bool', t, a.a[2])
    return raw('cast', f, t, a)


def OVF(op, n, a, b):
    """overflow flag of op on int type n"""
    if isint(a) and isint(b):
        v = {'add': a.a[0] + b.a[0], 'sub': a.a[0] - b.a[0], 'mul': a.a[0] * b.a[0]}[op]
        lo, hi = irange(n)
        return mkbool(not (lo <= v <= hi))
    if isint(b) and b.a[0] == 0 and op in ('add', 'sub', 'mul'):
        return FALSE
    if isint(a) and a.a[0] == 0 and op in ('add', 'mul'):
        return FALSE
    ra, rb = rng(a), rng(b)
    if ra and rb:
        lo, hi = irange(n)
        if op == 'add' and lo <= ra[0] + rb[0] and ra[1] + rb[1] <= hi:
            return FALSE
        if op == 'sub' and lo <= ra[0] - rb[1] and ra[1] - rb[0] <= hi:
            return FALSE
        if op == 'mul':
            ps = [x * y for x in ra for y in rb]
            if lo <= min(ps) and max(ps) <= hi:
                return FALSE
    if n in WIDTH and not signed(n) and op == 'sub':
        return LT(a, b)
    if op in ('add', 'mul') and b.id < a.id:
        a, b = b, a
    return raw(op + 'ovf', n, a, b)


def AGG(kind, variant, *fs):
    return raw('agg', kind, variant, *fs)


OPTION = 'core::option::Option'
RESULT = 'core::result::Result'
ORDERING = 'core::cmp::Ordering'


def SOME(x):
    return AGG(OPTION, 1, x)


NONE = AGG(OPTION, 0)


def TUPLE(*xs):
    return AGG('tuple', 0, *xs)


def FIELD(v, variant, i):
    """field i of value v (downcast to variant when not None)"""
    if v is UNDEF:
        return UNDEF
    if v.op == 'agg':
        if variant is not None and v.a[1] != variant and v.a[0] not in ('tuple', 'closure'):
            return UNDEF
        if 2 + i < len(v.a):
            return v.a[2 + i]
        return UNDEF
    if v.op == 'ite':
        return ITE(v.a[0], FIELD(v.a[1], variant, i), FIELD(v.a[2], variant, i))
    if v.op == 'ref':
        return v
    if v.op == 'setf' and (variant or 0) == v.a[1]:
        return v.a[3] if v.a[2] == i else FIELD(v.a[0], variant, i)
    return raw('fld', v, variant if variant is not None else 0, i)


def SETFIELD(v, variant, i, x, nf=None):
    if v.op == 'agg' and (variant is None or v.a[1] == variant):
        fs = list(v.a[2:])
        while len(fs) <= i:
            fs.append(UNDEF)
        fs[i] = x
        return raw('agg', v.a[0], v.a[1], *fs)
    if v.op == 'ite':
        return ITE(v.a[0], SETFIELD(v.a[1], variant, i, x, nf), SETFIELD(v.a[2], variant, i, x, nf))
    return raw('setf', v, variant if variant is not None else 0, i, x)


def SEL(s, i):
    if s is UNDEF:
        return UNDEF
    o = s.op
    if o == 'arr':
        if isint(i):
            if 0 <= i.a[0] < len(s.a):
                return s.a[i.a[0]]
            return UNDEF
    if o == 'rep':
        return s.a[0]
    if o == 'upd':
        e = EQ(s.a[1], i)
        if e is TRUE:
            return s.a[2]
        if e is FALSE:
            return SEL(s.a[0], i)
        d = ne_index(s.a[1], i)
        if d:
            return SEL(s.a[0], i)
        return raw('sel', s, i)
    if o == 'ite':
        return ITE(s.a[0], SEL(s.a[1], i), SEL(s.a[2], i))
    if o == 'sub':  # subsequence (s, start, len)
        return SEL(s.a[0], BIN('add', 'usize', s.a[1], i))
    if o == 'eachref':
        p = s.a[0]
        if p.op == 'ref':
            return raw('ref', p.a[0], p.a[1] + (('i', i),))
    return raw('sel', s, i)


def ne_index(a, b):
    """syntactically different indices: x+c vs x+d"""
    def split(t):
        if t.op == 'add' and isint(t.a[2]):
            return t.a[1], t.a[2].a[0]
        if t.op == 'sub' and isint(t.a[2]):
            return t.a[1], -t.a[2].a[0]
        return t, 0
    x, c = split(a)
    y, d = split(b)
    return x is y and c != d


def UPD(s, i, v):
    if s.op == 'arr' and isint(i) and 0 <= i.a[0] < len(s.a):
        l = list(s.a)
        l[i.a[0]] = v
        return raw('arr', *l)
    if s.op == 'upd' and s.a[1] is i:
        return UPD(s.a[0], i, v)
    return raw('upd', s, i, v)


_ALEN = __import__('re').compile(r'; (\w+)\]$')
LENS = {}   # loop-carried sequences whose length the loop does not change


def isseq(t):
    o = t.op
    if o in ('rep', 'arr', 'upd', 'sub', 'updsub', 'push', 'resize'):
        return True
    if o == 'ite':
        return isseq(t.a[1]) and isseq(t.a[2])
    if o == 'opout':
        return isseq(t.a[2 + t.a[1]])
    s = t.a[1] if o == 'sym' else t.a[2] if o in ('phi', 'fin') else None
    return isinstance(s, str) and (s.startswith('[') or s.startswith('alloc::vec::Vec<'))


def LEN(s):
    o = s.op
    if o == 'arr':
        return mkint(len(s.a))
    if o == 'rep':
        return s.a[1]
    if o == 'upd':
        return LEN(s.a[0])
    if o == 'sub':
        return s.a[2]
    if o == 'push':
        return BIN('add', 'usize', LEN(s.a[0]), mkint(1))
    if o == 'ite':
        return ITE(s.a[0], LEN(s.a[1]), LEN(s.a[2]))
    if o == 'resize':
        return s.a[1]
    if o == 'str':
        return mkint(len(s.a[0]))
    if o == 'updsub':
        return LEN(s.a[0])
    if s in LENS:
        return LENS[s]
    if o == 'uninit':
        return s.a[0]
    if o == 'eachref':
        return s.a[1]
    n = arrlen(s)
    if n is not None:
        return n
    return raw('len', s)


FIELDSTR = [None]         # set by the engine: type string of a struct field


def seqstr(t):
    """type string of a sequence valued leaf"""
    o = t.op
    s = t.a[1] if o == 'sym' else t.a[2] if o in ('phi', 'fin') else None
    if o == 'upd':
        return seqstr(t.a[0])
    if o == 'sel':
        s = seqstr(t.a[0])
        if s and s.startswith('[') and s.endswith(']'):
            i = s.rfind('; ')
            return s[1:i] if i > 0 else None
        return None
    if o == 'fld' and FIELDSTR[0] is not None:
        b = seqstr(t.a[0])
        return FIELDSTR[0](b, t.a[2]) if b else None
    return s if isinstance(s, str) else None


def arrlen(t):
    s = seqstr(t)
    if s and s.startswith('[') and s.endswith(']'):
        m = _ALEN.search(s)
        if m:
            x = m.group(1)
            return mkint(int(x)) if x.isdigit() else sym(x, 'usize')
    return None


def subst(t, f, memo=None):
    """rebuild t bottom-up; f(leaf-or-node) returns a replacement or None"""
    if memo is None:
        memo = {}

    def go(x):
        if not isinstance(x, T):
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        r = memo.get(x)
        if r is not None:
            return r
        r = f(x)
        if r is None:
            na = tuple(go(y) for y in x.a)
            r = x if all(p is q or (not isinstance(p, T) and p == q) for p, q in zip(na, x.a)) else rebuild(x.op, na)
        memo[x] = r
        return r
    return go(t)


def resimp(t, iv):
    """rebuild t with the intervals iv in force"""
    memo = {}

    def go(x):
        if not isinstance(x, T):
            return tuple(go(y) for y in x) if isinstance(x, tuple) else x
        r = memo.get(x)
        if r is None:
            na = tuple(go(y) for y in x.a)
            r = rebuild(x.op, na) if x.a else x
            memo[x] = r
        return r
    CTX.clear()
    CTX.update(iv)
    try:
        return go(t)
    finally:
        CTX.clear()


def rebuild(op, a):
    if op == 'not':
        return NOT(*a)
    if op == 'and':
        return AND(*a)
    if op == 'or':
        return OR(*a)
    if op == 'insw':
        return INSW(*a)
    if op == 'ite':
        return ITE(*a)
    if op == 'eq':
        return EQ(*a)
    if op == 'lt':
        return LT(*a)
    if op == 'sub' and isinstance(a[0], T):
        v, st, l = a
        if v.op == 'sub' and isinstance(v.a[0], T):
            return raw('sub', v.a[0], BIN('add', 'usize', v.a[1], st), l)
        if v.op == 'arr' and isint(st) and isint(l):
            return raw('arr', *v.a[st.a[0]:st.a[0] + l.a[0]])
        return raw('sub', v, st, l)
    if op in ('add', 'sub', 'mul', 'div', 'rem', 'band', 'bor', 'bxor', 'shl', 'shr'):
        return BIN(op, *a)
    if op == 'xorb':
        return BIN('bxor', 'bool', *a)
    if op == 'neg':
        return NEG(*a)
    if op == 'bnot':
        return BNOT(*a)
    if op == 'cast':
        return CAST(*a)
    if op in ('addovf', 'subovf', 'mulovf'):
        return OVF(op[:3], *a)
    if op == 'fld':
        return FIELD(*a)
    if op == 'sel':
        return SEL(*a)
    if op == 'upd':
        return UPD(*a)
    if op == 'len':
        return LEN(*a)
    if op == 'discr':
        return DISCR(*a)
    if op == 'cmp3':
        return CMP3(*a)
    return raw(op, *a)


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        st.extend(x.a)
    return seen


ADTS = {}  # path -> adt json (filled by facts)


def DISCR(v):
    if v is UNDEF:
        return UNDEF
    if v.op == 'agg':
        return variant_discr(v.a[0], v.a[1])
    if v.op == 'ite':
        return ITE(v.a[0], DISCR(v.a[1]), DISCR(v.a[2]))
    if v.op == 'setf':
        return DISCR(v.a[0])
    t = raw('discr', v)
    return t


def variant_discr(path, vi):
    ad = ADTS.get(path)
    if ad and ad['kind'] == 'enum':
        d = int(ad['v'][vi]['d'])
        if path == ORDERING and d > 127:
            d = d - (1 << (d.bit_length() if d < 256 else 128))
            d = {0: 0}.get(d, -1)
        return mkint(d, 'isize')
    return mkint(vi, 'isize')


def CMP3(a, b):
    """three-way comparison of two totally ordered values, as an Ordering"""
    if a is b:
        return AGG(ORDERING, 1)
    if isconst(a) and isconst(b):
        return AGG(ORDERING, 0 if a.a[0] < b.a[0] else 2 if a.a[0] > b.a[0] else 1)
    # expressed through lt/eq so that every comparison shares the same atoms
    return ITE(LT(a, b), AGG(ORDERING, 0), ITE(EQ(a, b), AGG(ORDERING, 1), AGG(ORDERING, 2)))
