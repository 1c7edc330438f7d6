"""Normal form for generic field arithmetic: rational functions over uninterpreted atoms.

Terms t(add|sub|mul|div|neg, ...) over a type parameter are read as the operations of a field; two
expressions are the same operation when their rational normal forms agree (cross multiplication)."""
from fractions import Fraction
from .term import *


class Big(Exception):
    pass


def mono_mul(a, b):
    d = dict(a)
    for k, v in b:
        d[k] = d.get(k, 0) + v
    return tuple(sorted(d.items(), key=lambda kv: kv[0]))


def pmul(p, q):
    r = {}
    if len(p) * len(q) > 20000:
        raise Big()
    for a, x in p.items():
        for b, y in q.items():
            m = mono_mul(a, b)
            r[m] = r.get(m, 0) + x * y
    return {k: v for k, v in r.items() if v}


def padd(p, q, s=1):
    r = dict(p)
    for k, v in q.items():
        r[k] = r.get(k, 0) + s * v
    return {k: v for k, v in r.items() if v}


def const(c):
    return {(): Fraction(c)} if c else {}


class Ring:
    def __init__(self):
        self.atoms = {}
        self.memo = {}

    def atom(self, t):
        k = self.key(t)
        self.atoms.setdefault(k, t)
        return {((k, 1),): Fraction(1)}, const(1)

    def key(self, t):
        """canonical key of an atom: its operator with normalised arguments"""
        if not isinstance(t, T):
            return str(t)
        if t.op == 'big':
            return 'big(%s,%d,%s)' % (t.a[0], t.a[1].id, self.nf(t.a[3]))
        if t.op in ('t', 'top') or (t.op == 'call'):
            return '%s(%s)' % (t.op, ','.join(self.nf(x) if isinstance(x, T) else str(x) for x in t.a))
        return '#%d' % t.id

    def nf(self, t):
        n, d = self.rat(t)
        # normalise the leading coefficient of the denominator
        if d:
            k = sorted(d)[0]
            c = d[k]
            n = {m: v / c for m, v in n.items()}
            d = {m: v / c for m, v in d.items()}
        return '%s/%s' % (sorted(n.items()), sorted(d.items()))

    def rat(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._rat(t)
            self.memo[t] = r
        return r

    def _rat(self, t):
        if t.op == 't' and t.a[0] in ('add', 'sub', 'mul', 'div', 'neg'):
            o = t.a[0]
            xs = [self.rat(x) for x in t.a[1:] if isinstance(x, T)]
            if o == 'neg' and len(xs) == 1:
                return {k: -v for k, v in xs[0][0].items()}, xs[0][1]
            if len(xs) == 2:
                (a, b), (c, d) = xs
                if o in ('add', 'sub'):
                    s = 1 if o == 'add' else -1
                    if b == d:
                        return padd(a, c, s), b
                    return padd(pmul(a, d), pmul(c, b), s), pmul(b, d)
                if o == 'mul':
                    return pmul(a, c), pmul(b, d)
                return pmul(a, d), pmul(b, c)
        if t.op == 'tconst' and t.a[0] in ('zero', 'one'):
            return const(0 if t.a[0] == 'zero' else 1), const(1)
        return self.atom(t)

    def equal(self, a, b):
        (x, y), (z, w) = self.rat(a), self.rat(b)
        return pmul(x, w) == pmul(z, y)


def opaque(t):
    """contains loop state that was not eliminated"""
    return any(x.op in ('phi', 'fin', 'leaf', 'uninitv', 'undef', 'exitsel') for x in subterms(t))


def cells(t, lits=(), n=None):
    """leaves of t's case tree with their conditions; conditions nested under operators are lifted"""
    t2 = lift(t)
    if t2.op == 'ite':
        c = t2.a[0]
        for s, x in ((c, t2.a[1]), (NOT(c), t2.a[2])):
            yield from cells(x, lits + (s,))
        return
    yield lits, t2


def lift(t):
    if t.op in ('ite', 'big', 'forall') or not isinstance(t, T):
        return t
    for i, x in enumerate(t.a):
        if isinstance(x, T):
            y = lift(x)
            if y.op == 'ite':
                mk = lambda v: rebuild(t.op, t.a[:i] + (v,) + t.a[i + 1:])
                return ITE(y.a[0], mk(y.a[1]), mk(y.a[2]))
    return t


def eqs(c):
    """substitution by the equations between indices in force"""
    mp = {}
    for l in (c.a if c.op == 'and' else [c]):
        if l.op == 'eq':
            a, b = l.a
            if a.op == 'int' or (b.op == 'sym' and a.op != 'sym'):
                a, b = b, a
            if a.op == 'sym' and tyof(a) == 'usize' and not any(x is a for x in subterms(b)):
                mp.setdefault(a, b)
    return mp


def combine(rs):
    """all parts hold; refuted when exactly one part is refuted and the others hold"""
    bad = [r for r in rs if r[0] == 'VIOLATED']
    und = [r for r in rs if r[0] == 'UNDECIDED']
    if not bad and not und:
        return 'HOLD', None
    if bad and not und and len(bad) == 1:
        return bad[0]
    if und:
        return und[0]
    return 'UNDECIDED', 'differs in several parts'


HEADS = ('call', 'not', 'fld', 'sel', 'discr', 'tcall')


def agree_(a, b, pre=TRUE, depth=0):
    """verdict on  pre => a == b  for field expressions, quantified conditions and sums / products over an index"""
    from .decide import same, HOLD, VIOLATED, UNDECIDED
    if a is b:
        return HOLD, None
    if depth > 8:
        return UNDECIDED, 'nesting'
    worst = (HOLD, None)
    n = 0
    for la, x in cells(a):
        for lb, y in cells(b):
            n += 1
            if n > 600:
                return UNDECIDED, 'too many cases'
            c = AND(pre, *(la + lb))
            if c is FALSE or x is y:
                continue
            r = leaf(x, y, c, depth)
            if r[0] == VIOLATED:
                # the case must be possible
                v = same(c, FALSE)
                if v[0] == HOLD:
                    continue
                if v[0] == VIOLATED or c is TRUE:
                    return VIOLATED, {'where': show(c, 8)[:300], 'value': show(x, 10)[:400], 'required': show(y, 10)[:400], 'detail': r[1]}
                worst = (UNDECIDED, 'possible difference where %s' % show(c, 6)[:200])
            elif r[0] == UNDECIDED:
                v = same(c, FALSE)
                if v[0] != HOLD:
                    worst = r
    return worst


def leaf(x, y, c, depth):
    from .decide import same, HOLD, VIOLATED, UNDECIDED
    mp = eqs(c)
    if mp:
        f = lambda t: mp.get(t)
        x, y = norm(subst(x, f)), norm(subst(y, f))
        x, y = subst(x, f), subst(y, f)
    if x is y:
        return HOLD, None
    if opaque(x) or opaque(y):
        return UNDECIDED, 'loop state: %s vs %s' % (show(x, 6)[:200], show(y, 6)[:200])
    if x.op == y.op == 'sel' and x.a[0] is y.a[0]:
        from .point import Facts, lin
        F = Facts().plus(c)
        d = lin(x.a[1]).add(lin(y.a[1]), -1)
        if F.ge0(d) is True and F.ge0(d.scale(-1)) is True:
            return HOLD, None
    R = Ring()
    try:
        if R.equal(x, y):
            return HOLD, None
    except Big:
        return UNDECIDED, 'too large'
    if x.op == 'not' and y.op == 'not':
        return agree(x.a[0], y.a[0], c, depth + 1)
    if x.op == y.op and x.op in ('big', 'forall'):
        if x.op == 'big' and x.a[0] != y.a[0]:
            return VIOLATED, 'another reduction'
        n1, h1, b1 = x.a[-3:]
        n2, h2, b2 = y.a[-3:]
        if h1 != h2:
            b1 = subst(b1, lambda t: sym('#b%d' % h2, 'usize') if t is sym('#b%d' % h1, 'usize') else None)
        rn = same(n1, n2, c)
        v = sym('#b%d' % h2, 'usize')
        rb = agree(b1, b2, AND(c, LT(v, n2)), depth + 1)
        if rn[0] == HOLD and rb[0] != HOLD and x.op == 'big':
            # the same terms summed in the other order
            rev = BIN('sub', 'usize', BIN('sub', 'usize', n2, v), mkint(1))
            from .point import lin, unlin
            b3 = norm(subst(b1, lambda t: rev if t is v else None))
            if agree(b3, b2, AND(c, LT(v, n2)), depth + 1)[0] == HOLD:
                rb = (HOLD, None)
        return combine([rn, rb])
    if x.op == y.op == 'agg' and x.a[:2] == y.a[:2] and len(x.a) == len(y.a):
        rs = [agree(p, q, c, depth + 1) for p, q in zip(x.a[2:], y.a[2:])]
        for r in rs:
            if r[0] == VIOLATED:
                return r
        return combine(rs)
    if x.op == y.op == 'agg' and x.a[0] == y.a[0]:
        return VIOLATED, 'another variant'
    if x.op == y.op and x.op in ('eq',) and len(x.a) == 2:
        best = None
        for p, q in ((y.a[0], y.a[1]), (y.a[1], y.a[0])):
            r = combine([agree(x.a[0], p, c, depth + 1), agree(x.a[1], q, c, depth + 1)])
            if r[0] == HOLD:
                return r
            if r[0] == VIOLATED:
                best = r
        return best or (UNDECIDED, 'equation')
    if tyof(x) in WIDTH or tyof(x) == 'bool' or tyof(y) in WIDTH or tyof(y) == 'bool':
        try:
            r = same(x, y, c)
        except Exception as ex:
            return UNDECIDED, repr(ex)
        if r[0] == HOLD:
            return r
        if r[0] == VIOLATED and not any(t.op in ('big', 'forall', 't') for z in (x, y) for t in subterms(z)):
            return r
        return UNDECIDED, 'condition'
    if x.op == y.op and x.op not in ('t', 'big', 'forall') and len(x.a) == len(y.a) and all(
            p == q for p, q in zip(x.a, y.a) if not isinstance(p, T) or not isinstance(q, T)):
        if x.op == 'sym':
            return VIOLATED, 'another operand'
        return combine([agree(p, q, c, depth + 1) for p, q in zip(x.a, y.a) if isinstance(p, T) and isinstance(q, T)])
    if field(x) and field(y):
        return VIOLATED, 'different expressions'
    if (x.op == 'tconst' and y.op in ('sym', 'sel')) or (y.op == 'tconst' and x.op in ('sym', 'sel')):
        return VIOLATED, 'different expressions'
    return UNDECIDED, 'not compared: %s vs %s' % (show(x, 6)[:200], show(y, 6)[:200])


def field(t):
    """operations of the field (and uninterpreted functions) over plain inputs"""
    for x in subterms(t):
        if x.op in ('phi', 'fin', 'leaf', 'uninitv', 'undef', 'exitsel', 'big', 'forall', 'ite', 'load', 'op', 'opout'):
            return False
    return True


def norm(t):
    """index arithmetic in linear normal form"""
    from .point import lin, unlin
    memo = {}

    def go(x):
        if not isinstance(x, T) or not x.a:
            return x
        if x in memo:
            return memo[x]
        na = tuple(go(y) if isinstance(y, T) else y for y in x.a)
        r = x if all(p is q for p, q in zip(na, x.a)) else rebuild(x.op, na)
        if r.op in ('add', 'sub') and r.a[0] == 'usize':
            r = unlin(lin(r))
        memo[x] = r
        return r
    return go(t)


def agree(a, b, pre=TRUE, depth=0):
    from .decide import natural
    with natural():
        r = agree_(a, b, pre, depth)
        w = refute(a, b, pre) if r[0] == 'UNDECIDED' and depth == 0 else None
    if r[0] == 'UNDECIDED' and depth == 0:
        if w is not None:
            r = 'VIOLATED', w
    if r[0] == 'VIOLATED' and depth == 0:
        u = unknown_calls(a, b)
        if u:
            return 'UNDECIDED', 'value of %s' % u[0]
    return r


def unknown_calls(a, b):
    """functions the value depends on which are neither operations of the element type nor part of the required value"""
    names = lambda t: {str(x.a[0]) for x in subterms(t) if x.op == 'call'}
    return sorted(n for n in names(a) - names(b) if not n.startswith(('numeric_traits::', '<T', 'core::ops::')))


ring_same = agree


def expand(t):
    """sums, products and quantified conditions over a concrete range written out"""
    memo = {}

    def go(x):
        if not isinstance(x, T) or not x.a:
            return x
        if x in memo:
            return memo[x]
        if x.op in ('big', 'forall'):
            n, h, body = x.a[-3:]
            n = go(n)
            if n.op != 'int' or n.a[0] > 16:
                raise Big()
            v = sym('#b%d' % h, 'usize')
            xs = [go(subst(body, lambda y: mkint(k) if y is v else None)) for k in range(n.a[0])]
            if x.op == 'forall':
                r = AND(*xs)
            else:
                r = raw('tconst', 'zero' if x.a[0] == 'add' else 'one', 'T')
                for y in xs:
                    r = raw('t', x.a[0], r, y)
        else:
            na = tuple(go(y) if isinstance(y, T) else y for y in x.a)
            r = x if all(p is q for p, q in zip(na, x.a)) else rebuild(x.op, na)
        memo[x] = r
        return r
    return go(t)


def batoms(t, out):
    if t.op in ('and', 'or', 'not'):
        for x in t.a:
            batoms(x, out)
    elif t.op == 'ite':
        for x in t.a:
            batoms(x, out)
    elif t.op != 'bool':
        k = (t.a[0], t.a[1], False) if t.op == 'insw' else t
        out.setdefault(t, None)
    return out


def bval(t, v):
    o = t.op
    if o == 'bool':
        return t is TRUE
    if o == 'and':
        return all(bval(x, v) for x in t.a)
    if o == 'or':
        return any(bval(x, v) for x in t.a)
    if o == 'not':
        return not bval(t.a[0], v)
    if o == 'ite':
        return bval(t.a[1] if bval(t.a[0], v) else t.a[2], v)
    if o == 'insw' and t.a[2] is True:
        return not v[raw('insw', t.a[0], t.a[1], False)]
    return v[t]


def refute(a, b, pre):
    """a concrete choice of dimensions and indices at which the closed forms differ as expressions over the elements"""
    import random
    rnd = random.Random(7)
    syms = sorted({x for t in (a, b, pre) for x in subterms(t) if x.op == 'sym' and tyof(x) == 'usize' and not str(x.a[0]).startswith('#b')}, key=lambda x: x.id)
    if len(syms) > 7 or opaque(a) and not any(x.op == 'ite' for x in subterms(a)):
        return None
    isb = tyof(a) == 'bool' or tyof(b) == 'bool'
    seen = 0
    for it in range(1500):
        top = (3, 5, 10, 13)[it % 4]
        asg = {x: mkint(rnd.randrange(0, top + 1)) for x in syms}
        f = lambda t: asg.get(t)
        try:
            if expand(subst(pre, f)) is not TRUE:
                continue
            seen += 1
            if seen > 60:
                return None
            x, y = expand(subst(a, f)), expand(subst(b, f))
        except Big:
            continue
        if x is y:
            continue
        wit = {'at': {str(k.a[0]): v.a[0] for k, v in asg.items()}, 'value': show(x, 8)[:300], 'required': show(y, 8)[:300]}
        if opaque(x) or opaque(y):
            continue
        if isb:
            ats = batoms(y, batoms(x, {}))
            keys = []
            for t in ats:
                k = raw('insw', t.a[0], t.a[1], False) if t.op == 'insw' else t
                if k not in keys:
                    keys.append(k)
            groups = {}
            for k in keys:
                if k.op == 'eq' and any(z.op == 'tconst' for z in k.a):
                    e = [z for z in k.a if z.op != 'tconst']
                    if len(e) == 1 and e[0].op in ('sel', 'sym', 'fld'):
                        groups.setdefault(e[0], []).append(k)
                        continue
                elif k.op == 'insw' and k.a[0].op == 'discr' and k.a[0].a[0].op == 'call':
                    groups.setdefault(k.a[0], []).append(k)
                    continue
                return None
            if len(keys) > 60:
                continue
            gs = list(groups.values())
            tries = [[-1] * len(gs), [0] * len(gs)]
            tries += [[0] * i + [-1] + [0] * (len(gs) - i - 1) for i in range(len(gs))]
            tries += [[-1] * i + [0] + [-1] * (len(gs) - i - 1) for i in range(len(gs))]
            tries += [[rnd.randrange(-1, len(g)) for g in gs] for _ in range(60)]
            for tr in tries:
                v = {k: False for k in keys}
                for g, c in zip(gs, tr):
                    if c >= 0:
                        v[g[c]] = True
                if bval(x, v) != bval(y, v):
                    wit['elements'] = {show(k, 4): q for k, q in v.items()}
                    return wit
            continue
        if x.op == 'agg' or y.op == 'agg' or not field(x) or not field(y):
            continue
        try:
            if not Ring().equal(x, y):
                return wit
        except Big:
            continue
    return None
