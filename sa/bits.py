"""Bit-level equality of word expressions.

Word expressions built from shifts, masks and bitwise connectives are compared bit by bit: every case of
the expressions is taken apart, every value of the shift remainders (which range over 0..w) is substituted,
and each bit becomes a boolean function over the bits of the operand words, kept canonical as a reduced
ordered decision diagram.  Equal diagrams for all cases, remainders and positions mean equal words for all
operand values, lengths and shift amounts."""
import itertools
from .term import *
from .point import lin, Facts
from .ring import cells, opaque


class Why(str):
    env = None


class No(Exception):
    pass


class Bdd:
    def __init__(self):
        self.n = [None, None]
        self.u = {}
        self.m = {}
        self.var = {}

    def v(self, key):
        i = self.var.setdefault(key, len(self.var))
        return self.mk(i, 0, 1)

    def mk(self, i, lo, hi):
        if lo == hi:
            return lo
        k = (i, lo, hi)
        r = self.u.get(k)
        if r is None:
            r = len(self.n)
            self.n.append(k)
            self.u[k] = r
            if r > 200000:
                raise No('size')
        return r

    def ite(self, f, g, h):
        if f == 1 or g == h:
            return g
        if f == 0:
            return h
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.m.get(k)
        if r is None:
            top = min(self.n[x][0] for x in k if x > 1)
            co = lambda x, b: x if x < 2 or self.n[x][0] != top else self.n[x][1 + b]
            r = self.mk(top, self.ite(co(f, 0), co(g, 0), co(h, 0)), self.ite(co(f, 1), co(g, 1), co(h, 1)))
            self.m[k] = r
        return r

    def NOT(self, a):
        return self.ite(a, 0, 1)

    def AND(self, a, b):
        return self.ite(a, b, 0)

    def OR(self, a, b):
        return self.ite(a, 1, b)

    def XOR(self, a, b):
        return self.ite(a, self.NOT(b), b)


def canon(t):
    """key of an operand word; indices compared as linear forms"""
    if t.op == 'sel':
        return ('sel', canon(t.a[0]), lin(t.a[1]).key())
    return t.id


def bases(ts):
    """remainders modulo a small constant, which the shift amounts are made of"""
    out = []
    for t in ts:
        for x in subterms(t):
            if x.op == 'rem' and x.a[2].op == 'int' and 0 < x.a[2].a[0] <= 128 and x not in out:
                out.append(x)

    def over(t):
        # computable from other remainders (and constants) alone
        if t in out or t.op == 'int':
            return True
        return t.op in ('add', 'sub', 'mul', 'div', 'rem') and over(t.a[1]) and over(t.a[2])
    return [x for x in out if x.a[1].op == 'int' or not over(x.a[1])]


class Words:
    def __init__(self, env, facts=None):
        self.B = Bdd()
        self.env = env
        self.memo = {}
        self.F = facts

    def num(self, t):
        """concrete value of an amount under env"""
        if t in self.env:
            return self.env[t]
        if t.op == 'int':
            return t.a[0]
        if t.op in ('add', 'sub', 'mul', 'div', 'rem'):
            a, b = self.num(t.a[1]), self.num(t.a[2])
            if t.op == 'add':
                return a + b
            if t.op == 'mul':
                return a * b
            if t.op == 'sub':
                return (a - b) % (1 << WIDTH.get(t.a[0], 64))
            if b == 0:
                raise No('zero')
            return a // b if t.op == 'div' else a % b
        if t.op == 'cast':
            return self.num(t.a[2]) % (1 << WIDTH[t.a[1]])
        if t.op == 'ite':
            c = self.truth(t.a[0])
            return self.num(t.a[1] if c else t.a[2])
        raise No('amount %s' % show(t, 4)[:80])

    def truth(self, c):
        o = c.op
        if o == 'true' or c is TRUE:
            return True
        if c is FALSE:
            return False
        if o == 'not':
            return not self.truth(c.a[0])
        if o == 'and':
            return all(self.truth(x) for x in c.a)
        if o == 'or':
            return any(self.truth(x) for x in c.a)
        if o == 'eq':
            return self.num(c.a[0]) == self.num(c.a[1])
        if o == 'lt':
            return self.num(c.a[0]) < self.num(c.a[1])
        raise No('condition')

    def w(self, t, n=None):
        k = (t, n)
        r = self.memo.get(k)
        if r is None:
            r = self._w(t, n)
            self.memo[k] = r
        return r

    def const(self, v, w):
        return [(v >> i) & 1 for i in range(w)]

    def _w(self, t, n):
        o = t.op
        if o == 'int':
            ty = tyof(t)
            w = WIDTH.get(n or ty)
            return self.const(t.a[0] % (1 << w), w)
        try:
            ty = t.a[0] if o in ('add', 'sub', 'mul', 'shl', 'shr', 'band', 'bor', 'bxor', 'bnot') else tyof(t)
        except Exception:
            ty = n
        w = WIDTH.get(ty)
        if w is None:
            raise No('type of %s' % show(t, 3)[:60])
        B = self.B
        if o in ('shl', 'shr'):
            s = self.num(t.a[2])
            if not 0 <= s < w:
                raise No('shift amount %d' % s)
            x = self.w(t.a[1], ty)
            if o == 'shl':
                return [0] * s + x[:w - s]
            fill = x[-1] if signed(ty) else 0
            return x[s:] + [fill] * s
        if o in ('band', 'bor', 'bxor'):
            a, b = self.w(t.a[1], ty), self.w(t.a[2], ty)
            f = {'band': B.AND, 'bor': B.OR, 'bxor': B.XOR}[o]
            return [f(x, y) for x, y in zip(a, b)]
        if o == 'bnot':
            return [B.NOT(x) for x in self.w(t.a[1], ty)]
        if o in ('add', 'sub') and not (t in self.env):
            a, b = self.w(t.a[1], ty), self.w(t.a[2], ty)
            c = 0 if o == 'add' else 1
            out = []
            for x, y in zip(a, b):
                if o == 'sub':
                    y = B.NOT(y)
                s = B.XOR(x, y)
                out.append(B.XOR(s, c))
                c = B.OR(B.AND(x, y), B.AND(s, c))
            return out
        if o == 'cast':
            f, to = t.a[0], t.a[1]
            if f in WIDTH and to in WIDTH:
                x = self.w(t.a[2], f)
                k = WIDTH[to]
                if k <= len(x):
                    return x[:k]
                return x + [(x[-1] if signed(f) else 0)] * (k - len(x))
            if f == 'bool':
                return [self.b(t.a[2])] + [0] * (WIDTH[to] - 1)
        if o == 'ite':
            c = self.b(t.a[0])
            return [B.ite(c, x, y) for x, y in zip(self.w(t.a[1], ty), self.w(t.a[2], ty))]
        if o in ('sel', 'fld', 'sym', 'load'):
            if opaque(t):
                raise No('loop state')
            k = canon(t)
            return [B.v((k, i)) for i in range(w)]
        raise No('operator %s' % o)

    def b(self, c):
        if c is TRUE:
            return 1
        if c is FALSE:
            return 0
        B = self.B
        o = c.op
        if o == 'not':
            return B.NOT(self.b(c.a[0]))
        if o in ('and', 'or'):
            r = 1 if o == 'and' else 0
            for x in c.a:
                y = self.b(x)
                r = B.AND(r, y) if o == 'and' else B.OR(r, y)
            return r
        if o == 'ite':
            return B.ite(self.b(c.a[0]), self.b(c.a[1]), self.b(c.a[2]))
        try:
            return int(self.truth(c))
        except No:
            pass
        if self.F is not None:
            d = self.F.cond(c)
            if d is TRUE or d is FALSE:
                return int(d is TRUE)
        if o == 'eq':
            if tyof(c.a[0]) == 'bool':
                return B.NOT(B.XOR(self.b(c.a[0]), self.b(c.a[1])))
            ty = tyof(c.a[0]) if c.a[0].op != 'int' else tyof(c.a[1])
            if any(x.op in ('div', 'rem', 'len') for s in c.a for x in subterms(s) if s.op not in ('band', 'bor', 'bxor', 'shl', 'shr', 'bnot')) and ty == 'usize' and not any(x.op in ('band', 'bor', 'shl', 'shr', 'bxor') for s in c.a for x in subterms(s)):
                return B.v(('c', c.id))
            r = 1
            for x, y in zip(self.w(c.a[0], ty), self.w(c.a[1], ty)):
                r = B.AND(r, B.NOT(B.XOR(x, y)))
            return r
        if o == 'lt':
            ty = tyof(c.a[0]) if c.a[0].op != 'int' else tyof(c.a[1])
        if o == 'lt' and (ty in ('u8', 'u16', 'u32', 'u64', 'u128') or any(x.op in ('band', 'shr', 'shl') for x in subterms(c))):
            r = 0
            for x, y in zip(self.w(c.a[0], ty), self.w(c.a[1], ty)):
                r = B.ite(B.XOR(x, y), y, r)
            return r
        return B.v(('c', c.id))


def equal(a, b, pre=TRUE, boolean=False):
    """None when pre => a == b for every operand value; otherwise the reason it is not established"""
    n = 0
    for la, x0 in cells(a):
        for lb, y in cells(b):
            n += 1
            x = x0
            if n > 400:
                return 'too many cases'
            c = AND(pre, *(la + lb))
            if c is FALSE or x is y:
                continue
            F = Facts().plus(c)
            if contradictory(F, c):
                continue
            for l in (c.a if c.op == 'and' else (c,)):
                # a position known to be another one
                if l.op == 'eq':
                    for u, v in (l.a, l.a[::-1]):
                        if u.op == 'sym' and tyof(u) == 'usize' and u not in subterms(v):
                            f = {u: v}.get
                            x, y, c = subst(x, f), subst(y, f), subst(c, f)
                            break
            if c is FALSE or x is y:
                continue
            r = leaf(x, y, c, boolean)
            if r is not None:
                return r
    return None


def never(c):
    """c is false for all operand values, seen as a boolean function of the bits of the words in it"""
    try:
        return Words({}).b(c) == 0
    except No:
        return False


def contradictory(F, c):
    if F.bad([]):
        return True
    from .decide import same
    return same(c, FALSE)[0] == 'HOLD'


def differ(env):
    w = Why('differs for %s' % {show(k, 4): v for k, v in env.items()})
    w.env = env
    return w


def ruled(c, env):
    """the case cannot occur with these remainders"""
    from .decide import same
    c = subst(c, {k: mkint(v, k.a[0]) for k, v in env.items()}.get)
    return c is FALSE or same(c, FALSE)[0] == 'HOLD'


def leaf(x, y, c, boolean):
    bs = bases([x, y])
    sp = 1
    for b in bs:
        sp *= b.a[2].a[0]
    if sp > 4096:
        return 'shift amounts'
    lits = c.a if c.op == 'and' else (c,)
    F = Facts().plus(c)
    for vals in itertools.product(*[range(b.a[2].a[0]) for b in bs]):
        env = dict(zip(bs, vals))
        W = Words(env, F)
        out = False
        for l in lits:
            try:
                if not W.truth(l):
                    out = True
                    break
            except No:
                pass
        if out:
            continue
        try:
            if boolean:
                if W.b(x) != W.b(y) and not ruled(c, env):
                    return differ(env)
                continue
            ty = None
            for t in (x, y):
                if t.op != 'int':
                    try:
                        ty = t.a[0] if t.op in ('shl', 'shr', 'band', 'bor', 'bxor', 'bnot', 'add', 'sub') else tyof(t)
                    except Exception:
                        pass
            if ty is None:
                ty = tyof(x)
            if W.w(x, ty) != W.w(y, ty) and not ruled(c, env):
                return differ(env)
        except No as e:
            return str(e)
    return None
