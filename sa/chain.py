"""Singly linked chains seen as positions: the k-th link is PLACE(k) (0 is the head), the node it refers to NODE(k), and NODE(k) is
null exactly when k >= n.  Pointer-valued loop state becomes an ordinary counter."""
from .term import *
from .loops import resub

N = sym('#n', 'usize')
ONE = mkint(1)


def NODE(k):
    return raw('node', k)


def PLACE(k):
    return raw('place', k)


def inc(k):
    return BIN('add', 'usize', k, ONE)


def strip(t):
    while t.op in ('ptrcast', 'transmute') and isinstance(t.a[-1], T):
        t = t.a[-1]
    return t


def isnull(z):
    z = strip(z)
    return isint(z) and z.a[0] == 0 or z.op == 'ptrint' and (z.a[0] == 0 or isinstance(z.a[0], T) and isint(z.a[0]) and z.a[0].a[0] == 0)


class Chain:
    def __init__(self, r, head, nxt, linkref=lambda s: False):
        """head(ref) -> is this the head link; nxt: path of the next link inside a node"""
        self.head, self.nxt, self.linkref = head, nxt, linkref
        self.kind = {}
        self.memo = {}
        self.loops = r.loops
        for _ in range(6):
            new = dict(self.kind)
            self.memo = {}
            for L in r.loops.values():
                for k, (p, i, s) in L.phis.items():
                    ks = {self.kindof(self.conv(i)), self.kindof(self.conv(s))} - {None}
                    if len(ks) == 1:
                        new[(p.a[0], p.a[1])] = ks.pop()
            if new == self.kind:
                break
            self.kind = new
        self.memo = {}
        self.L = {}
        for lid, L in r.loops.items():
            import copy
            M = copy.copy(L)
            M.phis = {}
            for k, (p, i, s) in L.phis.items():
                q, a, b = self.conv(p), self.conv(i), self.conv(s)
                if q.op in ('node', 'place'):
                    q = q.a[0]
                    a = a.a[0] if a.op in ('node', 'place') else a
                    b = b.a[0] if b.op in ('node', 'place') else b
                M.phis[k] = (q, a, b)
            M.exits = [(self.conv(e[0]),) + tuple(e[1:]) for e in L.exits]
            self.L[lid] = M

    def kindof(self, t):
        if t.op in ('node', 'place'):
            return t.op
        if t.op == 'ite':
            return self.kindof(t.a[1]) or self.kindof(t.a[2])
        return None

    def conv(self, t):
        return subst(t, self.f, self.memo)

    def ptr(self, x):
        """converted pointer operand, casts removed"""
        return strip(x)

    def f(self, x):
        o = x.op
        if o in ('phi', 'fin'):
            k = self.kind.get((x.a[0], x.a[1]))
            if k:
                return raw(k, raw(o, x.a[0], x.a[1], 'usize'))
            return None
        if o == 'ref':
            root, path = x.a
            if self.head(root, path):
                return PLACE(mkint(0))
            if root[0] == 'mem' and isinstance(root[1], T):
                b = strip(self.conv(root[1]))
                path = tuple(tuple(self.conv(y) if isinstance(y, T) else y for y in q) for q in path)
                if b.op == 'place' and not path:
                    return b
                return self.at(b, path)
            return None
        if o == 'sym' and isinstance(x.a[1], str) and self.linkref(x.a[1]):
            return PLACE(sym('#at', 'usize'))
        if o == 'scalar' and isinstance(x.a[1], str) and x.a[1].startswith('core::option::Option<&') and x.a[0] == 0:
            return NONE
        if o == 'load':
            return raw('load', strip(self.conv(x.a[0])))
        if o == 'tcall' and isinstance(x.a[1], T) and x.a[1].op == 'op' and x.a[1].a[0] == 'link':
            return self.link(strip(self.conv(x.a[1].a[1])))
        if o == 'ite':
            c, a, b = (self.conv(y) for y in x.a)
            return self.ite(c, a, b)
        if o in ('ptrcast', 'transmute'):
            y = strip(self.conv(x.a[-1]))
            if y.op in ('node', 'place'):
                return raw('addr', y.a[0]) if o == 'transmute' and x.a[1] == 'usize' else y
            return None
        if o == 'eq':
            a, b = self.conv(x.a[0]), self.conv(x.a[1])
            for p, q in ((a, b), (b, a)):
                z = strip(q)
                null = isint(z) and z.a[0] == 0 or z.op == 'ptrint' and (isint(z.a[0]) and z.a[0].a[0] == 0 or z.a[0] == 0)
                if null:
                    r = self.isnull(p)
                    if r is not None:
                        return r
            return EQ(a, b)
        return None

    def isnull(self, p):
        if p.op in ('addr', 'node'):
            return NOT(LT(p.a[0], N))
        if p.op == 'ite':
            a, b = self.isnull(p.a[1]), self.isnull(p.a[2])
            if a is not None and b is not None:
                return ITE(p.a[0], a, b)
        return None

    def ite(self, c, a, b):
        if a.op == b.op and a.op in ('node', 'place'):
            return raw(a.op, ITE(c, a.a[0], b.a[0]))
        # the null pointer is the node past the last
        if a.op == 'node' and isnull(b):
            return NODE(ITE(c, a.a[0], N))
        if b.op == 'node' and isnull(a):
            return NODE(ITE(c, N, b.a[0]))
        return ITE(c, a, b)

    def at(self, b, path):
        if b.op == 'ite':
            return self.ite(b.a[0], self.at(b.a[1], path), self.at(b.a[2], path))
        if b.op == 'node' and path == self.nxt:
            return PLACE(inc(b.a[0]))
        return raw('ref', ('mem', b), path)

    def link(self, p):
        if p.op == 'place':
            return NODE(p.a[0])
        if p.op == 'ite':
            return self.ite(p.a[0], self.link(p.a[1]), self.link(p.a[2]))
        return raw('tcall', 'ptr', raw('op', 'link', p))


def lockstep(L, same, HOLD):
    """counters of one loop that move together: {phi: other phi + constant}"""
    out = {}
    ps = [(p, i, s) for p, i, s in L.phis.values() if tyof(p) == 'usize']
    for b in range(1, len(ps)):
        for a in range(b):
            (pa, ia, sa), (pb, ib, sb) = ps[a], ps[b]
            if pa in out:
                continue
            if ia is ib:
                c = mkint(0)
            elif isint(ia) and isint(ib):
                c = mkint(ib.a[0] - ia.a[0]) if ib.a[0] >= ia.a[0] else None
            else:
                c = None
            if c is None:
                continue
            eqv = BIN('add', 'usize', pa, c)
            t = subst(sb, lambda x: eqv if x is pb else None)
            u = subst(sa, lambda x: eqv if x is pb else None)
            if same(t, BIN('add', 'usize', u, c))[0] == HOLD:
                out[pb] = eqv
                break
    return out
