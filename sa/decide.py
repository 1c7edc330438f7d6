"""Deciding whether two value numbers denote the same function of the inputs.

Three verdicts.  HOLD: the two values were brought to the same normal form, in every cell of a
partition of the inputs induced by the conditions occurring in them.  VIOLATED: the normal forms
differ and a valuation of the free inputs separates the two expressions (the valuation is a
diagnosis attached to the report; it also keeps an incomplete normal form from raising an alarm).
UNDECIDED: neither; the obligation is reported as such in the evidence and is never an alarm.

Normal form of machine integers: exact integer polynomials over atoms, where wrap-around,
truncation, right shift and masking by 2^k-1 are expressed through floor(p / 2^k) atoms with
canonical arguments, so `lo + 2^w*hi`, carries and overflow flags all live in one polynomial ring.
Normal form of abstract numbers T: polynomials of a commutative ring."""
import random
from fractions import Fraction
from .term import *
from .models import TOP
from . import lin

HOLD, VIOLATED, UNDECIDED = 'HOLD', 'VIOLATED', 'UNDECIDED'


# ================================================================ exact integer polynomials
class Poly:
    __slots__ = ('m',)

    def __init__(self, m):
        self.m = m

    def key(self):
        return tuple(sorted(self.m.items()))

    def __eq__(self, o):
        return self.m == o.m

    def const(self):
        if not self.m:
            return 0
        if len(self.m) == 1 and () in self.m:
            return self.m[()]
        return None


def pc(c):
    return Poly({(): c} if c else {})


def patom(a):
    return Poly({(a,): 1})


def padd(p, q, k=1):
    m = dict(p.m)
    for a, c in q.m.items():
        v = m.get(a, 0) + k * c
        if v:
            m[a] = v
        else:
            m.pop(a, None)
    return Poly(m)


class TooBig(Exception):
    pass


def pmul(p, q):
    if len(p.m) * len(q.m) > 4000:
        raise TooBig()
    m = {}
    for a, c in p.m.items():
        for b, d in q.m.items():
            k = tuple(sorted(a + b))
            # boolean atoms are idempotent
            if len(k) > 1:
                kk = []
                for x in k:
                    if x in IDEMP and kk and kk[-1] == x:
                        continue
                    kk.append(x)
                k = tuple(kk)
            v = m.get(k, 0) + c * d
            if v:
                m[k] = v
            else:
                m.pop(k, None)
    return Poly(m)


def pscale(p, k):
    return Poly({a: c * k for a, c in p.m.items()}) if k else pc(0)


IDEMP = set()
_atom_ids = {}
_atom_rng = {}


def atom_id(key, lo, hi, idem=False):
    i = _atom_ids.get(key)
    if i is None:
        i = len(_atom_ids)
        _atom_ids[key] = i
        _atom_rng[i] = (lo, hi)
        if idem:
            IDEMP.add(i)
    return i


def floor_div(p, lo, hi, k):
    """floor(p / 2^k) for an integer polynomial of range [lo, hi]"""
    if k == 0:
        return p, lo, hi
    M = 1 << k
    q, r = {}, {}
    for a, c in p.m.items():
        d, e = divmod(c, M)
        # symmetric residues: small differences keep small coefficients
        if 2 * e > M:
            e -= M
            d += 1
        if e == 0:
            q[a] = d
        else:
            if a == () and False:
                pass
            if d:
                q[a] = d
            r[a] = e
    flo, fhi = lo >> k, hi >> k
    if not r:
        return Poly(q), flo, fhi
    rp = Poly(r)
    if flo == fhi:
        return pc(flo), flo, fhi
    # common power of two in r: floor(2^j s / 2^k) = floor(s / 2^(k-j))
    j = k
    for c in r.values():
        z = (c & -c).bit_length() - 1
        j = min(j, z)
    kk = k - j
    if j:
        rp = Poly({a: c >> j for a, c in r.items()})
    # single nested floor atom: floor(floor(s/2^a)/2^b)
    if len(rp.m) == 1:
        (mono, c), = rp.m.items()
        if c == 1 and len(mono) == 1:
            key = _atom_key(mono[0])
            if key and key[0] == 'fl':
                a = atom_id(('fl', key[1], key[2] + kk), flo, fhi)
                return padd(Poly(q), patom(a)), flo, fhi
    if kk == 0:
        return padd(Poly(q), rp), flo, fhi
    rl, rh = (flo, fhi) if not q else (None, None)
    x = y = 0
    for mono, c in rp.m.items():
        b = mono_range(mono)
        if b is None:
            x = None
            break
        x += min(c * b[0], c * b[1])
        y += max(c * b[0], c * b[1])
    if x is not None:
        x, y = x >> kk, y >> kk
        rl, rh = (x, y) if rl is None else (max(x, rl), min(y, rh))
        if rl == rh:
            return padd(Poly(q), pc(rl)), flo, fhi
    if (rl, rh) == (-1, 0):
        # a borrow: -floor(p/K) = floor((K-1-p)/K), a 0/1 atom
        n = padd(pscale(rp, -1), pc((1 << kk) - 1))
        a = atom_id(('fl', n.key(), kk), 0, 1)
        IDEMP.add(a)
        return padd(Poly(q), pscale(patom(a), -1)), flo, fhi
    a = atom_id(('fl', rp.key(), kk), rl, rh)
    if (rl, rh) == (0, 1):
        IDEMP.add(a)
    return padd(Poly(q), patom(a)), flo, fhi


_rev = {}


def _atom_key(i):
    if len(_rev) != len(_atom_ids):
        _rev.clear()
        for k, v in _atom_ids.items():
            _rev[v] = k
    return _rev.get(i)


def wrapto(p, lo, hi, n):
    w = WIDTH[n]
    tlo, thi = irange(n)
    if tlo <= lo and hi <= thi:
        return p, lo, hi
    if not signed(n):
        f, _, _ = floor_div(p, lo, hi, w)
        return padd(p, pscale(f, 1 << w), -1), 0, thi
    # signed: ((p + 2^(w-1)) mod 2^w) - 2^(w-1)
    h = 1 << (w - 1)
    s = padd(p, pc(h))
    f, _, _ = floor_div(s, lo + h, hi + h, w)
    return padd(p, pscale(f, 1 << w), -1), tlo, thi


class Norm:
    """normaliser under a set of assumed atoms (term -> bool)"""

    def __init__(self):
        self.memo = {}

    def ip(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._ip(t)
            if len(r[0].m) > 3000:
                raise TooBig()
            self.memo[t] = r
        return r

    def leaf(self, t, n):
        lo, hi = irange(n) if n in WIDTH else (None, None)
        r = rng(t)
        if r:
            lo, hi = r
        if lo is None:
            lo, hi = -(1 << 200), 1 << 200
        return patom(atom_id(('t', self.canon(t)), lo, hi)), lo, hi

    def canon(self, t):
        """structural key of an opaque integer term, with normalised integer arguments"""
        if not t.a:
            return t
        out = []
        for x in t.a:
            if isinstance(x, T):
                ty = tyof(x)
                if ty in WIDTH and not isint(x):
                    out.append(('p', self.ip(x)[0].key()))
                else:
                    out.append(self.canon(x) if x.op not in ('sym', 'agg') else x)
            else:
                out.append(x)
        return (t.op,) + tuple(out)

    def bp(self, c):
        """0/1 polynomial of a boolean term"""
        if c is TRUE:
            return pc(1)
        if c is FALSE:
            return pc(0)
        if c.op == 'not':
            return padd(pc(1), self.bp(c.a[0]), -1)
        if c.op == 'and':
            p = pc(1)
            for x in c.a:
                p = pmul(p, self.bp(x))
            return p
        if c.op == 'or':
            p = pc(1)
            for x in c.a:
                p = pmul(p, padd(pc(1), self.bp(x), -1))
            return padd(pc(1), p, -1)
        if c.op == 'xorb':
            a, b = self.bp(c.a[0]), self.bp(c.a[1])
            return padd(padd(a, b), pmul(a, b), -2)
        if c.op == 'ite':
            k = self.bp(c.a[0])
            return padd(pmul(k, self.bp(c.a[1])), pmul(padd(pc(1), k, -1), self.bp(c.a[2])))
        if c.op in ('addovf', 'subovf', 'mulovf') and c.a[0] in WIDTH:
            n = c.a[0]
            a, alo, ahi = self.ip(c.a[1])
            b, blo, bhi = self.ip(c.a[2])
            if not signed(n) and c.op == 'addovf':
                f, lo, hi = floor_div(padd(a, b), alo + blo, ahi + bhi, WIDTH[n])
                return self.idem(f)
        if c.op == 'lt':
            n = tyof(c.a[0]) or tyof(c.a[1])
            if n in WIDTH:
                a, alo, ahi = self.ip(c.a[0])
                b, blo, bhi = self.ip(c.a[1])
                # a < b  <=>  floor((a - b) / 2^K) = -1 with K the common width
                d = padd(a, b, -1)
                if (not signed(n)) and alo >= 0 and blo >= 0:
                    # unsigned wrap-around tests: (x + y) mod 2^w < y  <=> carry
                    w = WIDTH[n]
                    for m, co in list(a.m.items()):
                        if co == -(1 << w) and len(m) == 1 and m[0] in IDEMP:
                            full = padd(a, pscale(patom(m[0]), 1 << w))   # x + y
                            x = padd(full, b, -1)
                            key = _atom_key(m[0])
                            if key[0] == 'fl' and key[2] == w and key[1] == full.key() and self.nonneg_small(x, w):
                                return patom(m[0])
                f, lo, hi = floor_div(d, alo - bhi, ahi - blo, 200)
                f2 = pscale(f, -1)
                if len(f2.m) == 1:
                    (mono, co), = f2.m.items()
                    if co == -1 and len(mono) == 1:
                        # b in {0,-1}: represent as boolean atom
                        k2 = _atom_key(mono[0])
                        a_ = atom_id(('neg', k2), 0, 1, True)
                        return patom(a_)
                return f2
        if c.op == 'eq':
            n = tyof(c.a[0]) or tyof(c.a[1])
            if n in WIDTH:
                a = self.ip(c.a[0])[0]
                b = self.ip(c.a[1])[0]
                d = padd(a, b, -1)
                k = d.const()
                if k is not None:
                    return pc(1 if k == 0 else 0)
                k1, k2 = d.key(), pscale(d, -1).key()
                return patom(atom_id(('eqz', min(k1, k2)), 0, 1, True))
        return patom(atom_id(('b', self.canon(c)), 0, 1, True))

    def nonneg_small(self, x, w):
        # x is a single atom / value of range [0, 2^w)
        if len(x.m) == 1:
            (mono, c), = x.m.items()
            if c == 1 and len(mono) == 1:
                r = _atom_rng[mono[0]]
                return r[0] is not None and 0 <= r[0] and r[1] < (1 << w)
        return False

    def idem(self, f):
        return f

    def _ip(self, t):
        o = t.op
        if o == 'int':
            return pc(t.a[0]), t.a[0], t.a[0]
        if o in ('add', 'sub', 'mul') and t.a[0] in WIDTH:
            a, alo, ahi = self.ip(t.a[1])
            b, blo, bhi = self.ip(t.a[2])
            if o == 'add':
                return wrapto(padd(a, b), alo + blo, ahi + bhi, t.a[0])
            if o == 'sub':
                return wrapto(padd(a, b, -1), alo - bhi, ahi - blo, t.a[0])
            ps = [x * y for x in (alo, ahi) for y in (blo, bhi)]
            return wrapto(pmul(a, b), min(ps), max(ps), t.a[0])
        if o == 'neg' and t.a[0] in WIDTH:
            a, lo, hi = self.ip(t.a[1])
            return wrapto(pscale(a, -1), -hi, -lo, t.a[0])
        if o == 'bnot' and t.a[0] in WIDTH:
            a, lo, hi = self.ip(t.a[1])
            p = padd(pc(-1), a, -1)
            n = t.a[0]
            if signed(n):
                return wrapto(p, -1 - hi, -1 - lo, n)
            return padd(pc(irange(n)[1]), a, -1), irange(n)[1] - hi, irange(n)[1] - lo
        if o == 'shl' and t.a[0] in WIDTH and isint(t.a[2]):
            k = t.a[2].a[0]
            if 0 <= k < WIDTH[t.a[0]]:
                a, lo, hi = self.ip(t.a[1])
                return wrapto(pscale(a, 1 << k), lo << k, hi << k, t.a[0])
        if o == 'shr' and t.a[0] in WIDTH and isint(t.a[2]):
            k = t.a[2].a[0]
            if 0 <= k < WIDTH[t.a[0]]:
                a, lo, hi = self.ip(t.a[1])
                return floor_div(a, lo, hi, k)
        if o == 'div' and t.a[0] in WIDTH and not signed(t.a[0]) and isint(t.a[2]):
            c = t.a[2].a[0]
            if c > 0 and c & (c - 1) == 0:
                a, lo, hi = self.ip(t.a[1])
                return floor_div(a, lo, hi, c.bit_length() - 1)
        if o == 'rem' and t.a[0] in WIDTH and not signed(t.a[0]) and isint(t.a[2]):
            c = t.a[2].a[0]
            if c > 0 and c & (c - 1) == 0:
                return self.mask(t.a[1], c.bit_length() - 1)
        if o == 'band' and t.a[0] in WIDTH and not signed(t.a[0]):
            for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if isint(y):
                    c = y.a[0]
                    if c & (c + 1) == 0:
                        return self.mask(x, c.bit_length())
        if o == 'bor' and t.a[0] in WIDTH and not signed(t.a[0]):
            # disjoint bits: x | (y << k) with x < 2^k
            a, alo, ahi = self.ip(t.a[1])
            b, blo, bhi = self.ip(t.a[2])
            for (p, plo, phi), (q, qlo, qhi) in (((a, alo, ahi), (b, blo, bhi)), ((b, blo, bhi), (a, alo, ahi))):
                k = phi.bit_length()
                if q.m and all(c % (1 << k) == 0 for c in q.m.values()) and plo >= 0:
                    return padd(p, q), max(plo, qlo), phi + qhi
        if o == 'cast':
            f, n, x = t.a
            if n in WIDTH:
                if f == 'bool':
                    return self.bp(x), 0, 1
                if f in WIDTH:
                    a, lo, hi = self.ip(x)
                    return wrapto(a, lo, hi, n)
        if o == 'ite':
            c = self.bp(t.a[0])
            a, alo, ahi = self.ip(t.a[1])
            b, blo, bhi = self.ip(t.a[2])
            return padd(pmul(c, a), pmul(padd(pc(1), c, -1), b)), min(alo, blo), max(ahi, bhi)
        n = tyof(t)
        return self.leaf(t, n)

    def mask(self, x, k):
        a, lo, hi = self.ip(x)
        if 0 <= lo and hi < (1 << k):
            return a, lo, hi
        f, _, _ = floor_div(a, lo, hi, k)
        return padd(a, pscale(f, 1 << k), -1), 0, (1 << k) - 1

    # ------------------------------------------------------------ abstract numbers T
    def tp(self, t):
        """commutative-ring polynomial of a T-valued term"""
        key = ('T', t)
        r = self.memo.get(key)
        if r is None:
            r = self._tp(t)
            self.memo[key] = r
        return r

    def _tp(self, t):
        if t.op == 't':
            op = t.a[0]
            if op in ('add', 'sub', 'mul'):
                a, b = self.tp(t.a[1]), self.tp(t.a[2])
                return padd(a, b) if op == 'add' else padd(a, b, -1) if op == 'sub' else pmul(a, b)
            if op == 'neg':
                return pscale(self.tp(t.a[1]), -1)
        if t.op == 'tconst' and t.a[0] in ('zero', 'one'):
            return pc(0 if t.a[0] == 'zero' else 1)
        if t.op == 'ite':
            c = self.bp(t.a[0])
            return padd(pmul(c, self.tp(t.a[1])), pmul(padd(pc(1), c, -1), self.tp(t.a[2])))
        return patom(atom_id(('T', self.tcanon(t)), None, None))

    def tcanon(self, t):
        if t.op == 't' or t.op in ('call', 'sel', 'fld', 'agg'):
            out = []
            for x in t.a:
                if isinstance(x, T):
                    ty = tyof(x)
                    if ty in WIDTH:
                        out.append(('p', self.ip(x)[0].key()))
                    elif ty == 'bool':
                        out.append(('q', self.bp(x).key()))
                    elif x.op == 't' or x.op == 'tconst':
                        out.append(('T', self.tp(x).key()))
                    else:
                        out.append(self.tcanon(x))
                else:
                    out.append(x)
            return (t.op,) + tuple(out)
        return t


# ================================================================ case splitting
def bool_atoms(t, acc, seen=None):
    """boolean atoms that gate a value, outermost first"""
    if seen is None:
        seen = set()
    if t in seen:
        return
    seen.add(t)
    o = t.op
    if o == 'ite':
        cond_atoms(t.a[0], acc)
        bool_atoms(t.a[1], acc, seen)
        bool_atoms(t.a[2], acc, seen)
    elif o in ('not', 'and', 'or', 'xorb') or (tyof(t) == 'bool'):
        cond_atoms(t, acc)
    for x in t.a:
        if isinstance(x, T):
            bool_atoms(x, acc, seen)


def cond_atoms(c, acc):
    if c.op in ('and', 'or', 'xorb', 'not'):
        for x in c.a:
            cond_atoms(x, acc)
    elif c.op == 'ite':
        for x in c.a:
            cond_atoms(x, acc)
    elif c.op == 'bool':
        pass
    elif c not in acc:
        acc.append(c)


class Ctx:
    """assumed atoms with an inconsistency test (intervals, order graph, switch domains)"""

    def __init__(self, facts=()):
        self.facts = list(facts)

    def add(self, atom, val):
        return Ctx(self.facts + [(atom, val)])

    def intervals(self):
        self.inconsistent()
        out = {}
        for t, r in self.iv.items():
            if isint(t):
                continue
            b = rng(t)
            if b and (r[0] is not None and r[0] > b[0] or r[1] is not None and r[1] < b[1]):
                out[t] = tuple(r)
        return out

    def refuted(self, extra=()):
        """the facts (and extra polynomial rows p >= 0) are linearly inconsistent"""
        nm = Norm()
        rows = []
        lit = {}
        for a, v in self.facts:
            lit[a] = mkbool(v)

        def res(t):
            # facts inside other facts
            return subst(t, lambda x: lit.get(x) if x in lit and x.op in ('sym', 'insw', 'fld', 'tcall', 'sel', 'lt', 'eq', 'addovf') else None)
        splits = [[]]
        try:
            for a, v in self.facts:
                if a.op in ('lt', 'eq'):
                    x, y = res(a.a[0]), res(a.a[1])
                    n = tyof(x) or tyof(y)
                    if n not in WIDTH:
                        continue
                    d = padd(nm.ip(y)[0], nm.ip(x)[0], -1)     # y - x
                    if a.op == 'lt':
                        rows.append(padd(d, pc(-1)) if v else pscale(d, -1))
                    elif v:
                        rows.append(d)
                        rows.append(pscale(d, -1))
                    elif len(splits) <= 4:
                        splits = [s + [r] for s in splits for r in (padd(d, pc(-1)), padd(pscale(d, -1), pc(-1)))]
                elif a.op == 'addovf' and a.a[0] in WIDTH and not signed(a.a[0]):
                    p = padd(nm.ip(res(a.a[1]))[0], nm.ip(res(a.a[2]))[0])
                    M = 1 << WIDTH[a.a[0]]
                    rows.append(padd(p, pc(-M)) if v else padd(pscale(p, -1), pc(M - 1)))
                else:
                    p = nm.bp(a)
                    if len(p.m) == 1 and list(p.m.values()) == [1] and () not in p.m:
                        d = padd(p, pc(-1 if v else 0))
                        rows.append(d)
                        rows.append(pscale(d, -1))
            for e in extra:
                rows.append(e(nm, res))
            for s in splits:
                if not split_infeasible(close(rows + s)):
                    return False
            return True
        except (TooBig, KeyError, TypeError, AttributeError):
            return False

    def inconsistent(self):
        iv = self.iv = {}

        def get(t):
            if t not in iv:
                r = rng(t)
                iv[t] = list(r) if r else [None, None]
            return iv[t]

        def hi(t, v):
            r = get(t)
            if r[1] is None or v < r[1]:
                r[1] = v

        def lo(t, v):
            r = get(t)
            if r[0] is None or v > r[0]:
                r[0] = v
        sw = {}
        edges = []  # (a, b, strict) a <= b / a < b
        neq = []
        for a, v in self.facts:
            if a.op == 'lt':
                x, y = a.a
                if v:
                    edges.append((x, y, 1))
                else:
                    edges.append((y, x, 0))
            elif a.op == 'eq':
                x, y = a.a
                if v:
                    edges.append((x, y, 0))
                    edges.append((y, x, 0))
                else:
                    neq.append((x, y))
            elif a.op == 'insw':
                d, vals, neg = a.a
                dom = discr_domain(d)
                pos = (not neg) == v
                s = sw.setdefault(d, [None, set()])
                if pos:
                    s[0] = set(vals) if s[0] is None else s[0] & set(vals)
                else:
                    s[1] |= set(vals)
                if dom is not None:
                    s[0] = (set(dom) if s[0] is None else s[0]) & set(dom)
        for d, (p, n) in sw.items():
            if p is not None and not (p - n):
                return True
        for _ in range(len(edges) + 2):
            ch = False
            for x, y, st in edges:
                rx, ry = get(x), get(y)
                if ry[1] is not None:
                    v = ry[1] - st
                    if rx[1] is None or v < rx[1]:
                        rx[1] = v
                        ch = True
                if rx[0] is not None:
                    v = rx[0] + st
                    if ry[0] is None or v > ry[0]:
                        ry[0] = v
                        ch = True
            for x, y in neq:
                for p, q in ((x, y), (y, x)):
                    rq = get(q)
                    if rq[0] is not None and rq[0] == rq[1]:
                        rp_ = get(p)
                        if rp_[0] == rq[0] and rp_[0] is not None:
                            rp_[0] += 1
                            ch = True
                        if rp_[1] == rq[0] and rp_[1] is not None:
                            rp_[1] -= 1
                            ch = True
            if not ch:
                break
        for r in iv.values():
            if r[0] is not None and r[1] is not None and r[0] > r[1]:
                return True
        # order graph: a strict cycle
        nodes = {}
        adj = {}
        for x, y, st in edges:
            adj.setdefault(x, []).append((y, st))
        for s0 in adj:
            best = {s0: 0}
            stk = [(s0, 0)]
            while stk:
                u, d = stk.pop()
                for v, st in adj.get(u, ()):
                    nd = max(d, st)
                    if v is s0 and nd:
                        return True
                    if v not in best or best[v] < nd:
                        best[v] = nd
                        stk.append((v, nd))
            # equality forced both ways but assumed different
            for x, y in neq:
                if x is s0 and y in best:
                    back = {y}
                    st2 = [y]
                    while st2:
                        u = st2.pop()
                        for v, _ in adj.get(u, ()):
                            if v not in back:
                                back.add(v)
                                st2.append(v)
                    if x in back:
                        return True
        return False


def mono_range(mono):
    lo, hi = 1, 1
    for a in mono:
        r = _atom_rng.get(a, (None, None))
        if r[0] is None:
            return None
        c = [lo * r[0], lo * r[1], hi * r[0], hi * r[1]]
        lo, hi = min(c), max(c)
    return lo, hi


def split_infeasible(rows, depth=5):
    """no integer solution, with the 0/1 carries decided by cases"""
    if lin.infeasible(rows):
        return True
    if depth == 0:
        return False
    ks = []
    for co, c in rows:
        for m in co:
            if len(m) == 1 and m not in ks and _atom_rng.get(m[0]) == (0, 1) and (_atom_key(m[0]) or ('',))[0] == 'fl':
                ks.append(m)
    if not ks or len(ks) > 6:
        return False
    m = ks[0]
    for v in (0, 1):
        r2 = []
        for co, c in rows:
            if m in co:
                co = dict(co)
                c = c + v * co.pop(m)
            r2.append((co, c))
        if not split_infeasible(r2, depth - 1):
            return False
    return True


def close(rows):
    """rows plus the range and definition of every atom occurring in them"""
    out = [lin.poly_row(p) for p in rows]
    todo = [k for p in rows for k in p.m]
    seen = set()
    while todo:
        mono = todo.pop()
        if mono == () or mono in seen:
            continue
        seen.add(mono)
        lo, hi = 1, 1
        for a in mono:
            r = _atom_rng.get(a, (None, None))
            if r[0] is None or lo is None:
                lo = hi = None
                break
            c = [lo * r[0], lo * r[1], hi * r[0], hi * r[1]]
            lo, hi = min(c), max(c)
        if lo is not None:
            out.append(({mono: 1}, -lo))
            out.append(({mono: -1}, hi))
        if len(mono) == 1:
            key = _atom_key(mono[0])
            if key and key[0] == 'fl':
                P = Poly(dict(key[1]))
                K = 1 << key[2]
                f = Poly({mono: K})
                d = padd(P, f, -1)          # P - K f in [0, K-1]
                out.append(lin.poly_row(d))
                out.append(lin.poly_row(padd(pscale(d, -1), pc(K - 1))))
                # the same floor with small signed coefficients has a useful range of its own
                big = {k: 1 for k, v in P.m.items() if 2 * v > K}
                if big:
                    Q = padd(P, Poly({k: K for k in big}), -1)
                    lo = hi = 0
                    for k, v in Q.m.items():
                        b = mono_range(k)
                        if b is None:
                            lo = None
                            break
                        lo += min(v * b[0], v * b[1])
                        hi += max(v * b[0], v * b[1])
                    if lo is not None:
                        g = padd(Poly({mono: 1}), Poly(big), -1)
                        out.append(lin.poly_row(padd(g, pc(-(lo // K)))))
                        out.append(lin.poly_row(padd(pscale(g, -1), pc(hi // K))))
                todo.extend(P.m)
    return out


def assume(t, atom, val, memo):
    b = mkbool(val)

    def f(x):
        if x is atom:
            return b
        if val and atom.op == 'eq' and isint(atom.a[1]) and x is atom.a[0]:
            return atom.a[1]
        if val and atom.op == 'lt':
            pass
        return None
    return subst(t, f, memo)


def leaf_equal(a, b, nm):
    if a is b:
        return True
    if a is UNDEF or b is UNDEF:
        return True       # value of an unreachable branch
    if a.op == 'agg' and b.op == 'agg':
        if a.a[:2] == b.a[:2] and len(a.a) == len(b.a):
            return all(leaf_equal(x, y, nm) for x, y in zip(a.a[2:], b.a[2:]) if isinstance(x, T))
        return False
    if eta_equal(a, b) or eta_equal(b, a):
        return True
    ta, tb = tyof(a), tyof(b)
    try:
        if ta in WIDTH or tb in WIDTH:
            return nm.ip(a)[0] == nm.ip(b)[0]
        if ta == 'bool' or tb == 'bool':
            return nm.bp(a) == nm.bp(b)
        if a.op in ('t', 'tconst') or b.op in ('t', 'tconst'):
            return nm.tp(a) == nm.tp(b)
    except TooBig:
        return False
    if a.op == b.op and len(a.a) == len(b.a):
        for x, y in zip(a.a, b.a):
            if isinstance(x, T) and isinstance(y, T):
                if not leaf_equal(x, y, nm):
                    return False
            elif x != y:
                return False
        return True
    return False


def leaf_refuted(a, b, ctx):
    """a != b is impossible in this cell"""
    if ctx.refuted():
        return True
    if a.op == 'agg' and b.op == 'agg' and a.a[:2] == b.a[:2] and len(a.a) == len(b.a):
        nm = Norm()
        return all(leaf_equal(x, y, nm) or leaf_refuted(x, y, ctx) for x, y in zip(a.a[2:], b.a[2:]) if isinstance(x, T))
    ta, tb = tyof(a), tyof(b)
    if (ta in WIDTH or tb in WIDTH) and ctx.facts:
        lt = lambda nm, res: padd(padd(nm.ip(res(b))[0], nm.ip(res(a))[0], -1), pc(-1))
        gt = lambda nm, res: padd(padd(nm.ip(res(a))[0], nm.ip(res(b))[0], -1), pc(-1))
        return ctx.refuted([lt]) and ctx.refuted([gt])
    if a.op == b.op and a.op in ('sel', 'upd', 'op', 'opout', 'sub', 'rep') and len(a.a) == len(b.a):
        nm = Norm()
        for x, y in zip(a.a, b.a):
            if isinstance(x, T) and isinstance(y, T):
                if not (leaf_equal(x, y, nm) or leaf_refuted(x, y, ctx)):
                    return False
            elif x != y:
                return False
        return True
    return False


class Budget(Exception):
    pass


def prove(a, b, ctx=None, budget=None):
    """True if a and b have equal normal forms in every consistent cell"""
    budget = budget if budget is not None else [4000]
    ctx = ctx or Ctx()
    nm = Norm()

    def go(a, b, ctx):
        budget[0] -= 1
        if budget[0] <= 0:
            raise Budget()
        if leaf_equal(a, b, nm):
            return True
        acc = []
        bool_atoms(a, acc)
        bool_atoms(b, acc)
        acc = [x for x in acc if x.op != 'bool']
        if not acc:
            return leaf_refuted(a, b, ctx)
        at = acc[0]
        while True:          # conditions nested inside a condition are decided first
            inner = []
            for x in at.a:
                if isinstance(x, T):
                    bool_atoms(x, inner)
            inner = [x for x in inner if x.op != 'bool' and x is not at]
            if not inner:
                break
            at = inner[0]
        for v in (True, False):
            c2 = ctx.add(at, v)
            if c2.inconsistent():
                continue
            m1, m2 = {}, {}
            a2, b2 = assume(a, at, v, m1), assume(b, at, v, m2)
            iv = c2.intervals()
            if iv and at.op in ('lt', 'eq'):
                a2, b2 = resimp(a2, iv), resimp(b2, iv)
            if not go(a2, b2, c2):
                return False
        return True
    try:
        return go(a, b, ctx)
    except (Budget, TooBig, RecursionError):
        return False


# ================================================================ valuations (diagnosis)
class NoEval(Exception):
    pass


class Opq:
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, Opq) and self.k == o.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return 'v%x' % (hash(self.k) & 0xffff)


def eta(v):
    """a value rebuilt from all the fields of an unknown value is that value"""
    if isinstance(v, tuple) and len(v) > 3 and v[0] == 'agg':
        fs = v[3:]
        if all(isinstance(f, Opq) and isinstance(f.k, tuple) and len(f.k) == 4 and f.k[0] == 'fld' and f.k[2] in (v[2], None) and f.k[3] == i for i, f in enumerate(fs)):
            w = fs[0].k[1]
            if isinstance(w, Opq) and all(f.k[1] == w for f in fs):
                return w
    return v


def eta_equal(g, x):
    return g.op == 'agg' and len(g.a) > 2 and x.op != 'agg' and all(
        isinstance(f, T) and f.op == 'fld' and f.a[0] is x and f.a[1] in (g.a[1], None) and f.a[2] == i for i, f in enumerate(g.a[2:]))


NATURAL = []        # non-empty while sizes and positions are compared as natural numbers (no witness wraps them)


class natural:
    def __enter__(self):
        NATURAL.append(1)

    def __exit__(self, *a):
        NATURAL.pop()


class Val:
    """one valuation of the free values; uninterpreted operations are consistent random functions"""

    small = None          # all sizes small; amounts divided by a constant k below 12k
    conc = False          # sequences as concrete short arrays (when operations have given meanings)

    def __init__(self, rnd, consts, uf_ok=None, fixed=None, vocab=None):
        self.r = rnd
        self.consts = consts
        self.tab = dict(fixed or {})
        self.uf_ok = uf_ok
        self.vocab = vocab
        self.memo = {}
        self.salt = rnd.random()
        self.used = {}
        self.base = None
        if rnd.random() < .15:
            # sizes and positions around one of the constants in play
            cs = [c for c in consts or () if 8 <= c < 1 << 32]
            self.base = rnd.choice(cs) if cs else None

    def cseq(self, t):
        e = elemty(t)
        if e is None:
            return None
        if t in LENS:
            n = self.ev(LENS[t])
            if not isinstance(n, int) or n > 64:
                raise NoEval('long')
        else:
            n = self.r.choice((0, 1, 1, 2, 2, 3, 3, 4)) if self.r.random() < .85 else self.r.randrange(4, 10)
        if e == 'bool':
            return ('arr',) + tuple(self.r.random() < .5 for _ in range(n))
        z = self.r.random()
        return ('arr',) + tuple(0 if z < .15 or self.r.random() < .2 else self.rand_int(e) for _ in range(n))

    def semop(self, t):
        f = OPSEM.get(t.a[0])
        if f is None:
            return None
        args = t.a[2:] if t.op == 'opout' else t.a[1:]
        vs = [self.ev(x) for x in args]
        e = next((elemty(x) for x in args if isinstance(x, T) and isseq(x)), None) or getattr(self, 'limb', None)
        for v in vs:
            if isinstance(v, Opq) or (isinstance(v, tuple) and any(isinstance(q, Opq) for q in v)):
                raise NoEval('operand of ' + t.a[0])
        r = f(e, *[list(v[1:]) if isinstance(v, tuple) and v[0] == 'arr' else v for v in vs])
        if r is None:
            raise NoEval('outside ' + t.a[0])
        ret, new = r
        v = new[t.a[1]] if t.op == 'opout' else ret
        return ('arr',) + tuple(v) if isinstance(v, list) else v

    def some_len(self):
        if self.base is not None and self.r.random() < .8:
            return self.base + self.r.randrange(-2, 4)
        if self.consts and self.r.random() < .12:
            c = self.r.choice(self.consts) + self.r.choice((-1, 0, 1, 2))
            if 0 <= c < 1 << 32:
                return c
        return self.r.randrange(0, 14) if self.small else self.r.choice((0, 1, 2, 3, 4, 5, 8))

    def rand_int(self, n):
        lo, hi = irange(n)
        r = self.r
        if self.conc and n == 'usize' and r.random() < 0.75:
            return r.randrange(0, 6) if r.random() < .6 else r.randrange(0, 80)
        k = r.random()
        if k < 0.25:
            c = r.choice(self.consts) + r.choice((-1, 0, 0, 1)) if self.consts else r.choice((0, 1))
            if lo <= c <= hi:
                return c
            return wrap(c, n)
        if k < 0.45:
            return r.choice([x for x in (0, 1, 2, 3, hi, hi - 1, lo, lo + 1, -1, hi >> 1, (hi >> 1) + 1) if lo <= x <= hi])
        if k < 0.6:
            v = 1 << r.randrange(WIDTH[n])
            return wrap(v + r.choice((-1, 0, 1)), n)
        if k < 0.8:
            return wrap(r.randrange(0, 9), n)
        return r.randint(lo, hi)

    def fresh(self, key, ty):
        k = (key, ty)
        v = self.tab.get(k)
        if v is None:
            if self.base is not None and ty == 'usize' and isinstance(key, T) and key.op == 'sym' and self.r.random() < .8:
                v = self.base + self.r.randrange(-2, 4)
            elif self.small and ty == 'usize' and isinstance(key, T) and key.op == 'sym':
                v = self.r.randrange(0, 12 * self.small.get(key, 1))
            elif ty == 'usize' and isinstance(key, T) and key.op == 'sym' and str(key.a[0]).startswith('#') and self.r.random() < .85:
                # iteration variables: near the lengths in play
                ls = [x for k2, x in self.tab.items() if isinstance(k2, tuple) and k2[0] == 'len']
                v = max(0, self.r.choice(ls) + self.r.choice((0, 0, 0, -1, 1))) if ls and self.r.random() < .6 else self.r.randrange(0, 9)
            elif ty in WIDTH:
                # sometimes reuse the value of another input of the type
                same = [x for (kk, t), x in self.tab.items() if t == ty]
                if same and self.r.random() < 0.2:
                    v = wrap(self.r.choice(same) + self.r.choice((0, 0, 1, -1)), ty)
                else:
                    v = self.rand_int(ty)
            elif ty == 'bool':
                v = self.r.random() < 0.5
            elif ty == 'T':
                v = Fraction(self.r.choice((0, 1, 1, -1, 2, 3, 5, 7, -4, 11)))
            else:
                v = Opq(k)
            self.tab[k] = v
        return v

    def co(self, v, n):
        """coerce an uninterpreted value to a scalar"""
        if isinstance(v, Opq):
            return self.fresh(('co', v.k), n)
        if n in WIDTH and isinstance(v, bool):
            return int(v)
        return v

    def ev(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._ev(t)
            self.memo[t] = r
        return r

    def i(self, t, n):
        v = self.co(self.ev(t), n)
        if not isinstance(v, int):
            raise NoEval('int')
        return v

    def b(self, t):
        v = self.co(self.ev(t), 'bool')
        if not isinstance(v, bool):
            raise NoEval('bool')
        return v

    def tv(self, t):
        v = self.ev(t)
        if isinstance(v, Opq):
            return self.fresh(('co', v.k), 'T')
        if isinstance(v, Fraction):
            return v
        if isinstance(v, int):
            return Fraction(v)
        raise NoEval('T')

    def pair(self, x, y):
        a, b = self.ev(x), self.ev(y)
        n = tyof(x) or tyof(y)
        if n in WIDTH or n == 'bool':
            return self.co(a, n), self.co(b, n)
        if isinstance(a, Fraction) or isinstance(b, Fraction):
            return self.tv(x), self.tv(y)
        return a, b

    def _ev(self, t):
        o = t.op
        a = t.a
        if o in ('int', 'bool'):
            return a[0]
        if o == 'undef':
            raise NoEval('undef')
        if o == 'sym':
            ty = a[1] if isinstance(a[1], str) else None
            if ty in WIDTH or ty == 'bool':
                return self.fresh(t, ty)
            if self.conc and isseq(t):
                v = self.cseq(t)
                if v is not None:
                    return v
            return Opq(t)
        if o == 'not':
            return not self.b(a[0])
        if o == 'and':
            return all(self.b(x) for x in a)
        if o == 'or':
            return any(self.b(x) for x in a)
        if o == 'xorb':
            return self.b(a[0]) != self.b(a[1])
        if o == 'ite':
            return self.ev(a[1]) if self.b(a[0]) else self.ev(a[2])
        if o == 'eq':
            x, y = self.pair(a[0], a[1])
            return x == y
        if o == 'lt':
            x, y = self.pair(a[0], a[1])
            if isinstance(x, Opq) or isinstance(y, Opq):
                x, y = self.tv(a[0]), self.tv(a[1])
            try:
                return x < y
            except TypeError:
                raise NoEval('lt')
        if o == 'insw':
            d = self.ev(a[0])
            if isinstance(d, Opq):
                dom = discr_domain(a[0])
                if dom is None:
                    dom = list(a[1]) + [max(a[1]) + 1]
                key = ('sw', d.k)
                if key not in self.tab:
                    self.tab[key] = self.r.choice(list(dom))
                d = self.tab[key]
            return (d in a[1]) != a[2]
        if o in ('add', 'sub', 'mul', 'div', 'rem', 'band', 'bor', 'bxor', 'shl', 'shr') and a[0] in WIDTH:
            x = self.i(a[1], a[0])
            y = self.i(a[2], a[0] if o not in ('shl', 'shr') else (tyof(a[2]) or 'u32'))
            if NATURAL and a[0] == 'usize' and o in ('add', 'sub', 'mul') and not 0 <= (x + y if o == 'add' else x - y if o == 'sub' else x * y) < 1 << 60:
                raise NoEval('size beyond the address space')
            r = fold(o, a[0], x, y)
            if r is None:
                raise NoEval('div0')
            return r
        if o == 'neg' and a[0] in WIDTH:
            return wrap(-self.i(a[1], a[0]), a[0])
        if o == 'bnot' and a[0] in WIDTH:
            return wrap(~self.i(a[1], a[0]), a[0])
        if o == 'cast':
            f, n, x = a
            if n in WIDTH and (f in WIDTH or f == 'bool'):
                v = self.co(self.ev(x), f)
                return wrap(int(v), n)
        if o in ('addovf', 'subovf', 'mulovf'):
            x, y = self.i(a[1], a[0]), self.i(a[2], a[0])
            v = {'a': x + y, 's': x - y, 'm': x * y}[o[0]]
            lo, hi = irange(a[0])
            return not (lo <= v <= hi)
        if o == 'tcall':
            v = self.ev(a[1])
            return self.co(v, a[0])
        if o == 'iop':
            r = self.iop(a)
            if r is not None:
                return r
        if o == 'powovf':
            n = a[0]
            x, y = self.i(a[1], n), self.i(a[2], 'u32')
            if y > 200:
                if x in (0, 1, -1):
                    return False
                return True
            lo, hi = irange(n)
            return not (lo <= x ** y <= hi)
        if o == 'agg':
            return ('agg', a[0], a[1]) + tuple(self.ev(x) if isinstance(x, T) else x for x in a[2:])
        if o == 'arr':
            return ('arr',) + tuple(self.ev(x) for x in a)
        if o == 'discr':
            v = self.ev(a[0])
            if isinstance(v, tuple) and v[0] == 'agg':
                return variant_discr(v[1], v[2]).a[0]
            if isinstance(v, Opq):
                return Opq(('discr', v.k))
        if o == 'len':
            v = self.ev(a[0])
            if isinstance(v, tuple) and v[0] == 'arr':
                return len(v) - 1
            k = ('len', v)
            if k not in self.tab:
                self.tab[k] = self.some_len()
            return self.tab[k]
        if o == 'fld':
            v = self.ev(a[0])
            if isinstance(v, tuple) and v[0] == 'agg' and 3 + a[2] < len(v):
                return v[3 + a[2]]
            return Opq(('fld', v, a[1], a[2]))
        if o == 'sel':
            v, ix = self.ev(a[0]), self.ev(a[1])
            return self.sel(v, ix)
        if o in ('op', 'opout') and self.conc:
            v = self.semop(t)
            if v is not None:
                return v
        if self.conc and o in ('upd', 'rep', 'sub', 'push', 'resize'):
            s0 = self.ev(a[0])
            if o == 'rep':
                n = self.i(a[1], 'usize')
                if n <= 1300 and not isinstance(s0, Opq):
                    return ('arr',) + (s0,) * n
                if n > 1300:
                    raise NoEval('long')
            elif isinstance(s0, tuple) and s0[0] == 'arr':
                if o == 'push':
                    return s0 + (self.ev(a[1]),)
                k = self.i(a[1], 'usize')
                if o == 'upd':
                    if not k < len(s0) - 1:
                        raise NoEval('index')
                    return s0[:1 + k] + (self.ev(a[2]),) + s0[2 + k:]
                if o == 'sub':
                    n = self.i(a[2], 'usize')
                    if k + n > len(s0) - 1:
                        raise NoEval('range')
                    return ('arr',) + s0[1 + k:1 + k + n]
                if o == 'resize' and k <= 64:
                    return s0[:1 + k] + (self.ev(a[2]),) * (k - len(s0) + 1)
        if o == 'upd':
            return ('upd', self.ev(a[0]), self.co(self.ev(a[1]), 'usize'), self.ev(a[2]))
        if o == 't':
            op = a[0]
            if op in ('add', 'sub', 'mul', 'div', 'neg', 'rem'):
                vs = [self.tv(x) for x in a[1:]]
                if op == 'add':
                    return vs[0] + vs[1]
                if op == 'sub':
                    return vs[0] - vs[1]
                if op == 'mul':
                    return vs[0] * vs[1]
                if op == 'neg':
                    return -vs[0]
                if op == 'div':
                    if vs[1] == 0:
                        raise NoEval('div0')
                    return vs[0] / vs[1]
            if self.vocab is not None and vocab_key(t) not in self.vocab:
                raise NoEval('operator ' + op)
            return Opq(('t', op) + tuple(self.ev(x) if isinstance(x, T) else x for x in a[1:]))
        if o == 'tconst':
            if a[0] == 'zero':
                return Fraction(0)
            if a[0] == 'one':
                return Fraction(1)
            return Opq(t)
        if o in ('call', 'out'):
            if self.uf_ok is not None and o == 'call' and a[0] not in self.uf_ok:
                raise NoEval('call ' + str(a[0]))
            return Opq((o,) + tuple(eta(self.ev(x)) if isinstance(x, T) else x for x in a))
        if o in ('phi', 'fin'):
            ty = a[2]
            if ty in WIDTH or ty == 'bool':
                return self.fresh(t, ty)
            if self.conc and isseq(t):
                v = self.cseq(t)
                if v is not None:
                    return v
            return Opq(t)
        if o in ('targs', 'str', 'const', 'fn', 'load', 'zst', 'static'):
            if o == 'const' and (a[2] in WIDTH or a[2] == 'bool'):
                return self.fresh(t, a[2])
            return Opq(t)
        if o in ('ref',):
            return Opq(t)
        if o in ('bytes', 'unbytes'):
            return self.bytesop(t)
        if o == 'float':
            import struct
            return struct.unpack('<d' if a[1] == 'f64' else '<f', int(a[0]).to_bytes(8 if a[1] == 'f64' else 4, 'little'))[0]
        if o in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fop', 'feq', 'flt', 'fle'):
            return self.flt(t)
        if o in UF_PURE:
            if self.vocab is not None and vocab_key(t) not in self.vocab:
                raise NoEval('operator ' + o)
            v = Opq((o,) + tuple(self.ev(x) if isinstance(x, T) else x for x in a))
            ty = tyof(t)
            return self.co(v, ty) if ty in WIDTH or ty == 'bool' else v
        raise NoEval(o)

    def bytesop(self, t):
        k, n, x = t.a
        end = 'little' if k == 'le' else 'big'
        if t.op == 'bytes':
            v = self.co(self.ev(x), n)
            if n in WIDTH and isinstance(v, int):
                w = WIDTH[n] // 8
                return ('arr',) + tuple((v & ((1 << WIDTH[n]) - 1)).to_bytes(w, end))
            if n in ('f32', 'f64'):
                import struct
                return ('arr',) + tuple(struct.pack(('<' if k == 'le' else '>') + ('d' if n == 'f64' else 'f'), self.f(x)))
        else:
            v = self.ev(x)
            if isinstance(v, Opq) and n in WIDTH:
                v = ('arr',) + tuple(self.fresh(('co', ('sel', v, i)), 'u8') for i in range(WIDTH[n] // 8))
            if isinstance(v, tuple) and v[0] == 'arr' and all(isinstance(b, int) for b in v[1:]) and n in WIDTH:
                return wrap(int.from_bytes(bytes(v[1:]), end), n)
        raise NoEval('bytes')

    def f(self, t):
        v = self.ev(t)
        if isinstance(v, Opq):
            k = ('f', v.k)
            if k not in self.tab:
                self.tab[k] = self.r.choice((0.0, 1.0, -1.0, 0.5, -0.5, 1.5, -2.5, 2.25, 3.0, 1e3 + .75, -7.25, 0.1, 6.0, -0.0))
            return self.tab[k]
        if isinstance(v, float):
            return v
        raise NoEval('float')

    def flt(self, t):
        import math
        o, a = t.op, t.a
        if o in ('feq', 'flt', 'fle'):
            x, y = self.f(a[0]), self.f(a[1])
            return x == y if o == 'feq' else x < y if o == 'flt' else x <= y
        if o == 'fneg':
            return -self.f(a[1])
        if o == 'fop':
            return self.fop(a[0], [self.f(x) if i == 0 or a[0] in ('powf', 'log', 'min', 'max', 'atan2', 'hypot', 'copysign', 'mul_add') else self.ev(x) for i, x in enumerate(a[2:])])
        x, y = self.f(a[1]), self.f(a[2])
        try:
            return {'fadd': x + y, 'fsub': x - y, 'fmul': x * y}[o] if o != 'fdiv' else (x / y if y else math.copysign(math.inf, math.copysign(1, x) * math.copysign(1, y)) if x else math.nan)
        except OverflowError:
            raise NoEval('float overflow')

    def fop(self, f, v):
        import math
        x = v[0]
        try:
            if f == 'round':
                return math.copysign(math.floor(abs(x) + 0.5), x)
            if f in ('floor', 'ceil', 'trunc', 'sqrt', 'sin', 'cos', 'tan', 'exp'):
                return float(getattr(math, f)(x))
            if f == 'abs':
                return abs(x)
            if f in ('is_sign_negative', 'is_sign_positive'):
                return (math.copysign(1, x) < 0) == (f == 'is_sign_negative')
            if f in ('is_nan', 'is_infinite', 'is_finite'):
                return {'is_nan': math.isnan, 'is_infinite': math.isinf, 'is_finite': math.isfinite}[f](x)
            if f == 'signum':
                return x if math.isnan(x) else math.copysign(1, x)
            if f == 'fract':
                return x - math.trunc(x)
            if f == 'ln':
                return math.log(x)
            if f == 'log':
                return math.log(x) / math.log(v[1])
            if f in ('log2', 'log10'):
                return getattr(math, f)(x)
            if f in ('powf', 'powi'):
                r = x ** v[1]
                if isinstance(r, complex):
                    return math.nan
                return float(r)
            if f == 'cbrt':
                return math.copysign(abs(x) ** (1 / 3), x)
        except (ValueError, ZeroDivisionError, OverflowError):
            raise NoEval('float domain')
        raise NoEval('fop ' + f)

    def sel(self, v, ix):
        ix = self.co(ix, 'usize')
        while isinstance(v, tuple) and v[0] == 'upd':
            if v[2] == ix:
                return v[3]
            v = v[1]
        if isinstance(v, tuple) and v[0] == 'arr':
            if 0 <= ix < len(v) - 1:
                return v[1 + ix]
            raise NoEval('index')
        return Opq(('sel', v, ix))

    def iop(self, a):
        m, n = a[0], a[1]
        w = WIDTH[n]
        x = self.i(a[2], n)
        ux = x & ((1 << w) - 1)
        if m == 'leading_zeros':
            return w - ux.bit_length()
        if m == 'trailing_zeros':
            return w if ux == 0 else (ux & -ux).bit_length() - 1
        if m == 'count_ones':
            return bin(ux).count('1')
        if m == 'count_zeros':
            return w - bin(ux).count('1')
        if m in ('pow', 'wrapping_pow'):
            y = self.i(a[3], 'u32')
            return wrap(pow(x, y, 1 << w) if x >= 0 else pow(x % (1 << w), y, 1 << w), n)
        if m == 'swap_bytes':
            return wrap(int.from_bytes(ux.to_bytes(w // 8, 'little'), 'big'), n)
        if m in ('rotate_left', 'rotate_right'):
            y = self.i(a[3], 'u32') % w
            if m == 'rotate_right':
                y = (w - y) % w
            return wrap((ux << y) | (ux >> (w - y)) if y else ux, n)
        if m == 'ilog2' and x > 0:
            return x.bit_length() - 1
        return None


# pure operators without an interpretation here; consistent functions of their arguments
UF_PURE = {'frem', 'fpcmp', 'cast', 'tovf', 'iop', 'tcall', 'sub', 'rep', 'setf', 'scalar', 'box', 'fcast', 'collect', 'exitsel',
           'updsub', 'push', 'resize', 'concat', 'app', 'op', 'opout'}


# meanings of named operations (their contracts), for diagnosing differences
OPSEM = {}


def vocab_key(t):
    if t.op == 't':
        return ('t', t.a[0])
    if t.op in ('cast', 'fcast'):
        return (t.op, t.a[0], t.a[1])
    if t.op in ('iop', 'op', 'opout'):
        return (t.op, t.a[0])
    return (t.op,)


def vocab(t):
    return {vocab_key(x) for x in subterms(t) if x.op in UF_PURE or x.op == 't'} | {('op', n) for n in OPSEM} | {('opout', n) for n in OPSEM}


def constants(*ts):
    out = set()
    for t in ts:
        for x in subterms(t):
            if x.op == 'int':
                out.add(x.a[0])
            elif x.op == 'insw':
                for v in x.a[1]:
                    out.add(v)
    # constants derived through casts
    return sorted(out)


def veq(x, y, val):
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(veq(p, q, val) for p, q in zip(x, y))
    if isinstance(x, Opq) != isinstance(y, Opq):
        o, c = (x, y) if isinstance(x, Opq) else (y, x)
        if isinstance(c, Fraction):
            return val.fresh(('co', o.k), 'T') == c
        if isinstance(c, bool):
            return val.fresh(('co', o.k), 'bool') == c
        raise NoEval('untyped')
    if isinstance(x, float) and isinstance(y, float):
        if x != x or y != y:
            return (x != x) == (y != y)
        return x == y or abs(x - y) <= 1e-5 * max(abs(x), abs(y))
    if isinstance(x, tuple) != isinstance(y, tuple):
        raise NoEval('shape')
    return x == y


def calls_in(t):
    return {x.a[0] for x in subterms(t) if x.op == 'call'}


def separate(a, b, pre=TRUE, n=1500, seed=1, uf_ok=None, fixed=None):
    """a valuation where pre holds and a != b, or None"""
    rnd = random.Random(seed)
    cs = constants(a, b, pre)
    ok = set(calls_in(b)) | set(calls_in(pre)) | set(uf_ok or ())
    voc = vocab(b) | vocab(pre) | {('call',)}
    done = 0
    err = None
    conc = any(x.op in ('op', 'opout') and x.a[0] in OPSEM for t in (a, b, pre) for x in subterms(t))
    scaled = {}
    for t in (a, b):
        for x in subterms(t):
            if x.op in ('div', 'rem') and x.a[1].op == 'sym' and x.a[2].op == 'int' and x.a[2].a[0] > 1:
                scaled[x.a[1]] = x.a[2].a[0]
    for k in range(2 * n if scaled else n):
        v = Val(rnd, cs, ok, fixed, voc)
        v.conc = conc
        if scaled and k % 2:
            v.small = scaled
        try:
            if pre is not TRUE and not v.b(pre):
                continue
            x, y = v.ev(a), v.ev(b)
            ty = tyof(b) or tyof(a)
            if ty in WIDTH or ty == 'bool':
                x, y = v.co(x, ty), v.co(y, ty)
            done += 1
            if not veq(x, y, v):
                w = {}
                for (kk, ty) in list(v.tab):
                    pass
                for t in sorted({s for s in subterms(a) | subterms(b) if s.op == 'sym'}, key=lambda s: s.id):
                    try:
                        w[t.a[0]] = str(v.memo.get(t, '-'))[:60]
                    except Exception:
                        pass
                return {'inputs': w, 'found': str(x)[:160], 'required': str(y)[:160]}, done
        except NoEval as ex:
            err = str(ex)
            continue
        except (ZeroDivisionError, OverflowError, RecursionError) as ex:
            continue
    return None, done


def units(pre):
    """conjuncts of pre after unit propagation; None if it cannot hold"""
    fs = [x for x in (pre.a if pre.op == 'and' else [pre]) if x is not TRUE]
    done = {}
    for _ in range(12):
        ch = False
        new = []
        for f in fs:
            g = f
            for at, v in done.items():
                g2 = g.a[0] if g.op == 'not' else g
                if g2 is not at:
                    g = assume(g, at, v, {})
            if g is FALSE:
                return None
            if g is TRUE:
                ch = ch or g is not f
                continue
            ch = ch or g is not f
            for x in (g.a if g.op == 'and' else [g]):
                new.append(x)
                at, v = (x.a[0], False) if x.op == 'not' else (x, True)
                if at.op not in ('and', 'or', 'ite'):
                    if at in done:
                        if done[at] != v:
                            return None
                    else:
                        done[at] = v
                        ch = True
        out = []
        for x in new:
            if x not in out:
                out.append(x)
        fs = out
        if not ch:
            break
    return fs


def same(a, b, pre=TRUE, uf_ok=None, n=1500, seed=1):
    """verdict on  pre => a == b"""
    if a is b:
        return HOLD, None
    ctx = Ctx()
    facts = units(pre)
    if facts is None:
        return HOLD, None
    aa, bb = a, b
    for f in facts:
        at, v = (f.a[0], False) if f.op == 'not' else (f, True)
        if at.op not in ('and', 'or', 'ite'):
            ctx = ctx.add(at, v)
            aa, bb = assume(aa, at, v, {}), assume(bb, at, v, {})
    if ctx.inconsistent():
        return HOLD, None
    for f in facts:
        at, v = (f.a[0], False) if f.op == 'not' else (f, True)
        if at.op in ('and', 'or', 'ite'):
            aa = ITE(f, aa, bb)
    if prove(aa, bb, ctx):
        return HOLD, None
    w, done = separate(a, b, pre, n=n, seed=seed, uf_ok=uf_ok)
    if w is not None:
        return VIOLATED, w
    return UNDECIDED, 'normal forms differ, no separating valuation (%d tried)' % done
