"""Linear constraints over the atoms of the integer normal form: the polyhedral part of the cell
consistency test.  A cell of the case partition whose facts are linearly inconsistent over the
integers (Fourier-Motzkin elimination with integer tightening, bounded) is empty."""
from math import gcd
from .term import *


class Giveup(Exception):
    pass


def tighten(row):
    """row: (coeffs dict, const) meaning sum + const >= 0, integer variables"""
    co, c = row
    g = 0
    for v in co.values():
        g = gcd(g, v)
    if g > 1:
        co = {k: v // g for k, v in co.items()}
        c = c // g          # floor
    return co, c


def infeasible(rows, limit=900):
    """True only if the system  sum + const >= 0  has no integer solution (rational FM + tightening)"""
    seen = {}
    work = []

    def add(co, c):
        co = {k: v for k, v in co.items() if v}
        if not co:
            return c < 0
        co, c = tighten((co, c))
        key = tuple(sorted(co.items(), key=lambda kv: str(kv[0])))
        old = seen.get(key)
        if old is not None and old <= c:
            return False
        seen[key] = c
        return False
    for co, c in rows:
        if add(dict(co), c):
            return True
    steps = 0
    while True:
        cur = [(dict(k), c) for k, c in seen.items()]
        # implied equalities with a unit coefficient are solved first (keeps integrality)
        eq = None
        for key, c in seen.items():
            nk = tuple((k, -v) for k, v in key)
            c2 = seen.get(nk)
            if c2 is not None:
                if c + c2 < 0:
                    return True
                if c + c2 == 0:
                    u = [k for k, v in key if v in (1, -1)]
                    if u:
                        eq = (dict(key), c, u[0])
                        break
        if eq:
            e, ec, var = eq
            sg = e[var]
            seen.clear()
            for co, c in cur:
                v = co.get(var, 0)
                if v:
                    m = -v * sg
                    co = dict(co)
                    for k, x in e.items():
                        co[k] = co.get(k, 0) + m * x
                    c = c + m * ec
                if add(co, c):
                    return True
            steps += 1
            if steps > 90:
                return False
            continue
        vs = {}
        for co, c in cur:
            for k, v in co.items():
                p, n = vs.get(k, (0, 0))
                vs[k] = (p + (v > 0), n + (v < 0))
        if not vs:
            return False
        var = min(vs, key=lambda k: (vs[k][0] * vs[k][1] - vs[k][0] - vs[k][1], str(k)))
        pos = [(co, c) for co, c in cur if co.get(var, 0) > 0]
        neg = [(co, c) for co, c in cur if co.get(var, 0) < 0]
        rest = [(co, c) for co, c in cur if not co.get(var, 0)]
        if len(pos) * len(neg) + len(rest) > limit:
            return False
        seen.clear()
        for co, c in rest:
            if add(co, c):
                return True
        for p, pc_ in pos:
            for n, nc in neg:
                a, b = p[var], -n[var]
                g = gcd(a, b)
                ka, kb = b // g, a // g
                co = {}
                for k, v in p.items():
                    co[k] = co.get(k, 0) + ka * v
                for k, v in n.items():
                    co[k] = co.get(k, 0) + kb * v
                if add(co, ka * pc_ + kb * nc):
                    return True
        steps += 1
        if steps > 60:
            return False


def poly_row(p):
    """(coeffs over monomials, const)"""
    co = dict(p.m)
    c = co.pop((), 0)
    return co, c


def neg_row(p):
    return {k: -v for k, v in p.m.items() if k != ()}, -p.m.get((), 0)
