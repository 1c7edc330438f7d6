"""Loops whose number of turns is bounded by a constant, written out as an expression.

The exits of such a loop are decided for all inputs after a few turns (the index meets a constant length, a shift reaches the
width of its type); until then each turn is one more alternative."""
from .term import *
from . import bits


class Many(Exception):
    pass


def impossible(c):
    if c is FALSE:
        return True
    from .decide import same
    try:
        if bits.never(c):
            return True
    except Exception:
        pass
    try:
        return same(c, FALSE)[0] == "HOLD"
    except Exception:
        return False


def unroll(t, loops, limit=6):
    """t without loop results, or Many"""
    for _ in range(8):
        ids = [x.a[0] for x in subterms(t) if x.op in ('fin', 'exitsel')]
        # a loop that no other one feeds on
        ids = [i for i in dict.fromkeys(ids) if i in loops]
        if not ids:
            return t
        L = loops[ids[-1]]
        t = one(t, L, limit)
    raise Many('nested')


def one(t, L, limit):
    if any(x.op in ('fin', 'exitsel') and x.a[0] == L.id for p, i, s in L.phis.values() for x in subterms(i)):
        raise Many('self')
    st = {p: i for p, i, _ in L.phis.values()}
    if any(x.op == 'phi' and x not in st for x in subterms(t)):
        raise Many('outer loop')
    left = TRUE
    alts = []
    fins = lambda s: {raw('fin', L.id, p.a[1], p.a[2]): v for p, v in s.items()}
    for _ in range(limit):
        stay = TRUE
        for k, e in enumerate(L.exits):
            c = subst(e[0], st.get)
            stay = AND(stay, NOT(c))
            c = AND(left, c)
            if c is FALSE or impossible(c):
                continue
            m = fins(st)
            m[raw('exitsel', L.id)] = mkint(k)
            r = subst(t, m.get)
            r = subst(r, lambda x, k=k: mkbool((k in x.a[1]) != x.a[2]) if x.op == 'insw' and x.a[0] is raw('exitsel', L.id) else None)
            alts.append((c, r))
        left = AND(left, stay)
        if left is FALSE or impossible(left):
            break
        st = {p: subst(s, st.get) for p, _, s in L.phis.values()}
    else:
        raise Many('turns')
    if not alts:
        raise Many('no exit')
    out = alts[-1][1]
    for c, r in reversed(alts[:-1]):
        out = ITE(c, r, out)
    return out
