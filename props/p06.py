"""P06 - limb sequences and fixed-width integers are ordered by value."""
from .compc import *
from .bitsc import *
from .bitsc import _val
from .p08 import payload
from .p20 import some_cond
from sa import bits
from sa.point import lin, unlin

RULE = ('The comparison loop is matched with the recurrence "from the most significant limb of the longer operand down, missing limbs zero, the first difference decides"; '
        'the orderings and equalities of the fixed-width integers are matched with that comparison of their limbs and, for signed ones, the sign bits.')
ORD = 'core::cmp::Ordering'
LESS, EQUAL, GREATER = AGG(ORD, 0), AGG(ORD, 1), AGG(ORD, 2)
CMP = {('ElementCmp', 'cmp'): {}}


def sem_cmp(e, a, b):
    from .bitsc import _val
    x, y = _val(e, a), _val(e, b)
    return ('agg', ORD, 0 if x < y else 2 if x > y else 1), {}


OPSEM['ElementCmp::cmp'] = sem_cmp


def limb_cmp(c, ret, l, r, limb):
    """the search loop over limbs"""
    n = MAX(LEN(l), LEN(r))
    Ls = list(c.r.loops.values())
    if len(Ls) == 1 and low_first(c, ret, Ls[0], l, r, n, limb):
        return
    if len(Ls) != 1:
        c.ob('order', UNDECIDED, 'another kind of comparison')
        return
    ix = BIN('sub', 'usize', IT, mkint(1))
    a, b = get0(l, ix, limb), get0(r, ix, limb)
    spec = Spec('down', n, {}, lambda s: {}, lambda s: {'order': EQUAL},
                exits=lambda s: [(LT(a, b), {'order': LESS}), (LT(b, a), {'order': GREATER})], inv=lambda s: NOT(LT(n, IT)))
    # the first position of the search
    v = LoopView(Ls[0], n, 'down')
    for k, (p, init, d) in v.counters.items():
        if tyof(p) == 'usize':
            x = same(init, n)
            c.ob('starts at the most significant limb of the longer operand', *x)
    for what, vd, d in compare(Ls[0], {'order': ret}, spec):
        c.ob(what, vd, d)


def low_first(c, ret, L, l, r, n, limb):
    """a loop that goes up and leaves at the first difference with its order: higher limbs decide, so some operands are misordered"""
    v = LoopView(L, n, 'up')
    if not v.counters or v.data or any(d != 1 for _, _, d in v.counters.values()):
        return False
    for k, e in enumerate(v.exits):
        me = v.m(e, {})
        from sa.loops import exit_value
        o = v.m(exit_value(ret, L.id, k, len(v.exits)), {})
        reads = [x for x in subterms(me) | subterms(o) if x.op == 'sel' and x.a[0] in (l, r)]
        if not reads or any(x.a[1] is not IT for x in reads) or any(x.op in ('phi', 'fin') for x in subterms(me) | subterms(o)):
            continue
        more = BIN('add', 'usize', IT, mkint(1))
        pre = AND(LT(more, LEN(l)), LT(more, LEN(r)))
        w, _ = separate(AND(pre, me), FALSE)
        if w is not None and same(o, EQUAL, AND(pre, me))[0] == VIOLATED:
            c.ob('the most significant difference decides', VIOLATED, {'leaves': show(me, 8)[:300], 'with': show(o, 6)[:200], 'although': 'higher limbs are not compared yet', 'witness': w})
            return True
    return False


def run():
    rep = Report('P06', RULE)
    prog = facts.load('numeric_bits')
    n = 0
    for b, limb, kind in methods(prog, 'ElementCmp', 'cmp'):
        n += 1
        c = Comp(rep, prog, b, 'the order of the values, for any two lengths', key='ElementCmp::cmp at %s %s' % (limb, kind))
        if c:
            l, r = c.p
            def want(a, b, limb=limb):
                x, y = _val(limb, a), _val(limb, b)
                return {'order': ('agg', 0 if x < y else 2 if x > y else 1)}
            with c.whole({l: seqty(limb), r: seqty(limb)}, {'order': c.r.ret}, want, limb=limb):
                limb_cmp(c, c.r.ret, l, r, limb)
                c.quiet()
    rep.floor('limb comparisons', n, 4)
    prog = facts.load('numeric_ints')
    n = 0
    for ty in ('u::U', 'i::I'):
        for tr, m in (('cmp::PartialEq', 'eq'), ('cmp::PartialOrd', 'partial_cmp'), ('cmp::Ord', 'cmp')):
            for b in roots(prog, m, 'numeric_ints::%s<N>$' % ty, tr, r'numeric_ints::%s<N> *$' % ty):
                n += 1
                c = Comp(rep, prog, b, {'eq': 'equal exactly when all limbs are', 'cmp': 'ordered by value'}.get(m, 'always the total order'),
                         hooks={'call': contract_hook(CMP)})
                if not c:
                    continue
                l, r = FIELD(c.p[0], 0, 0), FIELD(c.p[1], 0, 0)
                ret = c.r.ret
                pre = LT(mkint(0), LEN(l))
                if m == 'eq':
                    c.ob('value', *equal_seq(c, ret, l, r))
                    continue
                if m == 'partial_cmp':
                    c.ob('always ordered', *same(some_cond(ret), TRUE, pre))
                    ret = payload(ret)
                    if ret is None:
                        continue
                o = raw('op', 'ElementCmp::cmp', l, r)
                if ty == 'u::U':
                    spec = o
                else:
                    top = lambda s: SEL(s, unlin(lin(LEN(s)).add(lin(mkint(1)), -1)))
                    ng = lambda s: LT(mkint(127, 'u8'), top(s))
                    spec = ITE(ng(l), ITE(ng(r), o, LESS), ITE(ng(r), GREATER, o))
                c.ob('order', *order(ret, spec, l, r, pre))
                c.quiet(pre)
    rep.floor('orderings of fixed-width integers', n, 6)
    return rep


def equal_seq(c, ret, l, r):
    if ret is EQ(l, r):
        return HOLD, None
    return UNDECIDED, show(ret, 6)[:200]


def order(a, b, l, r, pre):
    """case by case: variants must agree, and the limb comparison must be of the same operands in the same order"""
    worst = (HOLD, None)
    from sa.ring import cells
    for la, x in cells(a):
        for lb, y in cells(b):
            cnd = AND(pre, *(la + lb))
            if cnd is FALSE or x is y:
                continue
            if bits.never(cnd):
                continue        # the case cannot occur
            if x.op == 'op' and y.op == 'op' and x.a[0] == y.a[0]:
                if x.a[1:] == y.a[1:][::-1] and x.a[1] is not x.a[2]:
                    v, d = same(cnd, FALSE)
                    if v == VIOLATED:
                        return VIOLATED, {'compares': show(x, 4), 'required': show(y, 4), 'where': show(cnd, 6)[:300]}
                worst = (UNDECIDED, 'another comparison')
                continue
            v, d = same(cnd, FALSE)
            if v == HOLD:
                continue
            if v == VIOLATED and x.op == 'agg' and y.op == 'agg':
                return VIOLATED, {'found': show(x, 3), 'required': show(y, 3), 'where': show(cnd, 8)[:300], 'witness': d}
            if v == VIOLATED and {x.op, y.op} == {'op', 'agg'}:
                # the limb order differs from a fixed answer for some limbs with these conditions
                o, g = (x, y) if x.op == 'op' else (y, x)
                w, dn = separate(raw('op', *o.a), g, cnd)
                if w is not None:
                    return VIOLATED, {'found': show(x, 3), 'required': show(y, 3), 'where': show(cnd, 8)[:300], 'witness': w}
            worst = (UNDECIDED, 'not established where %s' % show(cnd, 6)[:200])
    return worst
