"""P22 - matrix construction and arithmetic by element."""
from .compc import *
from .p20 import placed, exact_panic

RULE = ('Every static matrix operation is brought to the closed form of element (i, j) of a matrix of symbolic dimensions, sums over an inner index being kept as '
        'indexed sums, and compared with the defining formula over the element type; row swaps, the diagonal, the 1x1 and 2x2 determinant and the wedge product likewise.')
MX = r'Matrix<T, ROW, COL>$'


def run():
    rep = Report('P22', RULE, ['element operations are those of a field', 'at least one inner row for products'])
    prog = facts.load('numeric_compounds')
    n = 0

    def fn(name, ty=r'static::Matrix', tr=None, rule=''):
        nonlocal n
        for b in roots(prog, name, ty, tr):
            n += 1
            c = Comp(rep, prog, b, rule)
            if c:
                yield c
    arr = lambda v: FIELD(v, 0, 0)
    el = lambda v, i, j: SEL(SEL(arr(v), i), j)
    dims = lambda v: (LEN(arr(v)), LEN(SEL(arr(v), mkint(0))))

    def elems(c, t, spec, R, C, pre=TRUE):
        c.at('element (i, j)', t, [(0, 0), I, J], spec, AND(pre, LT(I, R), LT(J, C)))
    for tr, m in (('Add', 'add'), ('Sub', 'sub')):
        for c in fn(m, r'static::Matrix<', 'ops::arith::' + tr, 'element-wise %s' % m):
            R, C = dims(c.p[0])
            elems(c, c.r.ret, t_(m, el(c.p[0], I, J), el(c.p[1], I, J)), R, C)
            c.quiet()
    for c in fn('mul', r'static::Matrix<', 'ops::arith::Mul', 'element (i, j) is the sum over k of left(i, k) * right(k, j)'):
        R, K = dims(c.p[0])
        K2, C = dims(c.p[1])
        pre = LT(mkint(0), K)
        elems(c, c.r.ret, BIG('add', K, lambda k: t_('mul', el(c.p[0], I, k), el(c.p[1], k, J))), R, C, pre)
        c.quiet(pre)
    for c in fn('new', rule='rows unchanged'):
        a = c.p[0]
        elems(c, c.r.ret, SEL(SEL(a, I), J), LEN(a), LEN(SEL(a, mkint(0))))
    for c in fn('from_rows', rule='row i is the i-th vector'):
        a = c.p[0]
        R, C = LEN(a), LEN(arr(SEL(a, mkint(0))))
        elems(c, c.r.ret, SEL(arr(SEL(a, I)), J), R, C)
        c.quiet()
    for c in fn('from_columns', rule='column j is the j-th vector'):
        a = c.p[0]
        C, R = LEN(a), LEN(arr(SEL(a, mkint(0))))
        elems(c, c.r.ret, SEL(arr(SEL(a, J)), I), R, C)
        c.quiet()
    for c in fn('transpose', rule='element (i, j) is the old element (j, i)'):
        R, C = dims(c.p[0])
        elems(c, c.r.ret, el(c.p[0], J, I), C, R)
        c.quiet()
    for c in fn('swap_rows', rule='the two rows are exchanged, the others unchanged'):
        R, C = dims(c.p[0])
        a, b = c.p[1], c.p[2]
        pre = AND(LT(a, R), LT(b, R))
        src = ITE(EQ(I, a), b, ITE(EQ(I, b), a, I))
        elems(c, c.final(0), ITE(EQ(I, a), el(c.p[0], b, J), ITE(EQ(I, b), el(c.p[0], a, J), el(c.p[0], I, J))), R, C, pre)
        exact_panic(c, NOT(pre))
    for c in fn('zero', r'static::Matrix<', 'identity::Zero', 'all elements zero'):
        R, C = rdims(c)
        elems(c, c.r.ret, const('zero'), R, C)
    for c in fn('one', r'static::Matrix<', 'identity::One', 'one on the diagonal, zero elsewhere'):
        R, C = rdims(c)
        elems(c, c.r.ret, ITE(EQ(I, J), const('one'), const('zero')), R, C)
    for c in fn('is_zero', r'static::Matrix<', 'identity::Zero', 'true exactly when every element is zero'):
        R, C = dims(c.p[0])
        c.at('value', c.r.ret, [], FORALL(R, lambda i: FORALL(C, lambda j: EQ(const('zero'), el(c.p[0], i, j)))))
    for c in fn('is_one', r'static::Matrix<', 'identity::One', 'true exactly for the identity'):
        R, C = dims(c.p[0])
        c.at('value', c.r.ret, [], FORALL(R, lambda i: FORALL(C, lambda j: ITE(EQ(i, j), EQ(const('one'), el(c.p[0], i, j)), EQ(const('zero'), el(c.p[0], i, j))))))
    for c in fn('diag', rule='component i is element (i, i)'):
        R, C = dims(c.p[0])
        c.at('component i', c.r.ret, [(0, 0), I], el(c.p[0], I, I), AND(LT(I, R), EQ(R, C)))
        c.quiet(EQ(R, C))
    for b in roots(prog, 'determinant', r'static::Matrix'):
        n += 1
        rule = 'for 1x1 and 2x2 matrices the determinant formula'
        c = Comp(rep, prog, b, rule)
        if c:
            R, C = dims(c.p[0])
            for k in (1, 2):
                ret = subst(c.r.ret, lambda x: mkint(k) if x is R or x is C else None)
                g = lambda i, j: el(c.p[0], mkint(i), mkint(j))
                spec = g(0, 0) if k == 1 else t_('sub', t_('mul', g(0, 0), g(1, 1)), t_('mul', g(0, 1), g(1, 0)))
                c.at('%dx%d' % (k, k), ret, [], spec)
    for b in roots(prog, 'new', r'bivec::BiVector'):
        n += 1
        c = Comp(rep, prog, b, 'one component a_i b_j - a_j b_i per pair i < j')
        if c:
            wedge(c)
    rep.floor('matrix functions', n, 15)
    return rep


def rdims(c):
    m = FIELD(c.r.ret, 0, 0)
    try:
        return closed(LEN(m), c.r.loops), closed(LEN(read(c.r, m, [mkint(0)], TRUE)), c.r.loops)
    except Fail:
        return sym('ROW', 'usize'), sym('COL', 'usize')


def pushes2(c, out):
    """a sequence built by one push inside two nested loops: the value pushed in turn (ui, uj), and both trip counts"""
    pushes = []
    for L in c.r.loops.values():
        for k, (p, i, s) in L.phis.items():
            if s.op == 'push' and s.a[0] is p:
                pushes.append((L, p, i, s.a[1]))
    if len(pushes) != 1:
        raise Fail('one push per element not found')
    L, p, init, val = pushes[0]
    P = Point(c.r.loops)
    outer = [(M, x) for M in c.r.loops.values() for x in M.phis.values() if x[2].op == 'fin' and x[2].a[0] == L.id and init is x[0]]
    if len(outer) != 1 or out.op != 'fin' or out.a[0] != outer[0][0].id or LEN(outer[0][1][1]) is not mkint(0):
        raise Fail('nesting')
    M = outer[0][0]
    ui, uj = sym('#oi', 'usize'), sym('#oj', 'usize')
    F = Facts()
    no = P.trips(M.id, F, {})
    F = F.plus(LT(ui, no))
    ni = P.trips(L.id, F, {M.id: ui})
    F = F.plus(LT(uj, ni))
    return ui, uj, no, ni, P.res(val, F, {M.id: ui, L.id: uj})


def wedge(c):
    """pushes t(i, j) for j in i+1..DIM for i in 0..DIM"""
    a, b = (FIELD(x, 0, 0) for x in c.p)
    N = LEN(a)
    out = FIELD(c.r.ret, 0, 0)
    try:
        ui, uj, no, ni, v = pushes2(c, out)
    except Fail as f:
        c.ob('components', UNDECIDED, str(f))
        return
    g = AND(LT(ui, no), LT(uj, ni))
    i, j = ui, unlin(lin(ui).add(lin(uj)).add(lin(mkint(1))))
    spec = t_('sub', t_('mul', SEL(a, i), SEL(b, j)), t_('mul', SEL(a, j), SEL(b, i)))
    c.eq('component of the pair', v, spec, g)
    # every pair: i over 0..N (the last has no partner), j over i+1..N
    cov = same(NOT(LT(unlin(lin(ui).add(lin(mkint(1)))), N)), TRUE, AND(NOT(LT(ui, no)), LT(ui, N)))
    c.ob('outer index covers the axes', *cov)
    cov = same(ni, BIN('sub', 'usize', BIN('sub', 'usize', N, ui), mkint(1)), LT(ui, N))
    c.ob('inner index covers the later axes', *cov)
