"""P20 - vector arithmetic is component-wise."""
from .compc import *

RULE = ('Each vector operation is brought to the closed form of one component at a symbolic position of a vector of symbolic length '
        '(iterator chains, array maps and loops become counted loops; writes are solved for the iteration that meets the position; reductions become indexed sums, '
        'products and universally quantified conditions) and compared with the defining formula over the element type.')

OPS = [('Add', 'add'), ('Sub', 'sub'), ('Mul', 'mul'), ('Div', 'div'), ('Rem', 'rem')]
V = r'vector::Vector<T, N>$'


def inner(prog, b, v):
    """the array inside a vector-typed parameter, or None for a scalar"""
    t = tyof(v) or ''
    return FIELD(v, 0, 0)


def run():
    rep = Report('P20', RULE, ['element operations are those of a field (commutative, associative)'])
    prog = facts.load('numeric_compounds')
    n = 0
    T = 'T'
    for tr, m in OPS:
        for b in roots(prog, m, V, 'ops::arith::' + tr):
            n += 1
            c = Comp(rep, prog, b, 'component i of the result is left[i] %s right[i]' % m)
            if not c:
                continue
            a = targs(prog, b)[-1]
            l = FIELD(c.p[0], 0, 0)
            N = LEN(l)
            rhs = SEL(FIELD(c.p[1], 0, 0), I) if 'Vector' in a else c.p[1]
            pre = LT(I, N)
            c.at('components', c.r.ret, [(0, 0), I], t_(m, SEL(l, I), rhs), pre)
            c.length('dimension', FIELD(c.r.ret, 0, 0), N)
            c.quiet()
        for b in roots(prog, m + '_assign', V, 'ops::arith::' + tr + 'Assign'):
            n += 1
            c = Comp(rep, prog, b, 'component i becomes left[i] %s right[i]' % m)
            if not c:
                continue
            a = targs(prog, b)[-1]
            l = FIELD(c.p[0], 0, 0)
            N = LEN(l)
            rhs = SEL(FIELD(c.p[1], 0, 0), I) if 'Vector' in a else c.p[1]
            c.at('components', c.final(0), [(0, 0), I], t_(m, SEL(l, I), rhs), LT(I, N))
            c.quiet()
    for tr, m in (('CheckedAdd', 'checked_add'), ('CheckedSub', 'checked_sub')):
        for b in roots(prog, m, V, 'checked::' + tr):
            n += 1
            c = Comp(rep, prog, b, 'a value exactly when every component operation succeeds, with those components')
            if not c:
                continue
            checked(c, m)
    rep.floor('vector operators', n, 42)
    n = 0

    def fn(name, ty=None, tr=None, rule='', arg=None):
        nonlocal n
        for b in roots(prog, name, ty, tr, arg):
            n += 1
            c = Comp(rep, prog, b, rule)
            if c:
                yield c
    for name, tr, cn in (('zeroed', None, 'zero'), ('zero', 'identity::Zero', 'zero'), ('default', 'default::Default', 'default')):
        for c in fn(name, r'vector::Vector', tr, 'every component is the %s of the element type' % cn):
            if cn == 'default':
                x = [y for y in subterms(read_or(c, c.r.ret, [(0, 0), I], LT(I, dim(c)))) if y.op in ('call', 'tconst')]
                c.ob('components', HOLD if x and 'default' in show(x[0], 3) else UNDECIDED, None)
            else:
                c.at('components', c.r.ret, [(0, 0), I], const(cn), LT(I, dim(c)))
    for c in fn('from_scalar', r'vector::Vector', None, 'every component is the scalar'):
        c.at('components', c.r.ret, [(0, 0), I], c.p[0], LT(I, dim(c)))
    for c in fn('is_zero', V, 'identity::Zero', 'true exactly when every component is zero'):
        l = FIELD(c.p[0], 0, 0)
        c.at('value', c.r.ret, [], FORALL(LEN(l), lambda k: EQ(const('zero'), SEL(l, k))))
    for name, op in (('sum', 'add'), ('product', 'mul')):
        for c in fn(name, r'vector::Vector', None, '%s of all components' % name):
            l = FIELD(c.p[0], 0, 0)
            c.at('value', c.r.ret, [], BIG(op, LEN(l), lambda k: SEL(l, k)))
    for c in fn('dot_product', r'vector::Vector', None, 'sum of the products of corresponding components'):
        l, r = (FIELD(x, 0, 0) for x in c.p)
        c.at('value', c.r.ret, [], BIG('add', LEN(l), lambda k: t_('mul', SEL(l, k), SEL(r, k))))
    for nm in ('distance_squared', 'distance'):
        for c in fn(nm, r'vector::Vector', None, 'sum of the squares of the component differences' + (', square root' if nm == 'distance' else '')):
            l, r = (FIELD(x, 0, 0) for x in c.p)
            dist(c, l, r, nm == 'distance')
    for c in fn('cross', r'vector::Vector', None, 'cross product formula'):
        l, r = (FIELD(x, 0, 0) for x in c.p)
        for k in range(3):
            a, b_ = (k + 1) % 3, (k + 2) % 3
            g = lambda v, i: SEL(v, mkint(i))
            c.at('component %d' % k, c.r.ret, [(0, 0), mkint(k)],
                 t_('sub', t_('mul', g(l, a), g(r, b_)), t_('mul', g(l, b_), g(r, a))))
    # accessors
    for k, nm in enumerate('xyzw'):
        for c in fn(nm, r'vector::Vector::<T, \d>', None, 'component %d' % k):
            place(c, c.r.ret, k)
        for c in fn(nm + '_mut', r'vector::Vector::<T, \d>', None, 'component %d' % k):
            place(c, c.r.ret, k)
        for c in fn('set_' + nm, r'vector::Vector::<T, \d>', None, 'only component %d changes, to the value given' % k):
            l = FIELD(c.p[0], 0, 0)
            c.at('components', c.final(0), [(0, 0), I], ITE(EQ(I, mkint(k)), c.p[1], SEL(l, I)), LT(I, LEN(l)))
            c.quiet()
    for nm in ('from_xy', 'from_xyz', 'from_xyzw'):
        for c in fn(nm, r'vector::Vector', None, 'components in the order given'):
            for k, x in enumerate(c.p):
                c.at('component %d' % k, c.r.ret, [(0, 0), mkint(k)], x)
    for nm in ('new', 'from'):
        for b in roots(prog, nm, r'vector::Vector', None) if nm == 'new' else [x for x in roots(prog, nm, None, 'convert::From') if 'vector.rs' in x.span]:
            n += 1
            c = Comp(rep, prog, b, 'components unchanged')
            if c:
                src = c.p[0]
                tov = 'Vector' in (prog.tys(b.j['locals'][0]) if isinstance(b.j['locals'][0], int) else '') or c.r.ret.op == 'agg'
                l = src if tov else FIELD(src, 0, 0)
                c.at('components', c.r.ret, [(0, 0), I] if tov else [I], SEL(l, I), LT(I, LEN(l)))
    for c in fn('into_row', r'vector::Vector', None, 'row 0, column i is component i'):
        l = FIELD(c.p[0], 0, 0)
        c.at('elements', c.r.ret, [(0, 0), mkint(0), I], SEL(l, I), LT(I, LEN(l)))
    for c in fn('into_column', r'vector::Vector', None, 'row i, column 0 is component i'):
        l = FIELD(c.p[0], 0, 0)
        c.at('elements', c.r.ret, [(0, 0), I, mkint(0)], SEL(l, I), LT(I, LEN(l)))
    for nm, tr in (('index', 'index::Index'), ('index_mut', 'index::IndexMut')):
        for c in fn(nm, V, tr, 'component at the index; panics exactly when out of range'):
            l = FIELD(c.p[0], 0, 0)
            placed(c, c.r.ret, (('f', 0), ('i', c.p[1])))
            exact_panic(c, NOT(LT(c.p[1], LEN(l))))
    rep.floor('vector functions', n, 45)
    return rep


def read_or(c, t, steps, pre):
    try:
        return read(c.r, t, steps, pre)
    except Fail:
        return UNDEF


def dim(c):
    """the dimension of a vector-returning function: length of the returned array"""
    x = LEN(FIELD(c.r.ret, 0, 0))
    try:
        return closed(x, c.r.loops)
    except Fail:
        return sym('N', 'usize')


def place(c, ret, k):
    placed(c, ret, (('f', 0), ('i', mkint(k))))


def placed(c, ret, path, pre=TRUE, root=0):
    """the returned reference is to self<path>"""
    if ret.op != 'ref' or ret.a[0] != ('mem', c.r.engine.args[root]):
        c.ob('place', UNDECIDED, 'not a reference into the operand: %s' % show(ret, 5)[:200])
        return
    p = ret.a[1]
    if len(p) != len(path):
        c.ob('place', UNDECIDED, 'path %s' % (p,))
        return
    rs = []
    for x, y in zip(p, path):
        if x[0] != y[0]:
            rs.append((UNDECIDED, 'path'))
        elif x[0] == 'i':
            rs.append(same(x[1], y[1], pre))
        else:
            rs.append((HOLD, None) if x[1] == y[1] else (VIOLATED, 'another field'))
    for v in (VIOLATED, UNDECIDED):
        for r in rs:
            if r[0] == v:
                c.ob('place', v, {'returns': show(ret, 6), 'witness': r[1]})
                return
    c.ob('place', HOLD)


def exact_panic(c, cond, pre=TRUE, skip=('overflow',)):
    pc = FALSE
    for (k, kind, w) in c.r.panics:
        if not any(kind.startswith(x) for x in skip):
            pc = OR(pc, k)
    v, d = same(pc, cond, pre)
    c.ob('panics exactly when out of range', v, {'panics when': show(pc, 8)[:300], 'required': show(cond, 6)[:200], 'witness': d})


def dist(c, l, r, root):
    """squares may be written as a power or as a product"""
    try:
        x = closed(c.r.ret, c.r.loops)
    except Fail as f:
        c.ob('value', UNDECIDED, 'no closed form: %s' % f)
        return
    d = lambda k: t_('sub', SEL(l, k), SEL(r, k))
    two = t_('add', const('one'), const('one'))
    pw = next((y for y in subterms(x) if y.op == 'call' and 'pow' in str(y.a[0])), None)
    if pw is not None:
        ts = [y for y in pw.a if isinstance(y, T)]
        sq = lambda k: rebuild(pw.op, tuple(pw.a[:-2]) + (d(k), two))
        if pw.a[-2] is not None:
            pass
    else:
        sq = lambda k: t_('mul', d(k), d(k))
    spec = BIG('add', LEN(l), sq)
    if root:
        rt = next((y for y in subterms(x) if y.op == 'call' and 'sqrt' in str(y.a[0])), None)
        if rt is None:
            c.ob('value', UNDECIDED, 'no square root: %s' % show(x, 6)[:200])
            return
        spec = rebuild(rt.op, tuple(rt.a[:-1]) + (spec,))
    c.eq('value', x, spec)


def checked(c, m):
    l, r = (FIELD(x, 0, 0) for x in c.p)
    N = LEN(l)
    ret = c.r.ret
    call = None
    for L in c.r.loops.values():
        for e in [x[0] for x in L.exits] + [p[2] for p in L.phis.values()]:
            for y in subterms(e):
                if y.op == 'call' and m in str(y.a[0]):
                    call = y
    if call is None:
        c.ob('value', UNDECIDED, 'no component operation found')
        return
    some = lambda k: rebuild(call.op, tuple(call.a[:-2]) + (SEL(l, k), SEL(r, k)))
    try:
        isn = closed(EQ(DISCR(ret), mkint(1)) if False else some_cond(ret), c.r.loops)
    except Fail as f:
        c.ob('success', UNDECIDED, str(f))
        return
    spec = FORALL(N, lambda k: raw('insw', raw('discr', some(k)), (1,), False))
    c.eq('succeeds exactly when every component does', isn, spec)
    okc = some_cond(ret)
    try:
        x = Point(c.r.loops).read(ret, (('f', 1, 0), ('f', 0, 0), ('i', I)), Facts().plus(LT(I, N)).plus(okc), {})
    except Fail as f:
        c.ob('components', UNDECIDED, str(f))
        return
    if x.op == 'ite' and x.a[2] is UNDEF:
        x = x.a[1]
    c.eq('components', x, FIELD(some(I), 1, 0), LT(I, N))


def some_cond(ret):
    if ret.op == 'ite':
        return ITE(ret.a[0], some_cond(ret.a[1]), some_cond(ret.a[2]))
    if ret.op == 'agg':
        return mkbool(ret.a[1] == 1)
    return raw('insw', raw('discr', ret), (1,), False)
