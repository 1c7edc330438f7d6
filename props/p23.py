"""P23 - matrix indexing is in bounds; views have the shape and storage of their matrix."""
from .compc import *
from .p20 import placed, exact_panic

RULE = ('Index expressions, guards and panic conditions of every matrix accessor are extracted and compared: an access succeeds exactly for row < rows and '
        'column < columns and addresses row * columns + column of the storage; views are built from the start of the storage with the matrix\'s own dimensions;')


def run():
    rep = Report('P23', RULE, ['rows * columns does not exceed the address space'])
    prog = facts.load('numeric_compounds')
    n = 0

    def fn(name, ty, tr=None, rule=''):
        nonlocal n
        for b in roots(prog, name, ty, tr):
            n += 1
            c = Comp(rep, prog, b, rule)
            if c:
                yield c
    for nm, tr in (('index', 'index::Index'), ('index_mut', 'index::IndexMut')):
        for c in fn(nm, r'static::Matrix<', tr, 'element (row, column); panics exactly when out of range'):
            a = FIELD(c.p[0], 0, 0)
            i, j = FIELD(c.p[1], 0, 0), FIELD(c.p[1], 0, 1)
            ok = AND(LT(i, LEN(a)), LT(j, LEN(SEL(a, mkint(0)))))
            placed(c, c.r.ret, (('f', 0), ('i', i), ('i', j)))
            exact_panic(c, NOT(ok))
        for c in fn(nm, r'dynamic::DynMatrix<T>$', tr, 'element row * columns + column; panics exactly when row or column is out of range'):
            fs = fields(prog, c)
            d, r, k = (FIELD(c.p[0], 0, fs[x]) for x in ('data', 'rows', 'cols'))
            i, j = FIELD(c.p[1], 0, 0), FIELD(c.p[1], 0, 1)
            at = BIN('add', 'usize', BIN('mul', 'usize', i, k), j)
            ok = AND(LT(i, r), LT(j, k))
            placed(c, c.r.ret, (('f', fs['data']), ('i', at)))
            exact_panic(c, NOT(AND(ok, LT(at, LEN(d)))))
        for c in fn(nm, r'refs::Matrix(Ref|Mut)<', tr, 'pointer offset row * columns + column; panics exactly when row or column is out of range'):
            fs = fields(prog, c)
            d, r, k = (FIELD(c.p[0], 0, fs[x]) for x in ('data', 'rows', 'cols'))
            i, j = FIELD(c.p[1], 0, 0), FIELD(c.p[1], 0, 1)
            at = BIN('add', 'usize', BIN('mul', 'usize', i, k), j)
            exact_panic(c, NOT(AND(LT(i, r), LT(j, k))))
            ret = c.r.ret
            off, p = None, base(ret)
            while p.op == 'ptroff':
                off = p.a[1] if off is None else BIN('add', 'usize', p.a[1], off)
                p = base(p.a[0])
            if p is d:
                v, w = same(mkint(0) if off is None else off, at)
                c.ob('place', v, {'offset': show(off, 6) if off is not None else '0', 'witness': w})
            else:
                c.ob('place', UNDECIDED, show(ret, 6)[:200])
    for b in [x for x in roots(prog, 'from', r'refs::Matrix(Ref|Mut)<', 'convert::From')]:
        n += 1
        c = Comp(rep, prog, b, 'the view starts at the storage of the matrix and has its rows and columns')
        if not c:
            continue
        src = c.p[0]
        view = re.search(r'refs::Matrix(?:Ref|Mut)(?=<)', targs(prog, b)[-1])
        if view:        # a view of a view
            fs, fd = fields(prog, c, ret=True), adt_fields(prog, view.group(0))
            for x in ('rows', 'cols'):
                c.at(x, FIELD(c.r.ret, 0, fs[x]), [], FIELD(src, 0, fd[x]))
            got, want = base(FIELD(c.r.ret, 0, fs['data'])), base(FIELD(src, 0, fd['data']))
            c.ob('storage', HOLD if got is want else UNDECIDED, show(got, 5)[:200])
            continue
        if not re.search(r'(dynamic::DynMatrix|static::Matrix)<', targs(prog, b)[-1]):
            c.ob('shape', UNDECIDED, 'made from ' + targs(prog, b)[-1])
            continue
        fs = fields(prog, c, ret=True)
        ptr, r, k = (FIELD(c.r.ret, 0, fs[x]) for x in ('data', 'rows', 'cols'))
        if 'DynMatrix' in targs(prog, b)[-1]:
            fd = adt_fields(prog, 'dynamic::DynMatrix')
            c.at('rows', r, [], FIELD(src, 0, fd['rows']))
            c.at('columns', k, [], FIELD(src, 0, fd['cols']))
            want = (('f', fd['data']), ('i', mkint(0)))
        else:
            a = FIELD(src, 0, 0)
            c.at('rows', r, [], LEN(a))
            c.at('columns', k, [], LEN(SEL(a, mkint(0))))
            want = (('f', 0),)
        p = base(ptr)
        if p.op == 'ref' and p.a[0] == ('mem', c.r.engine.args[0]):
            got = tuple(x for x in p.a[1])
            strip = lambda q: q[:-1] if q and q[-1] == ('i', mkint(0)) else q
            while got and got[-1] == ('i', mkint(0)):
                got = got[:-1]
            c.ob('storage', HOLD if got == strip(want) else VIOLATED, show(p, 6))
        else:
            c.ob('storage', UNDECIDED, show(ptr, 6)[:200])
    for c in fn('new', r'dynamic::DynMatrix', None, 'rows, columns and data as given; panics exactly when the data does not have rows * columns elements'):
        fd = adt_fields(prog, 'dynamic::DynMatrix')
        d, r, k = c.p
        c.at('data', c.r.ret, [(0, fd['data'])], d)
        c.at('rows', c.r.ret, [(0, fd['rows'])], r)
        c.at('columns', c.r.ret, [(0, fd['cols'])], k)
        exact_panic(c, NE(LEN(d), BIN('mul', 'usize', r, k)))
    for nm, f in (('rows', 'rows'), ('cols', 'cols')):
        for c in fn(nm, r'dynamic::DynMatrix', None, 'the %s' % nm):
            fd = adt_fields(prog, 'dynamic::DynMatrix')
            c.at('value', c.r.ret, [], FIELD(c.p[0], 0, fd[f]))
    for b in [x for x in roots(prog, 'from', r'dynamic::DynMatrix', 'convert::From')]:
        n += 1
        c = Comp(rep, prog, b, 'rows and columns of the array')
        if c:
            fd = adt_fields(prog, 'dynamic::DynMatrix')
            a = c.p[0]
            ty = targs(prog, b)[-1]
            if 'static::Matrix<' in ty:
                a = FIELD(a, 0, 0)
            elif not ty.startswith('['):
                c.ob('shape', UNDECIDED, 'made from ' + ty)
                continue
            c.at('rows', c.r.ret, [(0, fd['rows'])], LEN(a))
            c.at('columns', c.r.ret, [(0, fd['cols'])], LEN(SEL(a, mkint(0))))
            from_array(c, FIELD(c.r.ret, 0, fd['data']), a)
    for c in fn('swap_rows', r'dynamic::DynMatrix', None, 'the two rows are exchanged, the others unchanged'):
        fd = adt_fields(prog, 'dynamic::DynMatrix')
        d, r, k = (FIELD(c.p[0], 0, fd[x]) for x in ('data', 'rows', 'cols'))
        a, b_ = c.p[1], c.p[2]
        mul = lambda x, y: BIN('mul', 'usize', x, y)
        row = sym('row', 'usize')
        for what, lo, hi in (('first row index below second', a, b_), ('second row index below first', b_, a)):
            # row < rows and distinct rows do not overlap (facts about products of the symbolic dimensions)
            pre = AND(LT(lo, hi), LT(hi, r), LT(J, k),
                      LE(BIN('add', 'usize', mul(lo, k), k), mul(hi, k)),
                      LE(BIN('add', 'usize', mul(hi, k), k), LEN(d)))
            at = lambda x: BIN('add', 'usize', mul(x, k), J)
            fin = c.final(0)
            for nm, x, y in (('row %s' % 'a', a, b_), ('row b', b_, a)):
                c.at('%s: %s' % (what, nm), fin, [(0, fd['data']), at(x)], SEL(d, at(y)), pre)
            rest = {'below': LE(BIN('add', 'usize', mul(row, k), k), mul(lo, k)),
                    'between': AND(LE(BIN('add', 'usize', mul(lo, k), k), mul(row, k)), LE(BIN('add', 'usize', mul(row, k), k), mul(hi, k))),
                    'above': AND(LE(BIN('add', 'usize', mul(hi, k), k), mul(row, k)), LT(row, r))}
            for nm, p in rest.items():
                c.at('%s: rows %s' % (what, nm), fin, [(0, fd['data']), at(row)], SEL(d, at(row)), AND(pre, p))
    rep.floor('accessors', n, 16)
    return rep


def from_array(c, data, a):
    """element row * columns + column of the data is element (row, column) of the array"""
    from .p22 import pushes2
    R, C = LEN(a), LEN(SEL(a, mkint(0)))
    try:
        ui, uj, no, ni, v = pushes2(c, data)
        t = [same(no, R), same(ni, C, LT(ui, R)), c.agree(v, SEL(SEL(a, ui), uj), AND(LT(ui, R), LT(uj, C)))]
        if all(x[0] == HOLD for x in t):
            c.ob('elements', HOLD)
            return
        bad = [x for x in t if x[0] == VIOLATED] or [x for x in t if x[0] != HOLD]
        v, d = bad[0]
    except Fail as f:
        v, d = UNDECIDED, str(f)
    i, j = sym('row', 'usize'), J
    at = BIN('add', 'usize', BIN('mul', 'usize', i, C), j)
    c.ob('elements', *c.arbitrate('elements', v, d, data, [at], SEL(SEL(a, i), j), AND(LT(i, R), LT(j, C))))


def base(p):
    while p.op in ('transmute', 'ptrcast'):
        p = p.a[-1]
    return p


def adt_fields(prog, path):
    """field name -> index of a struct of the crate"""
    for k, a in prog.adts.items():
        if k.endswith(path):
            return {f['n']: i for i, f in enumerate(a['v'][0]['f'])}
    raise KeyError(path)


def fields(prog, c, ret=False):
    s = prog.tys(c.b.locals[0] if ret else c.b.j['iself']) if not ret else c.b.j.get('iself') and prog.tys(c.b.j['iself'])
    s = re.sub(r'<.*', '', s).lstrip('&')
    return adt_fields(prog, s)
