"""P21 - complex arithmetic follows the defining formulas."""
from .compc import *

RULE = ('The real and imaginary part returned by every complex operation, as value-flow expressions over the parts of the operands, '
        'equal the defining formula as rational functions over the element type.')
C = r'complex::Complex<T>$'


def run():
    rep = Report('P21', RULE, ['element operations are those of a field (commutative, associative)'])
    prog = facts.load('numeric_compounds')
    n = 0

    def fn(name, tr=None, rule=''):
        nonlocal n
        for b in roots(prog, name, C if tr else r'complex::Complex', tr):
            n += 1
            c = Comp(rep, prog, b, rule)
            if c:
                yield c
    re_, im_ = (lambda v: FIELD(v, 0, 0)), (lambda v: FIELD(v, 0, 1))
    M = lambda a, b: t_('mul', a, b)

    def parts(c, r, i):
        c.at('real part', c.r.ret, [(0, 0)], r)
        c.at('imaginary part', c.r.ret, [(0, 1)], i)
    for tr, m in (('Add', 'add'), ('Sub', 'sub'), ('Mul', 'mul'), ('Div', 'div')):
        for c in fn(m, 'ops::arith::' + tr, 'complex %s' % m):
            scalar = 'Complex' not in targs(prog, c.b)[-1]
            a, b = re_(c.p[0]), im_(c.p[0])
            if scalar:
                x, y = c.p[1], const('zero')
            else:
                x, y = re_(c.p[1]), im_(c.p[1])
            if m in ('add', 'sub'):
                parts(c, t_(m, a, x), t_(m, b, y))
            elif m == 'mul':
                parts(c, t_('sub', M(a, x), M(b, y)), t_('add', M(a, y), M(b, x)))
            else:
                d = t_('add', M(x, x), M(y, y))
                parts(c, t_('div', t_('add', M(a, x), M(b, y)), d), t_('div', t_('sub', M(b, x), M(a, y)), d))
    for c in fn('new', None, 'parts in order'):
        parts(c, c.p[0], c.p[1])
    for c in fn('from_real', None, 'imaginary part zero'):
        parts(c, c.p[0], const('zero'))
    for c in fn('from_imag', None, 'real part zero'):
        parts(c, const('zero'), c.p[0])
    for c in fn('zero', 'identity::Zero', 'both parts zero'):
        parts(c, const('zero'), const('zero'))
    for c in fn('one', 'identity::One', 'one and zero'):
        parts(c, const('one'), const('zero'))
    for c in fn('is_zero', 'identity::Zero', 'true exactly when both parts are zero'):
        c.at('value', c.r.ret, [], AND(EQ(const('zero'), re_(c.p[0])), EQ(const('zero'), im_(c.p[0]))))
    for c in fn('is_one', 'identity::One', 'true exactly when the real part is one and the imaginary part zero'):
        c.at('value', c.r.ret, [], AND(EQ(const('one'), re_(c.p[0])), EQ(const('zero'), im_(c.p[0]))))
    for c in fn('eq', 'cmp::PartialEq', 'equal exactly when both parts are'):
        c.at('value', c.r.ret, [], AND(EQ(re_(c.p[0]), re_(c.p[1])), EQ(im_(c.p[0]), im_(c.p[1]))))
    for c in fn('clone', 'clone::Clone', 'both parts copied'):
        parts(c, re_(c.p[0]), im_(c.p[0]))
    from .p20 import placed
    for k, nm in enumerate(('real', 'imag')):
        for c in fn(nm, None, 'part %d' % k):
            placed(c, c.r.ret, (('f', k),))
    for nm in ('abs_squared', 'abs'):
        for c in fn(nm, None, 'real^2 + imaginary^2' + (', square root' if nm == 'abs' else '')):
            a, b = re_(c.p[0]), im_(c.p[0])
            sq = t_('add', M(a, a), M(b, b))
            if nm == 'abs':
                rt = next((y for y in subterms(c.r.ret) if y.op == 'call' and 'sqrt' in str(y.a[0])), None)
                if rt is None:
                    c.ob('value', UNDECIDED, show(c.r.ret, 6)[:200])
                    continue
                sq = rebuild(rt.op, tuple(rt.a[:-1]) + (sq,))
            c.at('value', c.r.ret, [], sq)
    rep.floor('complex functions', n, 20)
    return rep
