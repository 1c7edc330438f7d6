"""P11: fixed-width integers compute modulo their width and report overflow exactly."""
from .fixc import *
from .compc import FORALL
from .fixc import _val, _limbs

RULE = ('The in-place limb routines are named operations modulo the width (decided separately); every operator, checked, wrapping and saturating form, constant and test '
        'is compared with its definition over them, arrays filled by loops by their element at a symbolic position.')


def A(ty, arr):
    return AGG(UI[ty], 0, arr)


def run():
    rep = Report('P11', RULE)
    n = 0
    for prof in ('debug', 'release'):
        n += profile(rep, prof)
    rep.floor('operations of fixed-width integers', n, 100)
    return rep


def profile(rep, prof):
    prog = facts.load('numeric_ints', prof)
    n = 0
    conv = both(checked_conv(prog), signed_ops(prog))
    for ty in 'UI':
        full = r'%s<N>' % UI[ty]
        for b in prog.roots:
            if '::tests::' in b.path:
                continue
            me = re.match(r'<%s as ([\w:]+)(?:<(.*)>)?>::(\w+)$' % re.escape(full), b.path)
            inh = re.match(r'%s::<N>::(\w+)$' % re.escape(UI[ty]), b.path)
            if not me and not inh:
                continue
            tr, arg, name = (me.group(1).rsplit('::', 1)[-1], me.group(2), me.group(3)) if me else (None, None, inh.group(1))
            k = rule(ty, tr, arg, name, prof == 'release')
            if k is None:
                continue
            f = Fx(rep, prog, b, RULE, both(conv, unsigned_ops(prog, prof == 'release')) if k is power else conv)
            f.key += ' [optimised]' if prof == 'release' else ''
            f.quiet = prof == 'release'
            if not f:
                n += 1
                continue
            if any(x == 'panic:todo_default_msg' and c is TRUE for c, x, w in f.r.panics):
                continue                  # not written yet
            n += 1
            k(f, ty, name)
    return n


def ZERO(f):
    return raw('rep', mkint(0, 'u8'), f.N)


def ONE(f):
    return LAM(f.N, lambda i: ITE(EQ(i, mkint(0)), mkint(1, 'u8'), mkint(0, 'u8')))


def FULL(f):
    return raw('rep', mkint(255, 'u8'), f.N)


def TOP(f, k):
    """all ones or zeros below a top byte"""
    return LAM(f.N, lambda i: ITE(EQ(i, BIN('sub', 'usize', f.N, mkint(1))), mkint(0x7f if k else 0x80, 'u8'), mkint(0xff if k else 0, 'u8')))


def MINUS(f, a):
    n = LAM(f.N, lambda i: rebuild('bnot', ('u8', SEL(a, i))))
    return [OUT('add', n, ONE(f)), OUT('sub', ZERO(f), a), OUT('add', ONE(f), n), OUT('sub', n, FULL(f))]


def some(x):
    return AGG(OPT, 1, x)


NONE = AGG(OPT, 0)


def const(spec):
    def go(f, ty, name):
        f.value('value', A(ty, spec(f)))
        f.panics('returns', FALSE)
    return go


def plain(op, wraps):
    def go(f, ty, name):
        a, b = f.arrs
        o = OVF(op, a, b)
        if wraps:
            f.value('value modulo the width', A(ty, OUT(op, a, b)))
            f.panics('returns', FALSE)
        else:
            f.value('value', A(ty, OUT(op, a, b)), NOT(o))
            f.panics('refuses exactly what overflows', o)
    return go


def checked(op):
    def go(f, ty, name):
        a, b = f.arrs
        o = OVF(op, a, b)
        f.value('value, or nothing exactly on overflow', ITE(o, NONE, some(A(ty, OUT(op, a, b)))))
        f.panics('returns', FALSE)
    return go


def saturating(op):
    def go(f, ty, name):
        a, b = f.arrs
        o = OVF(op, a, b)
        f.value('value, or the nearest bound on overflow', A(ty, ITE(o, ZERO(f) if op == 'sub' else FULL(f), OUT(op, a, b))))
        f.panics('returns', FALSE)
    return go


def divide(op):
    def go(f, ty, name):
        a, b = f.arrs
        z = ISZERO(b)
        if ty == 'U':
            f.value('value', A(ty, OUT(op, a, b)), NOT(z))
            f.panics('refuses exactly a zero divisor', z)
            return
        q = OUT(op, ABS(a), ABS(b))
        neg = SIGN(a) if op == 'rem' else NOT(EQ(SIGN(a), SIGN(b)))
        f.value('rounded toward zero' if op == 'div' else 'sign of the dividend', A(ty, ITE(neg, NEG(q), q)), NOT(z))
        f.panics('refuses exactly a zero divisor', z)
    return go


def checked_divide(f, ty, name):
    a, b = f.arrs
    f.value('value, or nothing exactly for a zero divisor', ITE(ISZERO(b), NONE, some(A(ty, OUT('div', a, b)))))
    f.panics('returns', FALSE)


def shift(op):
    def go(f, ty, name):
        a = f.arrs[0]
        if len(f.arrs) == 2:
            k = NUM(f.arrs[1], 'usize')
            pre = AND(FITS(f.arrs[1], 'usize'), LT(k, BIN('mul', 'usize', f.N, mkint(8))))
        else:
            k = f.ints[0]
            pre = LT(k, BIN('mul', 'usize', f.N, mkint(8)))
        pre = AND(pre, LT(f.N, mkint(1 << 50)))
        red = BIN('rem', 'usize', k, BIN('mul', 'usize', f.N, mkint(8)))       # the amount itself, below the width
        f.value('value, for amounts below the width', [A(ty, OUT(op, a, k)), A(ty, OUT(op, a, red))], pre)
        f.panics('returns for amounts below the width', FALSE, pre)
    return go


def bitwise(op):
    def go(f, ty, name):
        if op == 'not':
            sp = LAM(f.N, lambda i: rebuild('bnot', ('u8', SEL(f.arrs[0], i))))
        else:
            sp = LAM(f.N, lambda i: BIN(op, 'u8', SEL(f.arrs[0], i), SEL(f.arrs[1], i)))
        f.value('every bit', A(ty, sp))
        f.panics('returns', FALSE)
    return go


def test(spec):
    def go(f, ty, name):
        f.value('exactly then', spec(f, f.arrs[0]))
        f.panics('returns', FALSE)
    return go


def isval(k):
    def spec(f, a):
        if k == 0:
            return FORALL(f.N, lambda i: EQ(SEL(a, i), mkint(0, 'u8')))
        return AND(EQ(SEL(a, mkint(0)), mkint(1, 'u8')), FORALL(BIN('sub', 'usize', f.N, mkint(1)), lambda i: EQ(SEL(a, BIN('add', 'usize', i, mkint(1))), mkint(0, 'u8'))))
    return spec


def negate(f, ty, name):
    f.value('negated modulo the width', [A(ty, m) for m in MINUS(f, f.arrs[0])])
    f.panics('returns', FALSE)


def absolute(f, ty, name):
    f.value('magnitude modulo the width', A(ty, ABS(f.arrs[0])))
    f.panics('returns', FALSE)


def _pow(e, s, k):
    n, b = len(s), _val('u8', s)
    M = 1 << 8 * n
    over = b > 1 and (k >= 8 * n or b ** k >= M)
    return over, {0: _limbs('u8', pow(b, k, M), n)}


OPSEM['w:pow'] = OPSEM['w:pow?'] = _pow
OPSEM['w:one?'] = lambda e, s: (_val('u8', s) == 1, {})


def ISONE(a):
    return raw('tcall', 'bool', raw('op', 'w:one?', a))


def unsigned_ops(prog, rel=False):
    """multiplication and tests of an unsigned fixed-width integer, by contract (each decided on its own)"""
    def hook(eng, fr, s, c, args, atys, dty, cond, where):
        n, tr = c.get('n', ''), str(c.get('tr', ''))
        short = tr.rsplit('::', 1)[-1].split('<')[0]
        at = (prog.tys(atys[0]) if atys and isinstance(atys[0], int) else '').lstrip('&')
        if not at.startswith(UI['U'] + '<'):
            return NotImplemented
        if (short, n) in (('Zero', 'is_zero'), ('One', 'is_one')):
            a = FIELD(eng.reify(s, args[0]), 0, 0)
            return ISZERO(a) if n == 'is_zero' else ISONE(a)
        if (short, n) == ('Mul', 'mul'):
            a, b = (FIELD(x, 0, 0) for x in args)
            if not rel:
                eng.res.panics.append((AND(cond, OVF('mul', a, b)), 'overflow', where))
            return AGG(UI['U'], 0, OUT('mul', a, b))
        return NotImplemented
    return hook


def power(f, ty, name):
    a, b = f.arrs
    k = NUM(b, 'usize')
    pre = AND(LT(mkint(0), f.N), FITS(b, 'usize'))
    spec = A(ty, OUT('pow', a, k))
    bad = None
    loops = f.r.loops

    def leaf(x, path):
        if x.op == 'ite':
            return leaf(x.a[1], AND(path, x.a[0])) or leaf(x.a[2], AND(path, NOT(x.a[0])))
        if path is FALSE or same(path, FALSE, pre)[0] == HOLD:
            return None
        if x is a:
            ok = same(AND(path, NOT(AND(NOT(ISZERO(b)), OR(ISZERO(a), ISONE(a))))), FALSE, TRUE)[0] == HOLD
            return None if ok else 'the base is returned under %s' % show(path, 6)[:120]
        if x.op == 'fin' and x.a[0] in loops:
            L = loops[x.a[0]]
            ph = {p: (i, st) for p, i, st in L.phis.values()}
            acc = next((p for p in ph if p.a[1] == x.a[1]), None)
            if acc is not None and ph[acc][1].op == 'opout' and ph[acc][1].a[0] == 'w:mul':
                st = set(ph[acc][1].a[2:])
                if st == {acc, a} and agrees(canon(f.r, ph[acc][0], pre), ONE(f), pre) and len(L.exits) == 1:
                    for p, (i, q) in ph.items():
                        if p is acc or tyof(p) != 'usize':
                            continue
                        down = i is k and same(q, BIN('sub', 'usize', p, mkint(1)), NE(p, mkint(0)))[0] == HOLD and same(L.exits[0][0], EQ(p, mkint(0)), TRUE)[0] == HOLD
                        up = isint(i) and i.a[0] == 0 and same(q, BIN('add', 'usize', p, mkint(1)), LT(p, k))[0] == HOLD and same(L.exits[0][0], NOT(LT(p, k)), TRUE)[0] == HOLD
                        if down or up:
                            return None
        try:
            if agrees(canon(f.r, x, pre), ONE(f), pre):
                return None if same(AND(path, NOT(ISZERO(b))), FALSE, TRUE)[0] == HOLD else 'one is returned under %s' % show(path, 6)[:120]
        except Fail:
            pass
        return 'not a power: %s' % show(x, 5)[:120]

    ret = f.r.ret
    arr = ret.a[2] if ret.op == 'agg' and ret.a[0] == UI[ty] else None
    why = 'not one value' if arr is None else leaf(arr, TRUE)
    if why is None:
        f.ob('repeated product, the zeroth power being one', HOLD)
    else:
        w = f.witness(ret, spec, pre)
        f.ob('repeated product, the zeroth power being one', VIOLATED if w else UNDECIDED, w or why)
    odd = None
    for c, kind, w in f.r.panics:
        ls = list(c.a) if c.op == 'and' else [c]
        if any(l.op == 'tcall' and l.a[1].op == 'op' and l.a[1].a[0] == 'w:mul?' for l in ls):
            continue
        if same(AND(c, NOT(AND(NOT(FITS(b, 'usize')), NOT(ISZERO(a)), NOT(ISONE(a)), NOT(ISZERO(b))))), FALSE, LT(mkint(0), f.N))[0] != HOLD:
            odd = '%s under %s' % (kind, show(c, 6)[:120])
    if odd is None:
        f.ob('refuses only what overflows', HOLD)
    else:
        w = f.witness(None, FALSE if f.quiet else OVF('pow', a, k), pre)
        f.ob('refuses only what overflows', VIOLATED if w else UNDECIDED, w or odd)


def rule(ty, tr, arg, name, rel=False):
    u = ty == 'U'
    t = {('Add', 'add'): plain('add', rel or not u), ('Sub', 'sub'): plain('sub', rel or not u), ('Mul', 'mul'): plain('mul', rel or not u),
         ('Div', 'div'): divide('div'), ('Rem', 'rem'): divide('rem'),
         ('CheckedAdd', 'checked_add'): checked('add'), ('CheckedSub', 'checked_sub'): checked('sub'), ('CheckedMul', 'checked_mul'): checked('mul'), ('CheckedDiv', 'checked_div'): checked_divide,
         ('WrappingAdd', 'wrapping_add'): plain('add', True), ('WrappingSub', 'wrapping_sub'): plain('sub', True), ('WrappingMul', 'wrapping_mul'): plain('mul', True),
         ('SaturatingAdd', 'saturating_add'): saturating('add'), ('SaturatingSub', 'saturating_sub'): saturating('sub'), ('SaturatingMul', 'saturating_mul'): saturating('mul'),
         ('Shl', 'shl'): shift('shl'), ('Shr', 'shr'): shift('shr'),
         ('Not', 'not'): bitwise('not'), ('BitAnd', 'bitand'): bitwise('band'), ('BitOr', 'bitor'): bitwise('bor'), ('BitXor', 'bitxor'): bitwise('bxor'),
         ('Zero', 'zero'): const(ZERO), ('One', 'one'): const(ONE), ('Default', 'default'): const(ZERO), (None, 'new'): const(ZERO),
         ('Bounded', 'min_value'): const(ZERO if u else lambda f: TOP(f, 0)), ('Bounded', 'max_value'): const(FULL if u else lambda f: TOP(f, 1)),
         ('BoundedSigned', 'min_positive'): const(ONE), ('BoundedSigned', 'max_negative'): const(FULL),
         ('Zero', 'is_zero'): test(isval(0)), ('One', 'is_one'): test(isval(1)),
         ('Signed', 'is_negative'): test(lambda f, a: SIGN(a)), ('Signed', 'is_positive'): test(lambda f, a: NOT(SIGN(a))), ('Signed', 'abs'): absolute, ('Neg', 'neg'): negate,
         ('Pow', 'pow'): power, ('Clone', 'clone'): lambda f, ty, n: f.value('same value', A(ty, f.arrs[0]))}.get((tr, name))
    if not u and tr in ('CheckedAdd', 'CheckedSub', 'CheckedMul', 'CheckedDiv', 'SaturatingAdd', 'SaturatingSub', 'SaturatingMul', 'Shl', 'Shr', 'Pow'):
        return None           # not written yet; nothing is promised
    return t
