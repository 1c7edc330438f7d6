"""Fixed-width integers: their byte arrays as numbers modulo a power of 256.

The in-place limb routines are replaced by the operation modulo the width that they are separately shown to perform (P04, P05, P07,
P09); what remains of each function is compared with the definition as a function of the arrays."""
from .common import *
from .bitsc import params, final, OPSEM, _val, _limbs
from .compc import Comp, roots, nicename
from sa.loops import LoopView

UI = {'U': 'numeric_ints::u::U', 'I': 'numeric_ints::i::I'}
OPT = 'core::option::Option'
ARITH = {'ElementAdd': 'add', 'ElementSub': 'sub', 'ElementMul': 'mul'}


def OUT(op, *vals):
    t = raw('opout', 'w:' + op, 0, *vals)
    LENS[t] = LEN(vals[0])
    return t


def OVF(op, *vals):
    return raw('tcall', 'bool', raw('op', 'w:%s?' % op, *vals))


def ISZERO(a):
    if a.op == 'ite':
        return ITE(a.a[0], ISZERO(a.a[1]), ISZERO(a.a[2]))
    if a.op == 'opout' and a.a[0] == 'w:neg':
        return ISZERO(a.a[2])
    return raw('tcall', 'bool', raw('op', 'w:zero?', a))


def _sem(f):
    def go(e, s, r):
        e = e or 'u8'
        n = len(s)
        M = 1 << WIDTH[e] * n
        v = f(_val(e, s), _val(e, r) if isinstance(r, (list, tuple)) else r, n * WIDTH[e])
        return v < 0 or v >= M, {0: _limbs(e, v % M, n)}
    return go


SEM = {'add': lambda a, b, n: a + b, 'sub': lambda a, b, n: a - b, 'mul': lambda a, b, n: a * b,
       'div': lambda a, b, n: a // b if b else 0, 'rem': lambda a, b, n: a % b if b else 0,
       'shl': lambda a, k, n: (a << k) % (1 << n) if k <= n else 0, 'shr': lambda a, k, n: a >> k}
for k_, f_ in SEM.items():
    OPSEM['w:' + k_] = _sem(f_)
    OPSEM['w:%s?' % k_] = _sem(f_)
OPSEM['w:zero?'] = lambda e, s: (_val(e or 'u8', s) == 0, {})


class Fixed:
    def __init__(self, prog, more=None):
        self.prog, self.more = prog, more
        self.odd = []

    def tys(self, t):
        return self.prog.tys(t) if isinstance(t, int) else t.get('s', '?') if isinstance(t, dict) else str(t)

    def hook(self, eng, fr, s, c, args, atys, dty, cond, where):
        if self.more is not None:
            r = self.more(eng, fr, s, c, args, atys, dty, cond, where)
            if r is not NotImplemented:
                return r
        n, tr, p = c.get('n', ''), str(c.get('tr', '')), c.get('p', '')
        short = tr.rsplit('::', 1)[-1]
        for t_, op in ARITH.items():
            if n.startswith(op + '_') and (short == t_ or '::%s::' % t_ in p):
                a, b = (eng.reify(s, x) for x in args[:2])
                kind = n[len(op) + 1:]
                if kind not in ('overflowing', 'checked', 'wrapping'):
                    continue
                eng.store(s, args[0], OUT(op, a, b))
                return self.result(kind, args[0], OVF(op, a, b))
        if short == 'BitwiseDiv' or '::BitwiseDiv::' in p:
            m = re.match(r'(div|rem)_long_(overflowing|checked|wrapping)$', n)
            if m:
                op, kind = m.groups()
                a, b, sc = (eng.reify(s, x) for x in args[:3])
                if not allzero(sc):
                    self.odd.append('the scratch space is not known to be zero: %s' % show(sc, 4)[:80])
                z = ISZERO(b)
                if kind == 'checked':
                    eng.store(s, args[0], ITE(z, a, OUT(op, a, b)))
                    return ITE(z, AGG(OPT, 0), AGG(OPT, 1, args[0]))
                eng.res.panics.append((AND(cond, z), 'divzero', where))
                eng.store(s, args[0], OUT(op, a, b))
                return self.result(kind, args[0], FALSE)
        for t_, op in (('ElementShl', 'shl'), ('ElementShr', 'shr')):
            if n.startswith(op + '_') and (short == t_ or '::%s::' % t_ in p):
                a, k = eng.reify(s, args[0]), args[1]
                w = BIN('mul', 'usize', LEN(a), mkint(8))
                if n == op + '_checked':
                    bad = LT(w, k)
                    eng.store(s, args[0], ITE(bad, a, OUT(op, a, k)))
                    return ITE(bad, AGG(OPT, 0), AGG(OPT, 1, args[0]))
                if n == op + '_wrapping':
                    eng.store(s, args[0], OUT(op, a, ITE(EQ(LEN(a), mkint(0)), mkint(0), BIN('rem', 'usize', k, w))))
                    return args[0]
        return NotImplemented

    def result(self, kind, ref, ovf):
        if kind == 'wrapping':
            return ref
        if kind == 'overflowing':
            return TUPLE(ref, ovf)
        return ITE(ovf, AGG(OPT, 0), AGG(OPT, 1, ref))


def allzero(t):
    return t.op == 'rep' and isint(t.a[0]) and t.a[0].a[0] == 0


# ---------------------------------------------------------------- arrays by their elements
from sa.point import Point, Facts, Fail, closed, lin, unlin
from sa.conc import Run, NoEval
from sa.decide import constants
IX = sym('i', 'usize')


def LAM(n, f):
    """array whose element i is f(i)"""
    t = raw('lam', n, IX, f(IX) if callable(f) else f)
    LENS[t] = n
    return t


def canon(r, t, pre=TRUE):
    """t with every array a loop fills replaced by its elements, as a function of the position"""
    P = Point(r.loops)
    memo = {}

    def go(x, F, key):
        k = (x, key)
        if k in memo:
            return memo[k]
        if x.op == 'ite':
            c = F.cond(P.res(x.a[0], F, {}))
            if c is TRUE or c is FALSE:
                y = go(x.a[1] if c is TRUE else x.a[2], F, key)
            else:
                y = ITE(c, go(x.a[1], P.both(F, c, x.a[0], True), key + ((x.a[0], 1),)), go(x.a[2], P.both(F, c, x.a[0], False), key + ((x.a[0], 0),)))
        elif x.op == 'fin' and (isseq(x) or x.a[2] is None) and x.a[0] in r.loops or x.op == 'upd' and isseq(x):
            n = P.res(LEN(x), F, {})
            e = P.read(x, (('i', IX),), F.plus(LT(IX, n)), {})
            y = LAM(n, e)
        elif x.op in ('opout', 'op', 'agg', 'tcall', 'eq', 'unbytes', 'bytes', 'not', 'and', 'or'):
            na = tuple(go(z, F, key) if isinstance(z, T) else z for z in x.a)
            y = x if all(p is q or not isinstance(p, T) and p == q for p, q in zip(na, x.a)) else rebuild(x.op, na)
            if x.op == 'opout' and y is not x and isseq(y.a[2]):
                LENS[y] = LEN(y.a[2])
        else:
            y = P.res(x, F, {})
        memo[k] = y
        return y
    return bytetests(go(t, Facts().plus(pre), ()))


def NUM(a, ty):
    return raw('tcall', ty, raw('op', 'w:num:' + ty, a))


def FITS(a, ty):
    return raw('tcall', 'bool', raw('op', 'w:fits:' + ty, a))


for t_ in UINTS:
    OPSEM['w:num:' + t_] = lambda e, s, t_=t_: (_val(e or 'u8', s) % (1 << WIDTH[t_]), {})
    OPSEM['w:fits:' + t_] = lambda e, s, t_=t_: (_val(e or 'u8', s) < 1 << WIDTH[t_], {})


def SIGN(a):
    return LT(mkint(127, 'u8'), SEL(a, BIN('sub', 'usize', LEN(a), mkint(1))))


def NEG(a):
    return OUT('neg', a)


def ABS(a):
    return ITE(SIGN(a), NEG(a), a)


OPSEM['w:neg'] = lambda e, s: (False, {0: _limbs('u8', -_val('u8', s) % (1 << 8 * len(s)), len(s))})


def signed_ops(prog):
    """negation, magnitude and sign of a signed fixed-width integer, by contract (each decided on its own)"""
    def hook(eng, fr, s, c, args, atys, dty, cond, where):
        n, tr = c.get('n', ''), str(c.get('tr', ''))
        short = tr.rsplit('::', 1)[-1].split('<')[0]
        if len(args) == 1 and (short, n) in (('Neg', 'neg'), ('Signed', 'abs'), ('Signed', 'is_negative'), ('Signed', 'is_positive')):
            at = (prog.tys(atys[0]) if isinstance(atys[0], int) else '').lstrip('&')
            if at.startswith(UI['I'] + '<'):
                a = FIELD(eng.reify(s, args[0]), 0, 0)
                if n.startswith('is_'):
                    return SIGN(a) if n == 'is_negative' else NOT(SIGN(a))
                return AGG(UI['I'], 0, NEG(a) if n == 'neg' else ABS(a))
        return NotImplemented
    return hook


def both(*hs):
    def hook(*a):
        for h in hs:
            r = h(*a)
            if r is not NotImplemented:
                return r
        return NotImplemented
    return hook


def bytetests(t):
    """tests of one byte that amount to a threshold, as a comparison"""
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        y = x
        if x.op in ('eq', 'lt', 'not'):
            ls = leaves(x)
            if ls is not None and len(ls) == 1:
                v = next(iter(ls))
                try:
                    tb = [bool(Run({}, {v: k}).b(x)) for k in range(256)]
                    k = tb.index(not tb[0]) if (not tb[0]) in tb else None
                    if k is not None and all(q == tb[0] for q in tb[:k]) and all(q != tb[0] for q in tb[k:]):
                        y = LT(mkint(k - 1, 'u8'), v)
                        y = NOT(y) if tb[0] else y
                        memo[x] = y
                        return y
                except NoEval:
                    pass
        na = tuple(go(z) if isinstance(z, T) else z for z in x.a)
        if not all(p is q or not isinstance(p, T) and p == q for p, q in zip(na, x.a)):
            y = rebuild(x.op, na)
            if x in LENS and y not in LENS:
                LENS[y] = LENS[x]
        memo[x] = y
        return y

    def leaves(x):
        if x.op == 'sel':
            return {x} if tyof(x) == 'u8' else None
        if isint(x):
            return set()
        if x.op in ('eq', 'lt', 'not', 'and', 'or', 'band', 'bor', 'bxor', 'bnot', 'shr', 'shl', 'cast', 'add', 'sub', 'rem', 'div', 'ite', 'true', 'false'):
            out = set()
            for z in x.a:
                if isinstance(z, T):
                    l = leaves(z)
                    if l is None:
                        return None
                    out |= l
            return out
        return None
    return go(t)


def checked_conv(prog):
    """conversions of a fixed-width integer to a primitive, by contract (decided in P12)"""
    def hook(eng, fr, s, c, args, atys, dty, cond, where):
        n, tr = c.get('n', ''), str(c.get('tr', ''))
        short = tr.rsplit('::', 1)[-1].split('<')[0]
        if len(args) == 1 and (short, n) in (('FromChecked', 'from_checked'), ('IntoChecked', 'into_checked')):
            at = prog.tys(atys[0]) if isinstance(atys[0], int) else ''
            d = prog.tys(dty) if isinstance(dty, int) else ''
            m = re.match(r'core::option::Option<(\w+)>$', d)
            if at.startswith(UI['U'] + '<') and m and m.group(1) in UINTS:
                a = FIELD(args[0], 0, 0)
                return ITE(FITS(a, m.group(1)), AGG(OPT, 1, NUM(a, m.group(1))), AGG(OPT, 0))
        return NotImplemented
    return hook


class Fx:
    """obligations about one function on fixed-width integers"""

    def __init__(self, rep, prog, b, rule, more=None, raw_=False):
        self.rep, self.prog, self.b, self.rule = rep, prog, b, rule
        self.key = nicename(b)
        rep.saw(b.path)
        self.F = Fixed(prog, more)
        self.r, self.err = analyse(prog, b, hooks=None if raw_ else {'call': self.F.hook})
        if self.r is None:
            rep.ob(self.key, UNDECIDED, where(b), rule, self.err)
            return
        self.p = params(prog, b, self.r)
        self.arrs, self.ints = [], []
        for i, x in enumerate(self.p):
            s = b.local_ty(i + 1)['s'].lstrip('&').replace('mut ', '')
            if re.match(r'numeric_ints::[ui]::[UI]<', s):
                self.arrs.append(FIELD(x, 0, 0))
            elif s.startswith('[u8; '):
                self.arrs.append(x)
            elif s in WIDTH:
                self.ints.append(x)
        m = [re.match(r'(?:core::option::Option<)?numeric_ints::[ui]::[UI]<(\w+)>|\[u8; (\w+)\]', b.local_ty(i)['s'].lstrip('&')) for i in range(b.argc + 1)]
        m = [x.group(1) or x.group(2) for x in m if x]
        self.N = LEN(self.arrs[0]) if self.arrs else sym(m[0], 'usize') if m and not m[0].isdigit() else mkint(int(m[0])) if m else None

    def __bool__(self):
        return self.r is not None

    def ob(self, what, v, d=None):
        self.rep.ob('%s: %s' % (self.key, what), v, where(self.b), self.rule, d)

    def value(self, what, specs, pre=TRUE, found=None):
        """the result equals one of the (equivalent) forms, whenever pre"""
        specs = specs if isinstance(specs, list) else [specs]
        found = self.r.ret if found is None else found
        pre = AND(LT(mkint(0), self.N), pre) if self.N is not None else pre
        if self.r.ret is UNDEF or self.r.cond is FALSE:
            self.ob(what, VIOLATED, 'never returns')
            return
        why = self.F.odd[0] if self.F.odd else None
        if why is None:
            try:
                f = canon(self.r, found, pre)
                for s in specs:
                    if agrees(f, s, pre):
                        self.ob(what, HOLD)
                        return
                why = show(f, 8)[:200]
            except Fail as e:
                why = 'no closed form: %s' % e
        w = self.witness(found, specs[0], pre)
        self.ob(what, VIOLATED if w is not None else UNDECIDED, w if w is not None else why)

    def panics(self, what, cond, pre=TRUE):
        """returns exactly unless cond, whenever pre"""
        pre = AND(LT(mkint(0), self.N), pre) if self.N is not None else pre
        pc = panic_cond(self.r)
        why = None
        try:
            if not any(x.op == 'phi' for x in subterms(pc)):
                if agrees(canon(self.r, pc, pre), cond, pre):
                    self.ob(what, HOLD)
                    return
            elif cond is FALSE:
                bad = None
                for c, k, w in self.r.panics:
                    if c is FALSE:
                        continue
                    from .compc import never
                    v, d = never(self.r, c, pre)
                    if v != HOLD:
                        bad = (k, w)
                        break
                if bad is None:
                    self.ob(what, HOLD)
                    return
                why = bad
        except Fail as e:
            why = 'no closed form: %s' % e
        w = self.witness(None, cond, pre)
        self.ob(what, VIOLATED if w is not None else UNDECIDED, w if w is not None else why or show(pc, 6)[:200])

    def witness(self, found, spec, pre):
        import time
        end = time.time() + 15
        for env in self.inputs():
            if time.time() > end:
                break
            R = Run(self.r.loops, env, turns=6000)
            S = Run({}, env)
            try:
                if not S.b(pre):
                    continue
                p = R.panicked(self.r)
                if found is None:
                    x, y = p is not None, S.b(spec)
                else:
                    if p is not None:
                        continue          # panics are an obligation of their own
                    x, y = decode(R.ev(found)), decode(S.ev(spec))
            except NoEval:
                continue
            if x != y:
                sh = {show(k, 2): hex(_val('u8', v[1:])) if isinstance(v, tuple) else v for k, v in env.items()}
                return {'inputs': sh, 'found': 'panics' if found is None and x else str(x), 'required': 'panic' if found is None and y else str(y)}
        return None

    def inputs(self):
        import itertools
        import random
        rnd = random.Random(5)
        every = [self.r.ret] + [x for L in self.r.loops.values() for p, i, s in L.phis.values() for x in (i, s)] + [e[0] for L in self.r.loops.values() for e in L.exits]
        cs = sorted(set(constants(*every)))
        ns = [self.N.a[0]] if self.N is not None and isint(self.N) else [1, 2, 3, 9, 17, 33] if self.N is not None else [0]
        if self.N is not None and not isint(self.N):
            ns += [c + d for c in cs if 4 <= c <= 130 for d in (-1, 0, 1, 2, 3) if c + d not in ns][:40]
        for n in ns:
            M = 1 << 8 * n
            vs = [sum((i + 1) % 256 << 8 * i for i in range(n)), 0, 1, 1 + (3 << 8 * (n - 1)) if n > 1 else 2, 2, 3, 7, M - 1, M - 2, M - 3, M >> 1, (M >> 1) - 1, (M >> 1) + 1, 0x80, 0xff, 0x100, 0x1234, 0xabcdef, 0x0123456789abcdef, 1 << 64, 1 << 71]
            vs = list(dict.fromkeys(v for v in vs if 0 <= v < M))
            if n > 3:
                vs = vs[:7] + vs[-6:]
            size = lambda a: n if not isint(LEN(a)) else LEN(a).a[0]
            seq = lambda a, v: ('arr',) + tuple(_limbs('u8', v % (1 << 8 * size(a)), size(a)))
            doms = [[seq(a, v) for v in vs] for a in self.arrs]
            for x in self.ints:
                lo, hi = irange(tyof(x))
                iv = [0, 1, 2, 7, 8, 9, 15, 16, 17, 255, 256, 0x1234, hi, hi >> 1, hi - 255, 0x1020304050607080, 1 << 64]
                doms.append(list(dict.fromkeys(v for v in iv if lo <= v <= hi)))
            k = 0
            at = {self.N: n} if self.N is not None and not isint(self.N) else {}
            for pt in itertools.product(*doms):
                k += 1
                if k > 400 or k > 40 and n > 40:
                    break
                yield dict(zip(self.arrs + self.ints, pt)) | at

            def num():
                q = rnd.random()
                if q < .3 and cs:
                    return rnd.choice(cs) + rnd.choice((-1, 0, 1, 2))
                if q < .5:
                    return rnd.choice(vs) + rnd.randrange(-8, 9)
                if q < .6:
                    return 1 << rnd.randrange(0, 8 * n + 1)
                if q < .7:
                    return rnd.randrange(0, 300)
                if q < .8:
                    return rnd.choice((0, 1, 1, 255)) + (rnd.randrange(1, 256) << 8 * max(0, n - 1 - rnd.randrange(3)))
                return sum(rnd.choice((0, 0, 1, 0x7f, 0x80, 0xff, rnd.randrange(256))) << 8 * i for i in range(n))
            for _ in range(120 if n <= 40 else 30):
                env = {a: seq(a, num()) for a in self.arrs}
                for x in self.ints:
                    lo, hi = irange(tyof(x))
                    env[x] = num() % (hi - lo + 1) + lo
                if len(self.arrs) == 2 and rnd.random() < .4:
                    # related operands
                    a, b = self.arrs
                    v = _val('u8', env[b][1:])
                    env[a] = seq(a, v * rnd.choice((1, 1, 2, 3, -1, 5)) + rnd.choice((0, 0, 1, -1)))
                yield env | at


def decode(v):
    if isinstance(v, tuple) and v and v[0] == 'agg':
        if v[1] in UI.values():
            return decode(v[3])
        if v[1] == OPT:
            return None if v[2] == 0 else ('some', decode(v[3]))
        return (v[1].rsplit('::', 1)[-1], v[2]) + tuple(decode(x) for x in v[3:])
    if isinstance(v, tuple) and v and v[0] == 'arr':
        if any(not isinstance(x, int) for x in v[1:]):
            raise NoEval('element')
        return 'bytes ' + ' '.join('%02x' % x for x in v[1:])
    return v


def elements(a, b, F):
    """two elements agree on every path, positions compared by linear arithmetic"""
    if F.cond(FALSE) is TRUE or F.bad([]):
        return True
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite':
            c = F.cond(x.a[0])
            if c is TRUE or c is FALSE:
                return elements(x.a[1] if c is TRUE else x.a[2], y, F)
            return elements(x.a[1], y, F.plus(c)) and elements(x.a[2], y, F.plus(c, False))
    if a is b:
        return True
    if a.op == b.op == 'sel' and a.a[0] is b.a[0]:
        i, j = a.a[1], b.a[1]
        return F.cond(LT(i, j)) is FALSE and F.cond(LT(j, i)) is FALSE
    return False


def agrees(a, b, pre):
    """structural agreement: the same operations on arrays that agree at every position"""
    if a is b:
        return True
    if a.op == 'lam' and b.op == 'lam':
        return same(a.a[0], b.a[0], pre)[0] == HOLD and (elements(a.a[2], b.a[2], Facts().plus(pre).plus(LT(IX, a.a[0]))) or same(a.a[2], b.a[2], AND(pre, LT(IX, a.a[0])))[0] == HOLD)
    if {a.op, b.op} == {'lam', 'rep'}:
        l, q = (a, b) if a.op == 'lam' else (b, a)
        return same(l.a[0], q.a[1], pre)[0] == HOLD and same(l.a[2], q.a[0], AND(pre, LT(IX, l.a[0])))[0] == HOLD
    if a.op == 'ite' or b.op == 'ite' or tyof(a) == 'bool' or tyof(b) == 'bool' or a.op == b.op == 'agg' or tyof(a) in WIDTH:
        m = {}

        def lift(x):
            # arrays given by their elements become names, the same for arrays that agree
            if x.op == 'lam' or x.op == 'rep':
                for y, nm in m.items():
                    if x is y or agrees(x, y, pre):
                        return nm
                nm = sym('#arr%d' % len(m), '[u8]')
                m[x] = nm
                return nm
            return None
        try:
            return same(subst(a, lift), subst(b, lift), pre)[0] == HOLD
        except (RecursionError, TypeError, KeyError, AssertionError, AttributeError, IndexError):
            return False
    if a.op == b.op and len(a.a) == len(b.a):
        return all(agrees(x, y, pre) if isinstance(x, T) and isinstance(y, T) else x == y for x, y in zip(a.a, b.a))
    try:
        return same(a, b, pre)[0] == HOLD
    except (RecursionError, TypeError, KeyError, AssertionError, AttributeError, IndexError):
        return False
