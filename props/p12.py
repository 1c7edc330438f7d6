"""P12: byte forms and conversions between fixed-width and primitive integers."""
from .fixc import *
from .compc import FORALL
from .p11 import some, NONE
from sa.loops import under

RULE = ('Byte forms: every byte of the result at a symbolic position. Conversions: the bytes kept, and a refusal exactly when a byte beyond the target is not zero, '
        'compared with the definition for every width, separately for widths up to and beyond the primitive.')
U = UI['U']


def UNB(ty, a):
    return raw('unbytes', 'le', ty, a)


def BYT(ty, v):
    t = raw('bytes', 'le', ty, v)
    LENS[t] = mkint(WIDTH[ty] // 8)
    return t


def LOW(a, n, k):
    """the low n bytes of an array of k, zeros beyond"""
    return LAM(n, lambda i: ITE(LT(i, k), SEL(a, i), mkint(0, 'u8')))


def run():
    rep = Report('P12', RULE)
    prog = facts.load('numeric_ints')
    n = 0
    for b in prog.roots:
        if '::tests::' in b.path:
            continue
        k = rule(b.path)
        if k is None:
            continue
        n += 1
        f = Fx(rep, prog, b, RULE)
        if f:
            k(f)
    rep.floor('byte forms and conversions', n, 40)
    floats(rep)
    limbs(rep)
    return rep


def rule(path):
    m = re.match(r'%s::<(?:N|\d+)>::(from|to|as)_(\w+)$' % re.escape(U), path)
    if m:
        d, w = m.groups()
        if w in ('le_bytes', 'be_bytes', 'ne_bytes'):
            return lambda f: byteform(f, d == 'from', w[:2])
        if w in UINTS:
            return lambda f: exact(f, d == 'from', w)
        return None
    m = re.match(r'numeric_ints::u::<impl numeric_traits::cast::From(Checked|Saturating|Truncating)<%s<N>> for (\w+)>::\w+$' % re.escape(U), path)
    if m and m.group(2) in UINTS and not path.endswith('::SIZE'):
        return lambda f: outof(f, *m.groups())
    m = re.match(r'<%s<N> as numeric_traits::cast::From(Checked|Saturating|Truncating)<(\w+)>>::\w+$' % re.escape(U), path)
    if m and m.group(2) in UINTS and not path.endswith('::SIZE'):
        return lambda f: into(f, *m.groups())
    return None


def byteform(f, frm, e):
    a = f.arrs[0]
    rev = e == 'be'
    sp = LAM(f.N, lambda i: SEL(a, BIN('sub', 'usize', BIN('sub', 'usize', f.N, mkint(1)), i))) if rev else a
    sp2 = LAM(f.N, lambda i: SEL(a, i))
    specs = [sp] if rev else [sp, sp2]
    f.value('every byte in its place', [AGG(U, 0, s) for s in specs] if frm else specs)
    f.panics('returns', FALSE)


FLT = 'numeric_reals::f::F'


def floats(rep):
    """the float container keeps its bytes, and has the bits of the integer of the same bytes"""
    n = 0
    prog = facts.load('numeric_reals')
    for b in prog.roots:
        m = re.match(r'%s::<N>::(from|to)_(le_bytes|be_bytes|ne_bytes|bits)$' % re.escape(FLT), b.path)
        if not m:
            continue
        n += 1
        f = Fx(rep, prog, b, RULE)
        if not f:
            continue
        d, w = m.groups()
        s = b.local_ty(1)['s']
        if s.startswith(FLT + '<'):
            f.arrs = [FIELD(f.p[0], 0, 0)]
            f.N = sym('N', 'usize')
            LENS.setdefault(f.arrs[0], f.N)
        if not f.arrs:
            rep.ob(f.key, UNDECIDED, where(b), RULE, 'unexpected operands')
            continue
        a = f.arrs[0]
        keep = [a, LAM(f.N, lambda i: SEL(a, i))]
        turn = [LAM(f.N, lambda i: SEL(a, BIN('sub', 'usize', BIN('sub', 'usize', f.N, mkint(1)), i)))]
        specs = turn if w == 'be_bytes' else keep
        if d == 'from':
            specs = [AGG(FLT, 0, x) for x in specs]
        elif w == 'bits':
            specs = [AGG(U, 0, x) for x in specs]
        f.value('every byte in its place', specs)
        f.panics('returns', FALSE)
    rep.floor('byte forms of the float container', n, 8)


def exact(f, frm, ty):
    if frm:
        f.value('the same number', AGG(U, 0, BYT(ty, f.ints[0])))
    else:
        f.value('the same number', UNB(ty, f.arrs[0]))
    f.panics('returns', FALSE)


def cases(f, ty):
    S = mkint(WIDTH[ty] // 8)
    return S, (('up to the primitive', NOT(LT(S, f.N))), ('beyond the primitive', LT(S, f.N)))


def outof(f, how, ty):
    a = f.arrs[0]
    S, cs = cases(f, ty)
    v = UNB(ty, LOW(a, S, f.N))
    fits = FORALL(f.N, lambda i: OR(LT(i, S), EQ(SEL(a, i), mkint(0, 'u8'))))
    for nm, c in cs:
        small = nm.startswith('up')
        ok = TRUE if small else fits
        sp = {'Checked': ITE(ok, some(v), NONE), 'Saturating': ITE(ok, v, mkint(irange(ty)[1], ty)), 'Truncating': v}[how]
        f.value({'Checked': 'the number, or nothing exactly when it does not fit', 'Saturating': 'the number, or the largest when it does not fit', 'Truncating': 'the low bits'}[how] + ', widths ' + nm, sp, c)
        f.panics('returns, widths ' + nm, FALSE, c)


def into(f, how, ty):
    S, cs = cases(f, ty)
    y = BYT(ty, f.ints[0])
    v = AGG(U, 0, LOW(y, f.N, S))
    fits = FORALL(S, lambda i: OR(LT(i, f.N), EQ(SEL(y, i), mkint(0, 'u8'))))
    for nm, c in (('below the primitive', LT(f.N, S)), ('from the primitive on', NOT(LT(f.N, S)))):
        if nm.startswith('below') and S.a[0] == 1:
            continue
        ok = fits if nm.startswith('below') else TRUE
        sp = {'Checked': ITE(ok, some(v), NONE), 'Saturating': ITE(ok, v, AGG(U, 0, raw('rep', mkint(255, 'u8'), f.N))), 'Truncating': v}[how]
        f.value('the number, or nothing exactly when it does not fit, widths ' + nm, sp, c)
        f.panics('returns, widths ' + nm, FALSE, c)


# ---------------------------------------------------------------- limbs
from sa.loops import LoopView, exit_value, IT
from .fixc import _val, _limbs


def limbs(rep):
    n = 0
    seen = set()
    for cr in ('numeric_bits', 'numeric_ints'):
        prog = facts.load(cr)
        for b in prog.bodies.values():
            m = re.match(r'numeric_bits::utils::(int_to_arr|arr_to_int)$', b.path)
            if not m:
                continue
            ts = [b.local_ty(i)['s'] for i in range(b.argc + 1)]
            o = re.match(r'\[(\w+); (\w+)\]$', ts[0]) if m.group(1) == 'int_to_arr' else re.match(r'core::option::Option<(\w+)>$', ts[0])
            i = re.match(r'(\w+)$', ts[1]) if m.group(1) == 'int_to_arr' else re.match(r'&\[(\w+)\]$', ts[1])
            if not o or not i or o.group(1) not in UINTS or i.group(1) not in UINTS or tuple(ts) in seen:
                continue
            seen.add(tuple(ts))
            n += 1
            rep.saw(b.path)
            r, err = analyse(prog, b)
            key = '%s: %s from %s' % (m.group(1), ts[0].replace('core::option::', ''), ts[1])
            if r is None:
                rep.ob(key, UNDECIDED, where(b), RULE, err)
                continue
            p = params(prog, b, r)[0]
            (spread if m.group(1) == 'int_to_arr' else gather)(rep, key, b, r, p, i.group(1), o.group(1), o.group(2) if m.group(1) == 'int_to_arr' else None)
    rep.floor('limb forms of primitives', n, 12)


def spread(rep, key, b, r, val, T_, E, N):
    """the limbs of a number, least significant first"""
    n = mkint(int(N)) if N.isdigit() else sym(N, 'usize')
    M = 1 << WIDTH[E]
    pre = LT(mkint(0), n)

    def holds():
        wide = WIDTH[T_] > WIDTH[E]
        Ls = {x.a[0] for x in subterms(r.ret) if x.op in ('fin', 'exitsel')}
        small = LAM(n, lambda i: ITE(EQ(i, mkint(0)), CAST(T_, E, val), mkint(0, E)))
        if not wide:
            return not Ls and agrees(canon(r, r.ret, pre), small, pre)
        if len(Ls) != 1 or next(iter(Ls)) not in r.loops:
            return False
        L = r.loops[next(iter(Ls))]
        lt = LT(mkint(M - 1, T_), val)
        big, sm = under(r.ret, lt), under(r.ret, NOT(lt))
        if sm is not big and not agrees(canon(r, sm, AND(pre, NOT(lt))), small, AND(pre, NOT(lt))):
            return False
        v = LoopView(L, n, 'up')
        if len(v.data) != 2 or not v.counters or any(d != 1 for _, _, d in v.counters.values()) or len(v.exits) != 2:
            return False
        (S,) = [x for x in v.data.values() if tyof(x[0]) != T_] or [None]
        (left,) = [x for x in v.data.values() if tyof(x[0]) == T_] or [None]
        if S is None or left is None or not allzero(S[1]) or left[1] is not val:
            return False
        more = AND(LT(IT, n), LT(mkint(M - 1, T_), left[0]))
        m = lambda t: v.m(t, {S[0]: S[0], left[0]: left[0]})
        q = m(S[2])
        if q.op != 'upd' or q.a[0] is not S[0] or q.a[1] is not IT or same(q.a[2], CAST(T_, E, BIN('rem', T_, left[0], mkint(M, T_))), more)[0] != HOLD:
            return False
        if same(m(left[2]), BIN('div', T_, left[0], mkint(M, T_)), more)[0] != HOLD:
            return False
        for k, e in enumerate(v.exits):
            x = m(exit_value(big, L.id, k, 2))
            if same(m(e), NOT(LT(IT, n)), TRUE)[0] == HOLD:
                if x is not S[0]:
                    return False
            elif same(m(e), AND(LT(IT, n), NOT(LT(mkint(M - 1, T_), left[0]))), TRUE)[0] == HOLD:
                if x.op != 'upd' or x.a[0] is not S[0] or x.a[1] is not IT or same(x.a[2], CAST(T_, E, left[0]), NOT(LT(mkint(M - 1, T_), left[0])))[0] != HOLD:
                    return False
            else:
                return False
        return True

    def envs():
        hi = irange(T_)[1]
        for k in ([n.a[0]] if isint(n) else (1, 2, 3, 8)):
            for x in (0, 1, 2, 255, 256, 257, 0x1234, 0x10000, 0x123456, M - 1, M, M + 1, 3 * M + 2, hi, hi - 1, hi >> 1, 1 << 64, (1 << 65) + 7, M * M, M * M + 5):
                if 0 <= x <= hi and x < M ** k:
                    yield {val: x, **({} if isint(n) else {n: k})}, ('arr',) + tuple(_limbs(E, x, k))
    settle(rep, key + ': the limbs spell the number', b, r, holds, envs)


def gather(rep, key, b, r, arr, T_, E, _):
    """the number that limbs spell"""
    W, w = WIDTH[E], WIDTH[T_]

    def holds():
        if len(r.loops) != 1:
            return False
        L = next(iter(r.loops.values()))
        n = LEN(arr)
        v = LoopView(L, n, 'up')
        if len(v.data) != 1 or not v.counters or any(d != 1 for _, _, d in v.counters.values()):
            return False
        acc = next(iter(v.data.values()))
        if not isint(acc[1]) or acc[1].a[0] != 0 or tyof(acc[0]) != E:
            return False
        m = lambda t: v.m(t, {acc[0]: acc[0]})
        limb = SEL(arr, IT)
        fits = TRUE if w <= W else NOT(LT(mkint((1 << W) - 1, T_), limb))
        inside = LT(IT, mkint(max(1, W // w)))
        ends, early = [], FALSE
        for k, e in enumerate(v.exits):
            x = m(exit_value(r.ret, L.id, k, len(v.exits)))
            if same(m(e), NOT(LT(IT, n)), TRUE)[0] == HOLD:
                if x is not AGG(OPT, 1, acc[0]):
                    return False
            else:
                if x is not AGG(OPT, 0):
                    return False
                early = OR(early, m(e))
        go = LT(IT, n)
        short = LT(IT, mkint(1 << 40))
        # refuses only what does not fit (or has limbs beyond the target), and everything that does not fit
        if same(AND(early, fits, inside), FALSE, AND(go, short))[0] != HOLD:
            return False
        for k in range(max(1, W // w)):
            at = lambda t: subst(t, lambda x: mkint(k) if x is IT else None)
            pre = AND(at(AND(go, fits)), LT(acc[0], mkint(1 << k * w, E)) if k else EQ(acc[0], mkint(0, E)))
            if same(at(early), NOT(at(fits)), at(go))[0] != HOLD:
                return False
            if same(at(m(acc[2])), BIN('add', E, acc[0], BIN('shl', E, CAST(T_, E, at(limb)), mkint(k * w, 'u32'))), pre)[0] != HOLD:
                return False
        return same(AND(NOT(early), NOT(EQ(limb, mkint(0, T_)))), FALSE, AND(go, NOT(inside), short))[0] == HOLD

    def envs():
        hi = irange(T_)[1]
        vs = [0, 1, 2, 255, 256, 65535, 65536, 0x12345678, hi, hi >> 1]
        vs = [x for x in dict.fromkeys(vs) if x <= hi]
        k = max(1, W // w)
        import itertools
        for ln in range(0, min(k, 3) + 2):
            for pt in itertools.islice(itertools.product(vs, repeat=ln), 800):
                if ln > k and not any(pt[k:]):
                    continue
                x = sum(d << w * i for i, d in enumerate(pt))
                yield {arr: ('arr',) + pt, LEN(arr): ln}, ('agg', OPT, 1, x) if x < 1 << W else ('agg', OPT, 0)
    settle(rep, key + ': the number the limbs spell, or nothing when it does not fit', b, r, holds, envs)


def settle(rep, key, b, r, holds, envs):
    try:
        ok = holds()
    except (Fail, ValueError, KeyError, IndexError, AttributeError, TypeError, RecursionError):
        ok = False
    if ok:
        rep.ob(key, HOLD, where(b), RULE)
        return
    for env, want in envs():
        R = Run(r.loops, env)
        try:
            if R.panicked(r) is not None:
                got = 'panics'
            else:
                got = R.ev(r.ret)
        except NoEval:
            continue
        if got != want:
            rep.ob(key, VIOLATED, where(b), RULE, {'inputs': {show(k, 2): str(v) for k, v in env.items()}, 'found': str(got), 'required': str(want)})
            return
    rep.ob(key, UNDECIDED, where(b), RULE, show(r.ret, 6)[:200])
