"""P15 - arbitrary-precision arithmetic is exact, in every operator form."""
from .bigc import *

RULE = ('Calls of limb routines and of the integer\'s own operations are replaced by the integer operation they are separately shown to perform; what remains of each '
        'function is compared with the definition as a polynomial in every combination of signs and orders.')


def head(prog, b):
    t = (b.j.get('itrait') or '').split('<')[0].rsplit('::', 1)[-1]
    return t, targs(prog, b)


class Root:
    def __init__(self, rep, prog, b, what, low=()):
        self.rep, self.prog, self.b = rep, prog, b
        rep.saw(b.path)
        self.A = Abs(prog, b, low)
        self.key = '%s: %s' % (nice(b), what)
        self.r, err = analyse(prog, b, hooks={'call': self.A.hook})
        self.ok = self.r is not None
        if not self.ok:
            rep.ob(self.key, UNDECIDED, where(b), RULE, err)
            return
        self.p = params(prog, b, self.r)
        self.tys = [b.local_ty(i + 1) for i in range(b.argc)]
        self.zs, self.bigs, self.ints = [], [], []
        for x, t in zip(self.p, self.tys):
            s = t['s'].replace('&', '').replace('mut ', '').strip()
            if s == BI:
                self.zs.append(VAL(x))
                self.bigs.append(x)
            elif s in PRIMS:
                self.zs.append(INT(x, s))
                self.ints.append(x)
            else:
                self.zs.append(None)

    def ob(self, found, spec, pre=TRUE, bounds=(), what=''):
        if found is None:
            self.rep.ob(self.key + what, UNDECIDED, where(self.b), RULE, 'no result')
            return
        if self.r.cond is FALSE:
            self.rep.ob(self.key + what, VIOLATED, where(self.b), RULE, 'never returns')
            return
        try:
            found = unroll(found, self.r.loops)
            v, d = decide(found, spec, self.bigs, self.ints, pre, bounds)
            if v == UNDECIDED and self.bigs:
                # results that look at the word of an inline value
                w = witness(found, spec, self.bigs, self.ints, pre, bounds, words=inline_words(self.prog))
                if w is not None:
                    v, d = VIOLATED, w
        except Many as e:
            v, d = UNDECIDED, 'loop: %s' % e
        self.rep.ob(self.key + what, v, where(self.b), RULE, d)

    def returns(self, never=FALSE, pre=TRUE):
        """panics only where stated"""
        pc = panic_cond(self.r)
        if pc is FALSE:
            return
        try:
            pc = unroll(pc, self.r.loops)
        except Many as e:
            return
        v, d = decide(pc, FALSE, self.bigs, self.ints, AND(pre, NOT(never)))
        if v == VIOLATED or v == UNDECIDED and os_debug():
            self.rep.ob(self.key + ': returns', v, where(self.b), RULE, d)


def inline_words(prog):
    """the word that stands for a small value, as the code reads words"""
    from .wordc import Reading, word

    class Quiet:
        def __getattr__(self, n):
            return lambda *a, **k: None
    if not hasattr(prog, 'wordreading'):
        prog.wordreading = Reading(prog, Quiet(), RULE)
    R = prog.wordreading
    if not R.ok:
        return lambda x, v: None
    memo = {}

    def f(x, v):
        if abs(v) >= 1 << 62:
            return None
        if v not in memo:
            memo[v] = None
            for k in range(4):
                w = mkint(abs(v) << 2 | k)
                if R.inl(w) is TRUE and R.neg(w) is mkbool(v < 0) and R.off(w) is mkint(abs(v)) and R.canon(w) is TRUE:
                    memo[v] = w
                    break
        w = word(x)
        return (w, memo[v]) if memo[v] is not None else None
    return f


def os_debug():
    import os
    return bool(os.environ.get('SA_DEBUG'))


def nice(b):
    s = b.path
    for x in ('numeric_ints::big_int::', 'core::ops::arith::', 'core::ops::bit::', 'core::convert::', 'core::cmp::', 'numeric_traits::cast::', 'numeric_traits::class::',
              'numeric_traits::identity::', 'numeric_traits::ops::', 'core::clone::', 'core::ops::drop::', 'core::default::'):
        s = s.replace(x, '')
    return s


def forms(prog):
    """operator implementations: (root, trait, operation, kind)"""
    for b in prog.roots:
        if '::tests::' in b.path or 'big_int' not in b.path and BI not in b.path:
            continue
        t, a = head(prog, b)
        if not t or not any(x.replace('&', '').strip() == BI for x in a[:1]):
            continue
        n = b.name
        if n in OPS and t.lower() == n:
            yield b, t, n, 'value'
        elif n.endswith('_assign') and n[:-7] in OPS and t.lower() == n.replace('_', ''):
            yield b, t, n[:-7], 'assign'
        elif (t, n) in (('Neg', 'neg'), ('Signed', 'abs'), ('Zero', 'zero'), ('One', 'one'), ('Pow', 'pow')):
            yield b, t, n, n


def run():
    rep = Report('P15', RULE, ['limb routines give the exact integer result (P04, P05, P07, P09)', 'words represent values as decided by P14'])
    prog = facts.load('numeric_ints')
    n = 0
    graph = {}
    for b, t, op, kind in forms(prog):
        n += 1
        if kind == 'pow':
            power(rep, prog, b)
            continue
        R = Root(rep, prog, b, 'exact')
        if not R.ok:
            continue
        me = (t, b.name, tuple(x['s'] for x in R.tys))
        graph[me] = [c for c in R.A.calls]
        if kind in ('value', 'assign'):
            if len(R.zs) != 2 or None in R.zs:
                continue
            found = R.r.ret if kind == 'value' else final(R.r, b, 0)
            if kind == 'assign' and not isinstance(found, T):
                found = None
            spec = BIGZ(Z(OPS[op], *R.zs))
            pre = TRUE
            never = FALSE
            if op in ('div', 'rem'):
                pre = NOT(ZEQ(R.zs[1], K(0)))
                never = ZEQ(R.zs[1], K(0))
            if op in ('shl', 'shr'):
                pre = AND(NOT(NEG(R.zs[1])), NOT(ZLT(K((1 << 64) - 1), R.zs[1])))
                never = NOT(pre)
            if op.startswith('bit'):
                pre = AND(NOT(NEG(R.zs[0])), NOT(NEG(R.zs[1])))
            R.ob(found, spec, pre)
            R.returns(never, pre if op.startswith('bit') else TRUE)
        elif kind == 'neg':
            if any(t_ in b.path for t_ in ('Neg',)):
                pass
            R.ob(R.r.ret, BIGZ(Z('negate', R.zs[0]))) if not lowlevel(R.r.ret) else neglow(R)
        elif kind == 'abs':
            R.ob(R.r.ret, BIGZ(Z('abs', R.zs[0])))
        elif kind in ('zero', 'one'):
            R.ob(R.r.ret, BIGZ(K(0 if kind == 'zero' else 1)))
    # forwarding must end somewhere
    for k in graph:
        seen, cur = [], k
        while cur in graph and len(set(graph[cur])) == 1 and cur not in seen:
            seen.append(cur)
            cur = graph[cur][0]
        if cur in seen:
            rep.ob('%s: forwarding ends' % (k,), VIOLATED, str(k), 'an operator form is not defined by itself', [str(x) for x in seen])
    rep.floor('operator forms', n, 40)
    return rep


def lowlevel(t):
    return t.op == 'agg'


def neglow(R):
    """negation works on the word: same offset and storage, sign flipped unless zero"""
    w = FIELD(FIELD(R.p[0], 0, 0), 0, 0)
    got = FIELD(FIELD(R.r.ret, 0, 0), 0, 0)
    z = mkint(2)
    tag = BIN('band', 'usize', w, mkint(3))
    pre = TRUE
    v, d = same(got, ITE(EQ(w, z), w, BIN('bxor', 'usize', w, ONE_)), pre)
    R.rep.ob(R.key, v, where(R.b), RULE, d)


ONE_ = mkint(1)


def power(rep, prog, b):
    """repeated multiplication: one factor per unit of the exponent"""
    R = Root(rep, prog, b, 'power')
    if not R.ok:
        return
    x, e = R.zs
    base, ex = R.bigs
    r = R.r
    pre = NOT(NEG(e))
    if not r.loops:
        R.ob(r.ret, BIGZ(Z('pow', x, e)), pre)
        return
    w = run_loop(r, base, ex)
    if w is not None:
        rep.ob(R.key, VIOLATED, where(b), RULE, w)
        return
    if len(r.loops) != 1:
        rep.ob(R.key, UNDECIDED, where(b), RULE, 'shape')
        return
    L = next(iter(r.loops.values()))
    ph = [(p, i, s) for p, i, s in L.phis.values() if tyof(p) == BI]
    if len(ph) != 2 or len(L.exits) != 1:
        rep.ob(R.key, UNDECIDED, where(b), RULE, 'shape')
        return
    for (po, io, so), (pe, ie, se) in (ph, ph[::-1]):
        fo = raw('fin', L.id, po.a[1], po.a[2])
        dec = decide(se, BIGZ(Z('sub', VAL(pe), K(1))), [pe])[0]
        mul = decide(so, BIGZ(Z('mul', VAL(po), x)), [po, base])[0]
        if dec != HOLD or mul != HOLD:
            continue
        # out = base^k with k = (exponents used so far); leave at the exponent that makes it complete
        for c0, k0 in ((1, 1), (0, 0)):
            start = decide(io, base if c0 else BIGZ(K(1)), [base, ex], pre=AND(pre, ZLT(K(0), e)))[0]
            e0 = decide(ie, ex, [base, ex], pre=AND(pre, ZLT(K(0), e)))[0]
            stop = decide(L.exits[0][0], NOT(ZLT(K(k0), VAL(pe))), [pe])[0]
            if start == e0 == stop == HOLD:
                rest = subst(r.ret, lambda y: BIGZ(Z('pow', x, e)) if y is fo else None)
                if not any(y.op in ('fin', 'phi') for y in subterms(rest)):
                    sp = subst(BIGZ(Z('pow', x, e)), lambda y: None)
                    v1 = decide(rest, sp, R.bigs, pre=AND(pre, NOT(ZEQ(e, K(0)))))
                    v0 = decide(rest, BIGZ(K(1)), R.bigs, pre=ZEQ(e, K(0))) if c0 else (HOLD, None)
                    rep.ob(R.key, HOLD if v1[0] == v0[0] == HOLD else UNDECIDED, where(b), RULE, (v1, v0))
                    return
    rep.ob(R.key, UNDECIDED, where(b), RULE, 'recurrence not recognised')


def run_loop(r, base, ex):
    """execute the recurrence on small values"""
    for bv in (0, 1, 2, 3, -2):
        for ev in list(range(12)) + [31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257]:
            try:
                got = execute(r, {base: bv, ex: ev})
            except Stuck as e:
                continue
            if got != bv ** ev:
                return {'base': bv, 'exponent': ev, 'found': got, 'required': bv ** ev}
    return None
