"""Loop summaries against loop specifications.

A loop of the analysed function is given as its recurrence (carried leaves with initial value and
one-iteration step, exit conditions); nothing is unrolled.  A specification is a recurrence too, over
a canonical iteration variable.  The comparison finds a correspondence between the carried leaves and
the state of the specification and then decides, as universally quantified one-step identities:
initial values, step, coverage of the iteration space, every early exit, results.  Together these are
the induction that the two recurrences compute the same thing for every length and every content."""
import itertools

from .term import *
from .decide import (calls_in, Norm, OPSEM, same, HOLD, VIOLATED, UNDECIDED, padd, TooBig, assume)

IT = sym('#i', 'usize')       # canonical iteration variable (up: index; down: index + 1)


DONE = sym('#done', 'bool')   # an inclusive descending range has visited its last index


def lits(c):
    return list(c.a) if c.op == 'and' else [c]


def under(t, cond):
    """t simplified assuming cond"""
    for l in lits(cond):
        if l is TRUE:
            continue
        if l.op == 'not':
            t = assume(t, l.a[0], False, {})
        else:
            t = assume(t, l, True, {})
    return t


def isphi(t, lid):
    return t.op == 'phi' and t.a[0] == lid


def offset(a, b):
    """integer constant a - b, or None"""
    if a is b:
        return 0
    try:
        nm = Norm()
        d = padd(nm.ip(a)[0], nm.ip(b)[0], -1)
    except (TooBig, KeyError, TypeError, AttributeError):
        return None
    w = WIDTH.get(tyof(a) or tyof(b) or 'usize', 64)
    ks = [(k, v) for k, v in d.m.items() if v]
    if not ks:
        return 0
    if len(ks) == 1 and ks[0][0] == ():
        v = ks[0][1]
        return v
    # the difference of machine terms x+1 and x may carry a wrap atom; accept the syntactic forms
    for p, q, s in ((a, b, 1), (b, a, -1)):
        if p.op == 'add' and isint(p.a[2]) and p.a[1] is q:
            return s * p.a[2].a[0]
        if p.op == 'sub' and isint(p.a[2]) and p.a[1] is q:
            return -s * p.a[2].a[0]
    return None


def linear(t):
    """(base, const) for x, x+c, x-c"""
    if t.op == 'add' and isint(t.a[2]):
        return t.a[1], t.a[2].a[0]
    if t.op == 'sub' and isint(t.a[2]) and t.a[0] in WIDTH:
        return t.a[1], -t.a[2].a[0]
    if isint(t):
        return None, t.a[0]
    return t, 0


class LoopView:
    """a loop summary with induction variables replaced by the canonical one"""

    def __init__(self, L, N, direction):
        self.L = L
        self.N = N
        self.dir = direction
        self.bad = None
        lid = L.id
        ex = [e[0] for e in L.exits]
        phis = {k: list(v) for k, v in L.phis.items()}
        # ---- inclusive ranges: (start, exhausted) becomes one counter
        sub0 = {}
        for k, (p, init, step) in list(phis.items()):
            if tyof(p) != 'bool' or init is not FALSE:
                continue
            cont = AND(*[NOT(e) for e in ex])
            if NOT(p) not in lits(cont):
                continue
            st = under(step, cont)
            if st.op != 'eq':
                continue
            for q, e in ((st.a[0], st.a[1]), (st.a[1], st.a[0])):
                if isphi(q, lid) and any(phis[k2][0] is q for k2 in phis):
                    kq = q.a[1]
                    qs = under(phis[kq][2], cont)
                    # q' = q+1 unless q == end
                    qs1 = assume(qs, st, False, {})
                    if linear(qs1) == (q, 1):
                        sub0[p] = FALSE
                        phis[kq][2] = BIN('add', 'usize', q, mkint(1))
                        del phis[k]
                        ex = [assume(x, p, False, {}) for x in ex]
                    elif linear(qs1) == (q, -1):
                        # down: end (q) decreases to start e; the flag is "all visited"
                        sub0[p] = FALSE
                        phis[kq][2] = BIN('sub', 'usize', q, mkint(1))
                        del phis[k]
                        ex = [subst(x, lambda y: DONE if y is p else None) for x in ex]
                    break
        if sub0:
            f = lambda x: sub0.get(x)
            for k in phis:
                phis[k][2] = subst(phis[k][2], f)
            # remaining "is it the last one" tests inside steps do not matter for the counter
        cont = AND(*[NOT(e) for e in ex])
        self.counters = {}
        for k, (p, init, step) in list(phis.items()):
            ty = tyof(p)
            if ty not in WIDTH:
                continue
            st = under(step, cont)
            b, c = linear(st)
            if b is p and c in (1, -1):
                self.counters[k] = (p, init, c)
        self.map = {DONE: EQ(IT, N) if direction == 'up' else EQ(IT, mkint(0))}
        for k, (p, init, c) in self.counters.items():
            ty = tyof(p)
            it = IT if ty == 'usize' else CAST('usize', ty, IT)
            if direction == 'up':
                if c == 1:
                    self.map[p] = BIN('add', ty, it, init) if not (isint(init) and init.a[0] == 0) else it
                else:
                    self.map[p] = BIN('sub', ty, init, it)
            else:
                # IT counts N .. 1
                n = BIN('sub', 'usize', N, IT)
                if c == -1:
                    o = offset(init, N) if ty == 'usize' else None
                    if o is not None:
                        self.map[p] = BIN('add', ty, IT, mkint(o)) if o >= 0 else BIN('sub', ty, IT, mkint(-o))
                    else:
                        self.map[p] = BIN('sub', ty, init, n)
                else:
                    self.map[p] = BIN('add', ty, init, n) if not (isint(init) and init.a[0] == 0) else n
        self.data = {k: (p, init, under(step, cont)) for k, (p, init, step) in phis.items() if k not in self.counters}
        self.exits = ex
        self.cont = cont
        self.sub0 = sub0

    def m(self, t, extra):
        """term over phis / fins -> term over the canonical state"""
        lid = self.L.id
        mp = dict(self.map)
        mp.update(self.sub0)
        mp.update(extra)

        def f(x):
            if x.op == 'phi' and x.a[0] == lid:
                return mp.get(x)
            if x.op == 'fin' and x.a[0] == lid:
                return mp.get(raw('phi', lid, x.a[1], x.a[2]))
            if x is DONE:
                return mp[DONE]
            return None
        return subst(t, f)


def live(view, outs):
    """data phis the results depend on"""
    lid = view.L.id
    need, todo = set(), []

    def scan(t):
        for x in subterms(t):
            if x.op in ('phi', 'fin') and x.a[0] == lid and x.a[1] in view.data and x.a[1] not in need:
                need.add(x.a[1])
                todo.append(x.a[1])
    for e in view.exits:
        scan(e)
    for o in outs:
        scan(o)
    while todo:
        scan(view.data[todo.pop()][2])
    return need


def writes(t, S):
    """t as conditional point updates of the sequence S: [(cond, index, value)] in order, or None"""
    if t is S:
        return []
    if t.op == 'upd':
        w = writes(t.a[0], S)
        return None if w is None else w + [(TRUE, t.a[1], t.a[2])]
    if t.op == 'ite':
        c, a, b = t.a
        wa, wb = writes(a, S), writes(b, S)
        if wa is None or wb is None:
            return None
        if not wb:
            return [(AND(c, k), i, v) for k, i, v in wa]
        if not wa:
            return [(AND(NOT(c), k), i, v) for k, i, v in wb]
        return [(AND(c, k), i, v) for k, i, v in wa] + [(AND(NOT(c), k), i, v) for k, i, v in wb]
    return None


def element(t, S, q):
    """value at index q of t, as a scalar term"""
    return SEL(t, q)


Q = sym('#q', 'usize')


def SELX(t, q):
    """SEL with update resolution by case on index equality"""
    if t.op == 'upd':
        i = t.a[1]
        at = t.a[2] if i.op == 'int' else subst(t.a[2], lambda x: q if x is i else None)
        return ITE(EQ(i, q), at, SELX(t.a[0], q))
    if t.op == 'ite':
        return ITE(t.a[0], SELX(t.a[1], q), SELX(t.a[2], q))
    return SEL(t, q)


def whole(t):
    """the sequences t may be, when it is one of several unchanged"""
    if t.op == 'sym':
        return {t}
    if t.op == 'ite':
        x, y = whole(t.a[1]), whole(t.a[2])
        return None if x is None or y is None else x | y
    return None


def seq_same(a, b, pre, S, fr=lambda t: t):
    """two updated versions of the sequence S are the same sequence"""
    if a is b:
        return HOLD, None
    wa, wb = writes(a, S), writes(b, S)
    if wa is not None and wb is not None and len(wa) == len(wb) == 1:
        (c1, i1, v1), (c2, i2, v2) = wa[0], wb[0]
        # out-of-range writes are no writes: both are compared where they happen
        v, d = same(c1, c2, pre)
        if v == HOLD:
            p2 = AND(pre, c2)
            v, d = same(i1, i2, p2)
            if v == HOLD:
                return same(v1, v2, p2)
            if v == VIOLATED:
                return v, d
        elif v == UNDECIDED:
            return v, d
    if wa is not None and wb is not None:
        p2 = AND(pre, LT(Q, LEN(S)))
        r = same(SELX(a, Q), SELX(b, Q), p2)
        if r[0] == UNDECIDED:
            for _, i, _ in wb + wa:
                r2 = same(fr(SELX(a, i)), fr(SELX(b, i)), AND(pre, LT(i, LEN(S))))
                if r2[0] == VIOLATED:
                    return r2
        return r
    if any(x.op == 'opout' for x in subterms(b)):
        return same(a, b, pre)
    lv = whole(a), whole(b)
    if None not in lv:
        return same(a, b, pre)
    return UNDECIDED, 'update shape'


class Spec:
    """direction 'up' (IT = 0..N-1) or 'down' (IT = N..1, current index IT-1)
    vars: name -> (init, state symbol); step(st) -> dict; early(st) -> [(cond, outputs)] spec exits
    stop_ok(st): where stopping early changes nothing; out(st) -> {name: term} results at the end"""

    def __init__(self, direction, N, vars, step, out, exits=None, stop_ok=None, inv=None, frame=None):
        self.dir, self.N, self.vars, self.step, self.out = direction, N, vars, step, out
        self.exits = exits or (lambda st: [])
        self.stop_ok = stop_ok or (lambda st: FALSE)
        self.inv = inv or (lambda st: TRUE)
        self.frame = frame or {}


def relations(var_sym, p):
    """ways a carried leaf p can represent the state symbol: list of (impl phi -> term over state)"""
    tv, tp = tyof(var_sym), tyof(p)
    if tv == 'bool':
        if tp == 'bool':
            return [('=', var_sym), ('not', NOT(var_sym))]
        if tp in WIDTH:
            return [('01', ITE(var_sym, mkint(1, tp), mkint(0, tp)))]
        return []
    if tv in WIDTH:
        if tp == tv:
            return [('=', var_sym)]
        if tp in WIDTH and not signed(tp) and WIDTH[tp] > WIDTH[tv]:
            return [('wide', CAST(tv, tp, var_sym))]
        return []
    if isseq(var_sym) and isseq(p) and elemty(var_sym) == elemty(p):
        return [('=', var_sym)]
    if var_sym.op == 'sym' and var_sym.a[0] == '#acc' and tp not in WIDTH and tp != 'bool' and not isseq(p):
        return [('=', var_sym)]          # an accumulator of an uninterpreted type
    return []


def exit_value(out, lid, k, n):
    """value of an output when the loop leaves through exit k"""
    if n <= 1:
        return out
    sel = raw('exitsel', lid)

    def f(x):
        if x.op == 'insw' and x.a[0] is sel:
            return mkbool((k in x.a[1]) != x.a[2])
        return None
    return subst(out, f)


ANY = raw('any')         # initial value taken over from the implementation


def resub(L, f):
    """copy of a loop summary with its terms rewritten"""
    import copy
    M = copy.copy(L)
    M.phis = {k: (p, subst(i, f), subst(s, f)) for k, (p, i, s) in L.phis.items()}
    M.exits = [(subst(e[0], f),) + tuple(e[1:]) for e in L.exits]
    return M


def used_fins(L, terms):
    return {x.a[1] for t in terms for x in subterms(t) if x.op == 'fin' and x.a[0] == L.id}


def inner(L, spec, terms, result):
    """an inner loop against its specification.  terms: where its final values are used.
    result(name, inits) -> term standing for the final value of that state variable.
    Returns (results, {fin term: replacement}) or (results, None)"""
    keys = used_fins(L, terms)
    view = LoopView(L, spec.N, spec.dir)
    res, asg = compare(L, None, spec, used=keys, want_map=True)
    if asg is None or not all(r[1] == HOLD for r in res) or len(L.exits) > 1:
        return res, None
    mp = {}
    inits = {v: (view.data[a[0]][1] if a else spec.vars[v][0]) for v, a in asg.items()}
    byk = {a[0]: (v, a[1][1]) for v, a in asg.items() if a}
    for k in keys:
        if k in byk:
            v, rel = byk[k]
            val = result(v, inits)
            S = spec.vars[v][1]
            mp[raw('fin', L.id, k, view.data[k][0].a[2])] = subst(rel, lambda x: val if x is S else None)
        elif k in view.counters:
            p, init, c = view.counters[k]
            end = spec.N if spec.dir == 'up' else mkint(0)
            t = view.map[p]
            mp[raw('fin', L.id, k, p.a[2])] = subst(t, lambda x: end if x is IT else None)
        else:
            return res, None
    return res, mp


def compare(L, outs, spec, limit=400, used=None, want_map=False):
    """[(what, verdict, detail)] for loop L and outputs {name: term over fins}"""
    r = _compare(L, outs, spec, limit, used)
    res = r[0]
    if outs is not None and any(v != HOLD for _, v, _ in res):
        res = settle(res, L, outs, spec, r[1])
    return (res, r[1]) if want_map else res


def settle(res, L, outs, spec, asg=None):
    """A step that differs is a difference of the results only if some input shows it end to end (a round may be written out before or
    after the loop, a state kept one round ahead, or a case may be unreachable)."""
    hit = [(w, d) for w, v, d in res if v == VIOLATED]
    c, w = confirm(L, outs, spec, [d for _, d in hit], asg)
    if c == 'differs':
        return res if hit else list(res) + [('result for a particular input', VIOLATED, w)]
    if not hit:
        return res
    if c == 'agrees':
        return [(q, UNDECIDED if v == VIOLATED else v, d) for q, v, d in res]
    return shifted(res)


def numbers(d):
    import re
    return [int(x) for x in re.findall(r"'(-?\d{1,40})'", str(d))]


def confirm(L, outs, spec, details, asg=None, tries=1500):
    """('differs', witness) | ('agrees', None) | ('unknown', reason): the loop against the definition at particular inputs"""
    import random
    from .conc import Run
    from .decide import Val, NoEval, veq, constants
    st = {v: spec.vars[v][1] for v in spec.vars}
    sstep, sexits, sout, sinv = spec.step(st), spec.exits(st), spec.out(st), spec.inv(st)
    inits = {v: spec.vars[v][0] for v in spec.vars}
    for v, i in inits.items():
        if i is ANY:
            a = (asg or {}).get(v)
            if not a or a[1][0] != '=' or a[0] not in L.phis:
                return 'unknown', 'initial state'
            inits[v] = L.phis[a[0]][1]
    mine = [t for p, i, s_ in L.phis.values() for t in (i, s_)] + [e[0] for e in L.exits] + list(outs.values())
    theirs = list(sstep.values()) + [c for c, _ in sexits] + [t for _, o in sexits for t in o.values()] + list(sout.values()) + [sinv, spec.N] + list(inits.values())
    own = set(st.values()) | {IT, DONE}
    leaves = [x for t in mine + theirs for x in subterms(t) if x.op == 'sym' and x not in own]
    leaves = sorted(set(leaves), key=lambda x: x.id)
    cs = sorted(set(constants(*mine, *theirs)) | {n for d in details for n in numbers(d)})
    rnd = random.Random(7)
    long = [c for c in cs if 8 <= c <= 1500]
    good = 0
    err = None
    fails = 0
    for k in range(tries):
        if k == 200 and good == 0:
            break
        g = Val(rnd, cs)
        g.conc = True
        g.base = None
        env = {}
        try:
            ln = rnd.choice(long) + rnd.choice((-1, 0, 1, 2)) if long and rnd.random() < .1 else None
            for x in leaves:
                ty = tyof(x)
                if ln is not None and isseq(x) and elemty(x) in WIDTH and x not in LENS:
                    v = [0] * (ln + rnd.choice((0, 0, 0, -1, 1)))
                    for _ in range(rnd.choice((0, 1, 2, 4))):
                        if v:
                            v[rnd.choice((0, -1, rnd.randrange(len(v))))] = g.rand_int(elemty(x))
                    env[x] = ('arr',) + tuple(v)
                elif ty in WIDTH or ty == 'bool' or (isseq(x) and elemty(x) is not None):
                    env[x] = g.ev(x)
            base = Run({}, env)
            N = base.i(spec.N, 'usize')
            if N > (40 if ln is None else ln + 8):
                continue
            cur = {st[v]: base.ev(i) for v, i in inits.items()}
            up = spec.dir == 'up'
            want = None
            ok = True
            for it in (range(N) if up else range(N, 0, -1)):
                e = Run({}, dict(env, **{}) | cur | {IT: it})
                if not e.b(sinv):
                    ok = False
                    break
                for c, o in sexits:
                    if e.b(c):
                        want = {n: e.ev(t) for n, t in o.items()}
                        break
                if want is not None:
                    break
                cur = {st[v]: e.ev(t) for v, t in sstep.items()}
            if not ok:
                continue
            if want is None:
                e = Run({}, dict(env, **{}) | cur | {IT: N if up else 0})
                if not e.b(sinv):
                    continue
                want = {n: e.ev(t) for n, t in sout.items()}
            class At(Run):
                def turn(self, j, N=N, up=up):
                    return {IT: j if up else N - j}
            R = At({L.id: L}, env, turns=N + 8)
            for n in outs:
                x, y = R.ev(outs[n]), want[n]
                if isinstance(x, tuple) != isinstance(y, tuple):
                    raise NoEval('shape')
                ty = tyof(outs[n]) or tyof(sout[n])
                if ty in WIDTH or ty == 'bool':
                    x, y = R.co(x, ty), R.co(y, ty)
                if not veq(x, y, R):
                    return 'differs', {'inputs': {str(q.a[0]): str(v)[:80] for q, v in env.items()}, 'result': n, 'found': str(x)[:160], 'required': str(y)[:160]}
            good += 1
        except NoEval as ex:
            err = str(ex)
        except (ZeroDivisionError, OverflowError, RecursionError, KeyError, TypeError, AttributeError, IndexError, ValueError) as ex:
            err = repr(ex)
    if good >= 20:
        return 'agrees', None
    return 'unknown', err


def shifted(res):
    """differences of more than one kind (at the start, during the rounds, at the end) are those of a re-arranged loop"""
    def kind(w):
        return 'start' if w.startswith('initial') else 'end' if w.startswith('result') else 'rounds'
    bad = {kind(w) for w, v, d in res if v != HOLD}
    if len(bad) > 1 and any(v == VIOLATED for _, v, _ in res):
        return [(w, UNDECIDED if v == VIOLATED else v, d) for w, v, d in res]
    return res


def _compare(L, outs, spec, limit, used):
    view = LoopView(L, spec.N, spec.dir)
    names = list(spec.vars)
    st = {v: spec.vars[v][1] for v in names}
    if outs is None:
        need = live(view, [view.data[k][0] for k in used if k in view.data])
    else:
        need = live(view, list(outs.values()))
    cands = [k for k in view.data if k in need]
    if not view.counters:
        return [('iteration', UNDECIDED, 'no induction variable')], None
    best = None
    opts = []
    for v in names:
        o = [None]
        for k in cands:
            p = view.data[k][0]
            for r in relations(st[v], p):
                o.append((k, r))
        opts.append(o)
    tried = 0
    for asg in itertools.product(*opts):
        ks = [a[0] for a in asg if a]
        if len(set(ks)) != len(ks):
            continue
        left = [k for k in cands if k not in ks]
        missing = [v for v, a in zip(names, asg) if not a]
        if left and missing and len(asg) != len(missing):
            pass
        # a sequence is never represented by a constant
        if any(isseq(st[v]) for v in missing):
            continue
        tried += 1
        if tried > limit:
            break
        o2 = outs
        if outs is None:
            o2 = {v: raw('fin', L.id, a[0], view.data[a[0]][0].a[2]) for v, a in zip(names, asg) if a and a[0] in used}
        res = _check(view, o2, spec, names, st, dict(zip(names, asg)), left, outs is None)
        score = (sum(1 for r in res if r[1] == HOLD) - 3 * len(missing) - len(left), -sum(1 for r in res if r[1] == VIOLATED))
        allhold = all(r[1] == HOLD for r in res)
        if best is None or (allhold, score) > best[0]:
            best = ((allhold, score), res, dict(zip(names, asg)))
        if allhold:
            break
    if best is None:
        return [('correspondence', UNDECIDED, 'carried state does not correspond')], None
    return best[1], best[2]


def _check(view, outs, spec, names, st, asg, left, states=False):
    out = []
    extra = {}
    pre_state = TRUE
    for v in names:
        a = asg[v]
        if a:
            extra[view.data[a[0]][0]] = a[1][1]
        else:
            if spec.vars[v][0] is ANY:
                return [('state ' + v, UNDECIDED, 'no carried counterpart')]
            pre_state = AND(pre_state, EQ(st[v], spec.vars[v][0]))
    fixed = {v: spec.vars[v][0] for v in names if not asg[v]}

    def fixst(t):
        mp = {st[v]: fixed[v] for v in fixed}
        return subst(t, lambda x: mp.get(x)) if mp else t

    def clean(*ts):
        lid = view.L.id
        for t in ts:
            for x in subterms(t):
                if x.op in ('phi', 'fin') and x.a[0] == lid:
                    return False
        return True

    ufs = set()
    for c_, o_ in spec.exits(st):
        ufs |= calls_in(c_)
    fr = {}
    for v, base in spec.frame.items():
        fr[st[v]] = base

    def frame(t):
        """reads at the current or a not yet visited index see the initial contents"""
        if not fr:
            return t

        def f(x):
            if x.op == 'sel' and x.a[0] in fr:
                b, c = linear(x.a[1])
                ok = b is IT and (c >= 0 if spec.dir == 'up' else c < 0)
                if ok:
                    return SEL(fr[x.a[0]], subst(x.a[1], f))
            return None
        return subst(t, f)

    def ob(what, a, b, pre):
        if not clean(a, pre):
            out.append((what, UNDECIDED, 'carried state without counterpart'))
            return None
        a, b, pre = fixst(frame(a)), fixst(frame(b)), fixst(frame(pre))
        if isseq(b) and tyof(b) not in WIDTH:
            S = next((st[v] for v in names if isseq(st[v]) and any(x is st[v] for x in subterms(b))), None)
            if S is None:
                r = same(a, b, pre)
            else:
                r = seq_same(a, b, pre, S, frame)
        else:
            r = same(a, b, pre, uf_ok=ufs)
        out.append((what, r[0], r[1] if r[0] == HOLD else {'witness': r[1], 'pre': show(pre, 9)[:700], 'value': show(a, 7)[:500], 'required': show(b, 7)[:500]}))
        return r[0]

    scont = LT(IT, spec.N) if spec.dir == 'up' else LT(mkint(0), IT)
    bound = LE(IT, spec.N)
    # initial values
    for v in names:
        a = asg[v]
        if not a:
            continue
        init = view.data[a[0]][1]
        if spec.vars[v][0] is ANY:
            continue
        want = subst(a[1][1], lambda x: spec.vars[v][0] if x is st[v] else None)
        if isseq(want):
            if want.op == 'rep' and init.op == 'rep':
                r = same(init.a[0], want.a[0])
                r2 = same(init.a[1], want.a[1])
                vd = VIOLATED if VIOLATED in (r[0], r2[0]) else HOLD if r[0] == r2[0] == HOLD else UNDECIDED
                out.append(('initial ' + v, vd, r2[1] or r[1]))
            elif init is want:
                out.append(('initial ' + v, HOLD, None))
            else:
                out.append(('initial ' + v, UNDECIDED, 'different starting sequence %s' % show(init, 5)[:120]))
        else:
            r = same(init, want)
            out.append(('initial ' + v, r[0], r[1]))
    # steps
    mc = view.m(view.cont, extra)
    sx = spec.exits(st)
    nos = AND(*[NOT(c) for c, _ in sx])
    inv = spec.inv(st)
    pre = AND(scont, nos, mc, inv)
    sstep = spec.step(st)
    for v in names:
        a = asg[v]
        if a:
            got = view.m(view.data[a[0]][2], extra)
            want = subst(a[1][1], lambda x: sstep[v] if x is st[v] else None)
            ob('step ' + v, got, want, pre)
        else:
            ob('step ' + v, fixed[v], sstep[v], pre)
    # exits
    n = len(view.exits)
    def outs_of(s):
        o = spec.out(s)
        if states:
            o = {v: subst(asg[v][1][1], lambda x: o[v] if x is st[v] else None) for v in outs}
        return o
    so = outs_of(st)
    stop = spec.stop_ok(st)
    stop1 = FALSE
    if stop is not FALSE:
        # stopping after this iteration's work
        nxt = BIN('add', 'usize', IT, mkint(1)) if spec.dir == 'up' else BIN('sub', 'usize', IT, mkint(1))
        mp1 = dict((st[v], sstep[v]) for v in names)
        mp1[IT] = nxt
        after = lambda t: subst(t, lambda x: mp1.get(x))
        stop1 = after(stop)
        so1 = {k_: after(t_) for k_, t_ in so.items()}
    # can the end of the iteration space be reached at all?
    last = BIN('sub', 'usize', spec.N, mkint(1)) if spec.dir == 'up' else mkint(1)
    ended = True
    ends = TRUE
    if stop is not FALSE:
        pv = subst(AND(mc, inv), lambda x: last if x is IT else None)
        zero_len = AND(EQ(spec.N, mkint(0)), subst(inv, lambda x: mkint(0) if x is IT else None))
        if clean(pv) and same(AND(pv, LT(mkint(0), spec.N)), FALSE)[0] == HOLD:
            if same(zero_len, FALSE)[0] == HOLD:
                ended = False
            ends = EQ(spec.N, mkint(0))
    for k, e in enumerate(view.exits):
        me = view.m(e, extra)
        # leaving although the specification goes on
        r = ob('exit %d only at the end' % k, AND(me, scont, nos, NOT(stop), NOT(stop1), bound), FALSE, inv)
        for nm, o in outs.items():
            ov = view.m(exit_value(o, view.L.id, k, n), extra)
            # at the end of the iteration space
            pe = AND(me, NOT(scont), bound, inv)
            if ended and same(pe, FALSE)[0] != HOLD:
                end = EQ(IT, spec.N) if spec.dir == 'up' else EQ(IT, mkint(0))
                ob('result %s at the end (exit %d)' % (nm, k), ov, so[nm], AND(me, end, ends, inv))
            for q, (c, outs2) in enumerate(sx):
                pe = AND(me, scont, c, inv, *[NOT(c2) for c2, _ in sx[:q]])
                if same(pe, FALSE)[0] != HOLD:
                    ob('result %s at early exit' % nm, ov, outs2[nm], pe)
            if stop is not FALSE:
                pe = AND(me, scont, nos, stop, inv)
                if same(pe, FALSE)[0] != HOLD:
                    ob('result %s when stopping early' % nm, ov, so[nm], pe)
                pe = AND(me, scont, nos, NOT(stop), stop1, inv)
                if same(pe, FALSE)[0] != HOLD:
                    ob('result %s when stopping after the step' % nm, ov, so1[nm], pe)
    # going on although the specification has stopped
    for q, (c, outs2) in enumerate(sx):
        ob('stops when the specification does', AND(mc, scont, c, inv), FALSE, TRUE)
    r = same(AND(mc, NOT(scont), bound, inv), FALSE)
    if r[0] != HOLD and clean(mc):
        out.append(('no iteration beyond the end', UNDECIDED, r[1]))
    return out
