"""P18 - the interner and its list keep their protocol."""
from .compc import *
from sa.atoms import *
from sa.chain import *
from sa.chain import N as NODES
from .p20 import some_cond
from .p08 import payload

RULE = ('Atomic accesses are extracted with place, ordering, operands and path condition; the list is seen as a chain of positions, so walks become counters. '
        'Every reference-count change is one of the permitted transitions, links change only from null to a fresh node, pointers are dereferenced only after an '
        'acquiring read, and the slot named by an id, the number of steps of a walk and the returned lengths are equal to their closed forms for every id and length.')


def fields(prog):
    """(node type, path of the link, path of the value)"""
    for k, v in prog.adts.items():
        if v and v['crate'] == prog.crate and v['kind'] == 'struct':
            fs = v['v'][0]['f']
            for i, f in enumerate(fs):
                s = prog.tys(f['t'])
                if 'Atomic' in s and '*mut ' + k in s and len(fs) > 1:
                    return k, (('f', i),), next(j for j in range(len(fs)) if j != i)
    return None


def plain(t):
    """switches over counts as equalities"""
    def f(x):
        if x.op == 'insw' and tyof(x.a[0]) == 'usize' and x.a[0].op not in ('discr', 'exitsel'):
            o = OR(*[EQ(x.a[0], mkint(k)) for k in x.a[1]])
            return NOT(o) if x.a[2] else o
    return subst(t, f)


class View:
    """one function: events, loops, result over chain positions"""

    def __init__(self, prog, b):
        self.prog, self.b = prog, b
        self.node, self.nxt, self.val = fields(prog)
        self.A = Atoms(links=True)
        self.heap = {}
        self.rawfree = False
        self.r, self.err = analyse(prog, b, hooks={'call': self.A.hook(self.hook), 'drop': self.A.drop})
        if self.r is None:
            return
        heads = set()
        for e in self.A.events():
            if e.ty.startswith('*'):
                x = e.place
                if x.op == 'ref' and not (x.a[0][0] == 'mem' and isinstance(x.a[0][1], T) and x.a[0][1].op != 'sym') and x.a[0][0] != 'heap':
                    heads.add(x)
        self.heads = heads
        hs = {(h.a[0], h.a[1]) for h in heads}
        self.p = params(prog, b, self.r)
        # the head of the list a function is given
        self.c = Chain(self.r, lambda root, path: (root, path) in hs, self.nxt,
                       lambda t: t.startswith('&') and 'Atomic<*mut ' + self.node in t)
        c0 = self.c.conv
        c = self.conv = lambda t: plain(c0(t))
        self.ev = self.A.events()
        for e in self.ev:
            e.place, e.cond = c(e.place), c(e.cond)
            e.args = [c(x) for x in e.args]
        self.ret = c(self.r.ret)
        self.drops = [(t, c(v), c(k), w) for t, v, k, w in self.A.drops.values()]

    def hook(self, eng, fr, s, c, args, atys, dty, cond, where):
        p = c.get('p', '')
        if p in ('core::mem::drop', 'std::mem::drop') and len(args) == 1:
            ty = eng.prog.tys(atys[0]) if isinstance(atys[0], int) else atys[0].get('s', '?') if isinstance(atys[0], dict) else str(atys[0])
            self.A.drops[(eng.cur_frame_id(), where, ty)] = (ty, args[0], cond, where)
            return UNIT
        if p.split('::')[-1] in ('drop_in_place', 'dealloc', 'read', 'from_raw'):
            self.rawfree = True
        if p.startswith('alloc::boxed::Box') and p.endswith('::new') and len(args) == 1:
            root = ('heap', '%s@%s' % (eng.cur_frame_id(), where))
            s.m[root] = args[0]
            return raw('ref', root, ())
        if p.startswith('alloc::boxed::Box') and p.split('::')[-1] in ('into_raw', 'leak') and args[0].op == 'ref' and args[0].a[0][0] == 'heap':
            return args[0]
        return NotImplemented


MAXV = mkint((1 << 64) - 1)
ZERO, ONE_ = mkint(0), mkint(1)
T_IT = sym('#t', 'usize')


def affine(L):
    """{phi: init + c*t} when all integer state of the loop moves by constants, with the exits over t"""
    exits = [e[0] for e in L.exits]
    cont = AND(*[NOT(e) for e in exits])
    mp = {}
    from sa.loops import under, linear
    for p, i, s in L.phis.values():
        if tyof(p) != 'usize':
            continue
        b, c = linear(under(s, cont))
        if b is p and c > 0:
            mp[p] = BIN('add', 'usize', i, T_IT if c == 1 else BIN('mul', 'usize', T_IT, mkint(c)))
        elif b is p and c == 0:
            mp[p] = i
        elif b is p and c == -1:
            mp[p] = BIN('sub', 'usize', i, T_IT)
        else:
            return None
    return mp, exits


def walk(L, out, spec, pre, known=lambda t: t):
    """the value `out` (over the final state of L) when L is left equals spec"""
    a = affine(L)
    if a is None:
        return UNDECIDED, 'not a counted walk'
    mp, exits = a
    mp, exits = {p: known(v) for p, v in mp.items()}, [known(e) for e in exits]
    fins = {raw('fin', L.id, p.a[1], p.a[2]): v for p, v in mp.items()}
    at = lambda t, k: subst(t, lambda x: k if x is T_IT else None)
    m = lambda t: subst(t, lambda x: mp.get(x) if x.op == 'phi' else fins.get(x) if x.op == 'fin' else None)
    ex = [m(e) for e in exits]
    if any(x.op in ('phi', 'fin') and x.a[0] == L.id for e in ex for x in subterms(e)):
        return UNDECIDED, 'loop state'
    from sa.loops import exit_value
    going = lambda k: AND(*[NOT(at(e, k)) for e in ex])
    before = AND(*[OR(LT(T_IT, mkint(j)), going(BIN('sub', 'usize', T_IT, mkint(j)))) for j in (1,)] + [OR(EQ(T_IT, ZERO), going(ZERO))])
    small = AND(LT(T_IT, mkint(5)), *[OR(LT(T_IT, mkint(j)), going(BIN('sub', 'usize', T_IT, mkint(j)))) for j in (1, 2, 3, 4)])
    worst = (HOLD, None)
    for k, e in enumerate(ex):
        o = m(exit_value(out, L.id, k, len(ex)))
        first = AND(*[NOT(x) for x in ex[:k]])
        c = AND(pre, before, e, first, LT(T_IT, mkint(1 << 60)))
        v, d = same(o, spec, c)
        if v == VIOLATED:
            v, d = same(o, spec, AND(pre, small, e, first))
            if v == HOLD:
                v = UNDECIDED
        if v == VIOLATED or (v == UNDECIDED and worst[0] == HOLD):
            worst = (v, d)
    return worst


def e_moves(step, p):
    """condition under which the step changes p"""
    if step.op == 'ite':
        return OR(AND(step.a[0], e_moves(step.a[1], p)), AND(NOT(step.a[0]), e_moves(step.a[2], p)))
    return FALSE if step is p else TRUE


def run_walk(L, out, spec):
    """execute the recurrence of the walk on small lists: a difference, or None"""
    free = {x for t in [out, spec] + [q for a in L.phis.values() for q in a[1:]] + [e[0] for e in L.exits]
            for x in subterms(t) if x.op == 'sym' and x is not NODES}
    if len(free) > 1 or any(tyof(x) != 'usize' for x in free):
        return None
    from sa.loops import exit_value
    for n in range(4):
        for i in range(5):
            val = {x: mkint(i) for x in free}
            val[NODES] = mkint(n)
            cur = {p: subst(i_, lambda x: val.get(x)) for p, i_, _ in L.phis.values()}
            for _ in range(12):
                at = lambda t: subst(t, lambda x: cur.get(x) if x.op == 'phi' else val.get(x))
                es = [at(e[0]) for e in L.exits]
                if any(e not in (TRUE, FALSE) for e in es):
                    return None
                if TRUE in es:
                    k = es.index(TRUE)
                    fins = {raw('fin', L.id, p.a[1], p.a[2]): c for p, c in cur.items()}
                    o = subst(exit_value(out, L.id, k, len(es)), lambda x: fins.get(x) if x.op == 'fin' else cur.get(x) if x.op == 'phi' else val.get(x))
                    w = subst(spec, lambda x: val.get(x))
                    if (isint(o) or o in (TRUE, FALSE)) and (isint(w) or w in (TRUE, FALSE)):
                        if o is not w:
                            return {'nodes': n, 'inputs': {show(x, 1): i for x in free}, 'found': show(o, 2), 'required': show(w, 2)}
                        break
                    return None
                cur = {p: at(s) for p, _, s in L.phis.values()}
    return None


def run_drop(L, frees):
    """execute the recurrence on small lists: the nodes freed, when they are not each node once"""
    for n in range(5):
        val = lambda t, cur: subst(t, lambda x: cur.get(x) if x.op == 'phi' else mkint(n) if x is NODES else None)
        cur = {p: val(i, {}) for p, i, _ in L.phis.values()}
        got = []
        for _ in range(12):
            e = val(L.exits[0][0], cur)
            if e not in (TRUE, FALSE):
                return None
            if e is TRUE:
                break
            for ty, x, c, w in frees:
                c = val(c, cur)
                ks = {val(y.a[0], cur) for y in subterms(x) if y.op == 'node'}
                if c not in (TRUE, FALSE) or len(ks) != 1:
                    return None
                k = ks.pop()
                if not isint(k):
                    return None
                if c is TRUE:
                    got.append(k.a[0])
            cur = {p: val(s, cur) for p, _, s in L.phis.values()}
        else:
            return None
        if sorted(got) != list(range(n)):
            return {'nodes': n, 'freed': got}
    return None


def only_loop(v, terms):
    ids = {x.a[0] for t in terms for x in subterms(t) if x.op in ('fin', 'exitsel') and x.a[0] in v.c.L}
    return v.c.L[ids.pop()] if len(ids) == 1 else None


def decide(v, out, spec, pre=TRUE):
    """value of `out`, which may depend on one walk along the chain"""
    L = only_loop(v, [out])
    if L is None:
        if any(x.op in ('fin', 'exitsel') for x in subterms(out)):
            return UNDECIDED, 'several walks'
        return same(out, spec, pre)
    vd, d = walk(L, out, spec, pre)
    if vd == UNDECIDED and pre is TRUE:
        w = run_walk(L, out, spec)
        if w is not None:
            return VIOLATED, w
    return vd, d


def slot_fields(prog):
    for k, v in prog.adts.items():
        if v and v['crate'] == prog.crate and v['kind'] == 'struct':
            fs = v['v'][0]['f']
            ts = [prog.tys(f['t']) for f in fs]
            r = [i for i, t in enumerate(ts) if t in ('core::sync::atomic::Atomic<usize>', 'core::sync::atomic::AtomicUsize')]
            c = [i for i, t in enumerate(ts) if 'UnsafeCell<' in t and 'Atomic' not in t]
            if len(r) == 1 and len(c) == 1:
                return k, r[0], c[0]
    return None


def slot(v, place, field):
    """(position of the chunk, index in the chunk) when place is that field of a slot"""
    if place.op == 'ref' and place.a[0][0] == 'mem' and place.a[0][1].op == 'node':
        p = place.a[1]
        if len(p) == 3 and p[0][:2] == ('f', v.val) and p[1][0] == 'i' and p[2][:2] == ('f', field):
            return place.a[0][1].a[0], p[1][1]
    return None


def implied(cond, by):
    """conjuncts of cond are among those of by"""
    a = set(cond.a) if cond.op == 'and' else {cond}
    b = set(by.a) if by.op == 'and' else {by}
    return cond is TRUE or a <= b


def deref(v, x):
    """is the pointer x (a node) dereferenced, or handed out, in this function"""
    if x.op != 'node':
        return False
    ks = {x.a[0]}
    for _ in range(4):
        for lid, L in v.c.L.items():
            for q in L.phis.values():
                p = q[0]
                if v.c.kind.get((p.a[0], p.a[1])) == 'node' and p not in ks and any(y in ks for z in q[1:] for y in leaves(z)):
                    ks |= {p, raw('fin', *p.a)}
    for t in [v.ret] + [e.place for e in v.ev] + [z for L in v.c.L.values() for q in L.phis.values() for z in q[1:]]:
        for y in subterms(t):
            if y.op == 'ref' and y.a[0][0] == 'mem' and isinstance(y.a[0][1], T) and y.a[0][1].op == 'node' and y.a[0][1].a[0] in ks:
                return True
            if y.op == 'place' and any(y.a[0] is inc(k) for k in ks):
                return True
    return False


def leaves(t):
    if t.op == 'ite':
        return leaves(t.a[1]) | leaves(t.a[2])
    return {t}


class Check:
    def __init__(self, rep, prog):
        self.rep, self.prog = rep, prog
        self.views = {}

    def view(self, b):
        if b not in self.views:
            self.views[b] = View(self.prog, b)
            self.rep.saw(b.path)
        return self.views[b]

    def ob(self, v, what, verdict, detail=None, rule=RULE, at=None):
        self.rep.ob('%s: %s' % (nicename(v.b), what), verdict, at or where(v.b), rule, detail)

    # ---- memory orderings and permitted transitions
    def protocol(self, v):
        for e in v.ev:
            at = '%s %s' % (v.b.path, facts.short_span(e.where))
            if e.ty.startswith('*'):
                self.link_event(v, e, at)
            else:
                self.count_event(v, e, at)

    def own(self, v, place):
        """the accessed object belongs to this call alone: a local, a fresh node, or reached through &mut self"""
        if place.op == 'ref' and place.a[0][0] in ('loc', 'heap'):
            return True
        t = v.b.local_ty(1)
        return t['k'] == 'ref' and t['m'] and v.b.name == 'drop'

    def link_event(self, v, e, at):
        if e.kind == 'load':
            if self.own(v, e.place):
                return
            strong = e.ords[0] in ACQ
            if not strong:
                strong = any(f.n < e.n and f.place is e.place and implied(f.cond, e.cond) and
                             (f.kind == 'load' and f.ords[0] in ACQ or f.kind == 'compare_exchange' and f.ords[1] in ACQ) for f in v.ev)
            strong = strong or any(f.n > e.n and f.place is e.place and f.kind == 'load' and f.ords[0] in ACQ for f in v.ev)
            x = v.conv(e.res)
            bad = not strong and e.ords[0] != '?' and deref(v, x)
            self.ob(v, 'link %s read before use' % e.n, VIOLATED if bad else HOLD if strong or e.ords[0] != '?' else UNDECIDED,
                    {'ordering': e.ords[0], 'at': e.where} if bad else None, 'a link that is followed is read with acquire ordering', at)
            return
        if e.kind in ('store', 'swap') and self.own(v, e.place):
            return
        if e.kind != 'compare_exchange':
            self.ob(v, 'link %s only extended' % e.n, VIOLATED, {'operation': e.kind, 'at': e.where}, 'a shared link changes only from null to a node, atomically', at)
            return
        old = strip(e.args[0])
        null = old.op == 'ptrint'
        self.ob(v, 'link %s only extended' % e.n, HOLD if null else VIOLATED if old.op in ('node', 'ref') else UNDECIDED, show(old, 5)[:100],
                'a shared link changes only from null to a node', at)
        if self.own(v, e.place):
            return
        self.ob(v, 'link %s published' % e.n, HOLD if e.ords[0] in REL else UNDECIDED if e.ords[0] == '?' else VIOLATED, {'ordering': e.ords[0]},
                'a node becomes reachable with release ordering', at)
        acq = e.ords[1] in ACQ or not deref(v, v.conv(e.res))
        self.ob(v, 'link %s failure' % e.n, HOLD if acq else UNDECIDED, {'ordering': e.ords[1]}, 'the node found instead is read with acquire ordering', at)
        new = e.args[1]
        if new.op == 'ref' and new.a[0][0] == 'heap':
            eng, s = e.state
            c = eng.load(s, new)
            ok = None
            if c.op == 'agg':
                nx = strip(FIELD(c, 0, v.nxt[0][1]))
                ok = nx.op == 'ptrint'
                self.ob(v, 'link %s new node is last' % e.n, HOLD if ok else UNDECIDED, show(nx, 5)[:100], 'a new node has no successor', at)

    def count_event(self, v, e, at):
        if self.own(v, e.place):
            return
        sf = self.sf
        if e.kind == 'load':
            return
        if e.kind in ('compare_exchange', 'update'):
            old, new = e.args
            ok = e.cond if e.kind == 'compare_exchange' else AND(e.cond, e.ok)
            claim = AND(EQ(old, ZERO), EQ(new, MAXV))
            up = AND(NOT(EQ(old, ZERO)), NOT(EQ(old, MAXV)), EQ(new, BIN('add', 'usize', old, ONE_)))
            down = AND(NOT(EQ(old, ZERO)), EQ(new, BIN('sub', 'usize', old, ONE_)))
            vd, d = same(OR(claim, up, down), TRUE, ok)
            self.ob(v, 'count %s permitted change' % e.n, vd, d, 'a count goes from zero to claimed, or up by one from a live value, or down by one from a positive value', at)
            takes = same(AND(ok, OR(claim, up)), FALSE)[0] != HOLD
            gives = same(AND(ok, down), FALSE)[0] != HOLD
            need = (ACQ if takes else set()), (REL if gives else set())
            o = e.ords[0]
            good = (not takes or o in ACQ) and (not gives or o in REL)
            self.ob(v, 'count %s ordering' % e.n, HOLD if good else UNDECIDED if o == '?' else VIOLATED, {'ordering': o, 'takes': takes, 'gives': gives},
                    'taking a reference or a claim acquires, giving one up releases', at)
        elif e.kind == 'fetch_add':
            vd, d = same(e.args[0], ONE_, e.cond)
            self.ob(v, 'count %s permitted change' % e.n, vd, d, 'a reference adds exactly one', at)
        elif e.kind == 'store':
            vd, d = same(OR(EQ(e.args[0], ONE_), EQ(e.args[0], ZERO)), TRUE, e.cond)
            self.ob(v, 'count %s permitted change' % e.n, vd, d, 'a claim ends with one reference or none', at)
            self.ob(v, 'count %s ordering' % e.n, HOLD if e.ords[0] in REL else UNDECIDED if e.ords[0] == '?' else VIOLATED, {'ordering': e.ords[0]},
                    'ending a claim publishes the value with release ordering', at)
        else:
            self.ob(v, 'count %s permitted change' % e.n, VIOLATED, {'operation': e.kind, 'at': e.where},
                    'a count never drops below zero and is never overwritten', at)

    # ---- the list
    def lists(self):
        prog = self.prog
        n = 0
        for b in prog.roots:
            t = (b.j.get('itrait') or '').split('<')[0].rsplit('::', 1)[-1]
            if 'UnsyncLinked' in b.path and 'linked::' in b.path or t == 'Iterator' and 'linked::Iter' in b.path:
                f = getattr(self, 'l_' + b.name, None)
                if f is None:
                    continue
                v = self.view(b)
                n += 1
                if v.r is None:
                    self.ob(v, 'analysed', UNDECIDED, v.err)
                    continue
                f(v)
        self.rep.floor('list operations', n, 5)

    def l_is_empty(self, v):
        self.ob(v, 'empty exactly when there is no node', *same(v.ret, NOT(LT(ZERO, NODES))))

    def l_len(self, v):
        self.ob(v, 'number of nodes', *decide(v, v.ret, NODES))

    def l_tail(self, v):
        x, l = FIELD(v.ret, 0, 0), FIELD(v.ret, 0, 1)
        self.ob(v, 'number of nodes', *decide(v, l, NODES))
        if x.op == 'node':
            self.ob(v, 'last node', *decide(v, x.a[0], BIN('sub', 'usize', NODES, ONE_), LT(ZERO, NODES)))

    def l_get(self, v):
        i = v.p[1]
        some = some_cond(v.ret)
        x = payload(v.ret)
        self.ob(v, 'found exactly when in range', *decide(v, some, LT(i, NODES)))
        if x is not None and x.op == 'ref' and x.a[0][0] == 'mem' and x.a[0][1].op == 'node':
            self.ob(v, 'the node at the index', *decide(v, ITE(some, x.a[0][1].a[0], i), i))
            self.ob(v, 'the value of the node', HOLD if x.a[1] == (('f', v.val),) else UNDECIDED, show(x, 5)[:100])
        else:
            self.ob(v, 'the node at the index', UNDECIDED, show(v.ret, 6)[:200])

    def l_index(self, v):
        i = v.p[1]
        x = v.ret
        if x.op == 'ref' and x.a[0][0] == 'mem' and x.a[0][1].op == 'node':
            self.ob(v, 'the node at the index', *decide(v, x.a[0][1].a[0], i, LT(i, NODES)))
        else:
            self.ob(v, 'the node at the index', UNDECIDED, show(v.ret, 6)[:200])
        pc = v.conv(panic_cond(v.r))
        self.ob(v, 'panics exactly when out of range', *decide(v, pc, NOT(LT(i, NODES))))

    def l_iter(self, v):
        good = False
        if v.ret.op == 'agg':
            for f in v.ret.a[2:]:
                if f.op == 'place':
                    good = f.a[0] is ZERO
                elif f.op == 'ref' and f.a[0] == ('mem', v.p[0]) or f.op == 'ref' and f.a[0][0] == 'mem' and len(f.a[1]) == 1:
                    k = v.b.local_ty(1)
                    k = v.prog.ty(k['e']).get('p') if k['k'] == 'ref' else None
                    d = v.prog.adts.get(k)
                    good = bool(d) and 'Atomic<*mut ' + v.node in v.prog.tys(d['v'][0]['f'][f.a[1][0][1]]['t'])
        self.ob(v, 'starts at the first node', HOLD if good else UNDECIDED, show(v.ret, 5)[:100])

    def l_next(self, v):
        k = sym('#at', 'usize')
        some = some_cond(v.ret)
        self.ob(v, 'ends exactly at the end', *same(some, LT(k, NODES)))
        x = payload(v.ret)
        if x is not None and x.op == 'ref' and x.a[0][0] == 'mem' and x.a[0][1].op == 'node':
            self.ob(v, 'yields the current node', *same(x.a[0][1].a[0], k, LT(k, NODES)))
            self.ob(v, 'yields its value', HOLD if x.a[1] == (('f', v.val),) else UNDECIDED, show(x, 5)[:100])
        after = v.conv(final(v.r, v.b, 0))
        q = [v.conv(f) for f in after.a[2:]] if after.op == 'agg' else [FIELD(after, 0, i) for i in range(2)]
        pl = [f for f in q if any(y.op == 'place' for y in subterms(f))]
        if len(pl) == 1 and pl[0].op == 'place':
            self.ob(v, 'moves to the next node', *same(pl[0].a[0], BIN('add', 'usize', k, ONE_), LT(k, NODES)))
        else:
            self.ob(v, 'moves to the next node', UNDECIDED, show(after, 6)[:200])

    def l_drop(self, v):
        fr = [d for d in v.drops if 'Box<' + v.node in d[0]]
        Ls = [L for L in v.c.L.values() if len(L.exits) == 1]
        if not v.c.L and fr and all(isint(y.a[0]) for d in fr for y in subterms(d[1]) if y.op == 'node'):
            self.ob(v, 'frees every node once', VIOLATED, 'a fixed number of nodes is freed')
            return
        if len(Ls) != 1 or len(v.c.L) != 1:
            self.ob(v, 'frees every node once', UNDECIDED, 'shape')
            return
        L = Ls[0]
        w = run_drop(L, fr)
        if w is not None:
            self.ob(v, 'frees every node once', VIOLATED, w)
            return
        a = affine(L)
        if a is None:
            self.ob(v, 'frees every node once', UNDECIDED, 'shape')
            return
        mp, ex = a
        m = lambda t: subst(t, lambda x: mp.get(x))
        self.ob(v, 'visits every node', *same(m(ex[0]), NOT(LT(T_IT, NODES))))
        if not fr:
            other = [d for d in v.drops if v.node in d[0]]
            self.ob(v, 'frees every node once', UNDECIDED if other or v.rawfree else VIOLATED, 'no node is freed')
            return
        good = UNDECIDED
        for ty, x, c, w in fr:
            ks = [y.a[0] for y in subterms(x) if y.op == 'node']
            if len(ks) == 1:
                v1 = same(m(ks[0]), T_IT)
                v2 = same(m(c), TRUE, LT(T_IT, NODES))
                good = HOLD if v1[0] == v2[0] == HOLD else VIOLATED if VIOLATED in (v1[0], v2[0]) else UNDECIDED
        if len(fr) > 1:
            good = UNDECIDED if good == HOLD else good
        self.ob(v, 'frees every node once', good, [show(d[1], 4)[:80] for d in fr])

    def l_push(self, v):
        cas = [e for e in v.ev if e.kind == 'compare_exchange' and e.ty.startswith('*') and e.place.op == 'place']
        first = [e for e in cas if e.place.a[0] is ZERO]
        rest = [e for e in cas if e not in first]
        for e in cas:
            new = e.args[1]
            if new.op == 'ref' and new.a[0][0] == 'heap':
                eng, s = e.state
                c = eng.load(s, new)
                x = FIELD(c, 0, v.val) if c.op == 'agg' else None
                self.ob(v, 'the pushed value is in the node', HOLD if x is v.p[1] else UNDECIDED, show(x, 4)[:80] if x is not None else None)
        self.linked(v, [e for e in cas if e.args[1].op == 'ref' and e.args[1].a[0][0] == 'heap'])
        if not first or len(rest) != 1:
            self.ob(v, 'returns the new length', UNDECIDED, 'shape')
            return
        e = rest[0]
        f = first[0]
        # with the first link set, position and length move together
        pos = BIN('sub', 'usize', e.place.a[0], ONE_)
        L = next((L for L in v.c.L.values() if any(p is q for p, _, _ in L.phis.values() for q in subterms(e.place))), None)
        if L is None:
            self.ob(v, 'returns the new length', UNDECIDED, 'shape')
            return
        ps = {k: (p, i, s) for k, (p, i, s) in L.phis.items() if tyof(p) == 'usize'}
        tail = next(((k, q) for k, q in ps.items() if q[0] is pos or pos.op == 'sub' and q[0] in subterms(e.place)), None)
        rets = [k for k in ps if any(x.op == 'fin' and x.a[0] == L.id and x.a[1] == k for x in subterms(v.ret))]
        self.ob(v, 'length of a list that was empty', *same(subst(v.ret, lambda x: TRUE if x is f.ok else None), ONE_))
        if tail is not None and not rets and not any(x.op in ('fin', 'exitsel') and x.a[0] == L.id for x in subterms(v.ret)):
            adv = same(tail[1][2], tail[1][0])[0]
            self.ob(v, 'length and position advance together', HOLD if adv == HOLD else VIOLATED if same(tail[1][2], inc(tail[1][0]), e_moves(tail[1][2], tail[1][0]))[0] == HOLD else UNDECIDED,
                    'the returned length does not follow the nodes found at the end')
            return
        if tail is None or len(rets) != 1 or e.place.a[0] is not inc(tail[1][0]):
            self.ob(v, 'returns the new length', UNDECIDED, 'shape')
            return
        pt, it, st = tail[1]
        pl, il, sl = ps[rets[0]]
        pre = LT(ZERO, NODES)
        ret = subst(v.ret, lambda x: FALSE if x is f.ok else None)
        ret = subst(ret, lambda x: pl if x.op == 'fin' and x.a[0] == L.id and x.a[1] == rets[0] else None)
        # ret = g(len); the node goes to position tail+1, so the length becomes tail+2
        D = sym('#d', 'usize')
        vs = []
        init = (il, it)
        inner_ = only_loop(v, [il, it])
        if inner_ is not None:
            off = walk(inner_, BIN('sub', 'usize', il, it), ONE_, pre)
        else:
            off = same(BIN('sub', 'usize', il, it), ONE_, pre)
        self.ob(v, 'length matches the last node at first', *off)
        sub = lambda t: subst(t, lambda x: BIN('add', 'usize', pt, ONE_) if x is pl else None)
        bound = LT(pt, mkint(1 << 60))
        self.ob(v, 'length and position advance together', *same(sub(sl), BIN('add', 'usize', sub(st), ONE_), AND(pre, bound)))
        self.ob(v, 'returns the new length', *same(sub(ret), BIN('add', 'usize', pt, mkint(2)), bound))

    def linked(self, v, links):
        """an exchange may fail any number of times: the return must depend on one that did not"""
        what = 'the node is linked when it returns'
        if not links or any(e.kind != 'compare_exchange' and e.kind != 'load' for e in v.ev):
            self.ob(v, what, UNDECIDED, 'shape')
            return
        oks = OR(*[e.ok for e in links])
        hit = lambda t: any(y is e.ok or y is e.res for y in subterms(t) for e in links)
        Ls = [L for L in v.c.L.values() if any(hit(q[0]) for q in L.exits) or any(hit(s) for _, _, s in L.phis.values())]
        if not Ls:
            if any(y.op == 'call' for y in subterms(v.ret)) or same(v.conv(panic_cond(v.r)), TRUE, NOT(oks))[0] == HOLD:
                self.ob(v, what, UNDECIDED, 'shape')
            else:
                self.ob(v, what, VIOLATED, '%d attempts, all of which fail when other threads push at the same time; the value is then lost' % len(links),
                        'a pushed node is in the list when push returns')
            return
        vs = [same(oks, TRUE, q[0]) for L in Ls for q in L.exits]
        self.ob(v, what, HOLD if all(x[0] == HOLD for x in vs) else UNDECIDED, [x[1] for x in vs if x[0] != HOLD])

    # ---- the interner
    def interner(self):
        n = 0
        for b in self.prog.roots:
            if 'Interner' in b.path and 'intern::' in b.path:
                f = getattr(self, 'i_' + b.name, None)
                if f is None:
                    continue
                v = self.view(b)
                n += 1
                if v.r is None:
                    self.ob(v, 'analysed', UNDECIDED, v.err)
                    continue
                f(v)
        self.rep.floor('interner operations', n, 5)

    def by_id(self, v, place, what):
        s = slot(v, place, self.sf[1])
        ident = FIELD(v.p[1], 0, 0)
        if s is None:
            self.ob(v, what, UNDECIDED, show(place, 6)[:160])
            return
        c = mkint(self.chunk)
        q, r = BIN('div', 'usize', ident, c), BIN('rem', 'usize', ident, c)
        self.ob(v, what + ': chunk', *decide(v, s[0], q, LT(q, NODES)))
        self.ob(v, what + ': place in the chunk', *same(s[1], r))

    def counts(self, v):
        return [e for e in v.ev if not e.ty.startswith('*')]

    def i_try_get(self, v):
        es = self.counts(v)
        if len(es) != 1 or es[0].kind != 'load':
            self.ob(v, 'reads the count once', UNDECIDED, [str(e)[:80] for e in es])
            return
        e = es[0]
        self.by_id(v, e.place, 'the slot of the id')
        self.ob(v, 'count read before the value', HOLD if e.ords[0] in ACQ else UNDECIDED if e.ords[0] == '?' else VIOLATED, {'ordering': e.ords[0]},
                'a value is read only after an acquiring read of its count')
        # a live slot has a value (the count is set after the value): a test for its presence is true there
        s = slot(v, e.place, self.sf[1])
        cell = (e.place.a[0], e.place.a[1][:2] + (('f', self.sf[2]),)) if s is not None else None

        def present(x):
            if cell and x.op == 'insw' and x.a[1] == (1,) and x.a[0].op == 'discr' and x.a[0].a[0].op == 'load' and x.a[0].a[0].a[0].op == 'ref':
                y = x.a[0].a[0].a[0]
                if y.a[0] == cell[0] and y.a[1][:3] == cell[1][:3]:
                    return TRUE if x.a[2] is False else FALSE
            return None
        self.ob(v, 'value exactly for live slots', *same(subst(some_cond(v.ret), present), NOT(OR(EQ(e.res, ZERO), EQ(e.res, MAXV)))))
        x = payload(v.ret)
        s = slot(v, e.place, self.sf[1])
        if x is not None and s is not None:
            root = e.place.a[0]
            want = raw('ref', root, e.place.a[1][:2] + (('f', self.sf[2]),))
            hit = [y for y in subterms(x) if y.op == 'ref' and y.a[0][0] == 'mem' and y.a[0][1] is root[1]]
            oth = [y for y in subterms(x) if y.op == 'ref' and y.a[0][0] == 'mem' and isinstance(y.a[0][1], T) and y.a[0][1].op == 'node' and y not in hit]
            same_slot = hit and all(y.a[1][:3] == want.a[1][:3] or y.a[1] == want.a[1] for y in hit)
            self.ob(v, 'the value of the same slot', HOLD if same_slot and not oth else UNDECIDED, [show(y, 5)[:80] for y in hit])

    def i_get(self, v):
        es = self.counts(v)
        if len(es) == 1 and es[0].kind == 'load':
            self.by_id(v, es[0].place, 'the slot of the id')
            self.ob(v, 'count read before the value', HOLD if es[0].ords[0] in ACQ else UNDECIDED if es[0].ords[0] == '?' else VIOLATED, {'ordering': es[0].ords[0]},
                    'a value is read only after an acquiring read of its count')

    def i_refcount(self, v):
        es = self.counts(v)
        if len(es) != 1 or es[0].kind != 'load':
            self.ob(v, 'reads the count once', UNDECIDED, [str(e)[:80] for e in es])
            return
        e = es[0]
        self.by_id(v, e.place, 'the slot of the id')
        self.ob(v, 'the count, none while claimed', *same(v.ret, ITE(EQ(e.res, MAXV), ZERO, e.res)))

    def i_incr(self, v, down=False):
        es = [e for e in self.counts(v) if e.kind != 'load']
        if len(es) != 1:
            self.ob(v, 'changes the count once', UNDECIDED if es else VIOLATED, [str(e)[:80] for e in es])
            return
        e = es[0]
        self.by_id(v, e.place, 'the slot of the id')
        if down:
            if e.kind == 'update':
                self.ob(v, 'gives up one reference', *same(ITE(e.ok, e.args[1], e.args[0]), ITE(EQ(e.res, ZERO), ZERO, BIN('sub', 'usize', e.res, ONE_))))
            elif e.kind == 'fetch_add':
                self.ob(v, 'gives up one reference', VIOLATED, str(e)[:100])
            return
        if e.kind == 'fetch_add':
            self.ob(v, 'takes one reference', *same(e.args[0], ONE_))
        elif e.kind == 'update':
            live = AND(LT(ZERO, e.res), LT(e.res, mkint((1 << 63))))
            self.ob(v, 'takes one reference', *same(ITE(e.ok, e.args[1], e.args[0]), BIN('add', 'usize', e.res, ONE_), live))
        if e.cond is not TRUE:
            self.ob(v, 'always changes the count', UNDECIDED, show(e.cond, 5)[:200])

    def i_decr(self, v):
        self.i_incr(v, True)

    def i_add(self, v):
        try:
            self.adding(v)
        except (IndexError, StopIteration, AttributeError) as ex:
            if __import__('os').environ.get('SA_DEBUG'):
                raise
            self.ob(v, 'protocol of adding', UNDECIDED, repr(ex))

    def adding(self, v):
        es = self.counts(v)
        cas = [e for e in es if e.kind == 'compare_exchange']
        if len(cas) != 1 or slot(v, cas[0].place, self.sf[1]) is None:
            self.ob(v, 'protocol of adding', UNDECIDED, [str(e)[:80] for e in es])
            return
        e = cas[0]
        # counters that move together
        mp = {}
        for L in v.c.L.values():
            for p, x in lockstep(L, same, HOLD).items():
                mp[p] = x
                mp[raw('fin', *p.a)] = subst(x, lambda y: raw('fin', *y.a) if y.op == 'phi' and y.a[0] == L.id else None)
        m = lambda t: subst(t, lambda x: mp.get(x))
        tofin = lambda t: subst(t, lambda x: raw('fin', *x.a) if x.op == 'phi' else None)
        flat = lambda t: subst(t, lambda x: sym('%s.%s' % x.a[:2], tyof(x)) if x.op in ('phi', 'fin') else None)
        pos, idx = (m(x) for x in slot(v, e.place, self.sf[1]))
        ident = FIELD(m(v.ret), 0, 0)
        want = BIN('add', 'usize', BIN('mul', 'usize', tofin(pos), mkint(self.chunk)), tofin(idx))
        lim = AND(LT(tofin(pos), mkint(1 << 50)), LT(tofin(idx), mkint(self.chunk)))
        known = {x for x in subterms(want) if x.op == 'fin'}
        free = {x for x in subterms(ident) if x.op == 'fin'} - known
        if free:
            self.ob(v, 'the id names the slot', UNDECIDED, 'other loop state in the id: %s' % [show(x, 2) for x in free][:2])
        else:
            self.ob(v, 'the id names the slot', *same(ident, want, lim))
        # the claim loop: what it knows when it ends
        ph = e.args[0]
        C = next((L for L in v.c.L.values() if any(p is ph for p, _, _ in L.phis.values())), None)
        if C is None or len(C.exits) != 1:
            self.ob(v, 'protocol of adding', UNDECIDED, 'claim loop')
            return
        fin = raw('fin', *ph.a)
        self.ob(v, 'leaves the claim loop only with the exchange done', *same(e.ok, TRUE, C.exits[0][0]))
        dead = EQ(fin, ZERO)

        def expand(c, depth=0):
            """conditions under which the loops it mentions were left"""
            if depth > 6:
                return c
            extra = TRUE
            for x in subterms(c):
                if x.op == 'insw' and x.a[0].op == 'exitsel' and x.a[0].a[0] in v.c.L:
                    L = v.c.L[x.a[0].a[0]]
                    ks = [k for k in range(len(L.exits)) if (k in x.a[1]) != x.a[2]]
                    if len(ks) == 1 and x in (c.a if c.op == 'and' else (c,)):
                        g = L.exits[ks[0]][0]
                        g = subst(g, lambda y: raw('fin', *y.a) if y.op == 'phi' and y.a[0] == L.id else None)
                        extra = AND(extra, g)
                    elif x in (c.a if c.op == 'and' else (c,)):
                        gs = OR(*[expand(L.exits[k][0], depth + 1) for k in ks])
                        extra = AND(extra, gs)
            if extra is TRUE or all(y in (c.a if c.op == 'and' else (c,)) for y in (extra.a if extra.op == 'and' else (extra,))):
                return c
            return expand(AND(c, extra), depth + 1)
        # equality of the slot's value with the one given
        stores = [x for x in es if x.kind == 'store']
        for s in stores:
            c = expand(s.cond)
            vd, d = same(dead, TRUE, c)
            if vd == UNDECIDED:
                st = {x for x in subterms(c) if x.op in ('phi', 'fin')}
                if not any(x is fin or tyof(x) == 'bool' for x in st) and all(v.c.L.get(x.a[0]) is not None for x in subterms(c) if x.op == 'exitsel') and \
                        any(x.op == 'eq' and any(y is v.p[1] for y in subterms(x)) for x in subterms(c)):
                    vd, d = VIOLATED, 'nothing on the path depends on the slot having been dead'
            self.ob(v, 'count %s set only in a claimed slot' % s.n, vd, d, 'a count is overwritten only by the thread that claimed the slot', '%s %s' % (v.b.path, facts.short_span(s.where)))
            q = slot(v, s.place, self.sf[1])
            if q is None:
                self.ob(v, 'count %s of the claimed slot' % s.n, UNDECIDED, show(s.place, 5)[:150])
                continue
            sp, si = m(q[0]), m(q[1])
            wp = tofin(pos)
            L = only_loop(v, [sp])
            if sp is wp:
                r1 = (HOLD, None)
            elif L is not None and affine(L):
                r1 = walk(L, sp, wp, LT(wp, NODES), m)
            else:
                r1 = same(flat(sp), flat(wp)) if {x for x in subterms(sp) if x.op in ('phi', 'fin')} <= {x for x in subterms(wp)} else (UNDECIDED, show(sp, 4)[:100])
            self.ob(v, 'count %s of the claimed slot: chunk' % s.n, *r1)
            self.ob(v, 'count %s of the claimed slot: place in the chunk' % s.n, *((HOLD, None) if si is tofin(idx) else same(flat(si), flat(idx), LT(flat(idx), mkint(self.chunk)))))
        # inner loop: what happens with the slot looked at
        S = next((L for L in v.c.L.values() if any(p is idx or m(p) is idx for p, _, _ in L.phis.values())), None)
        if S is None:
            self.ob(v, 'protocol of adding', UNDECIDED, 'slot loop')
            return
        eqs = [x for L in (S,) for q in L.exits for x in subterms(q[0]) if x.op == 'eq' and any(y is v.p[1] for y in subterms(x))]
        if len(set(eqs)) != 1:
            self.ob(v, 'only an equal value is shared', UNDECIDED if eqs else VIOLATED, 'comparisons with the given value: %d' % len(set(eqs)))
            return
        E = eqs[0]
        slots = [y for y in subterms(E) if y.op == 'ref' and y.a[0][0] == 'mem' and isinstance(y.a[0][1], T) and y.a[0][1].op == 'node']
        me = e.place.a[0][1], e.place.a[1][:2]
        self.ob(v, 'compares the value of the slot it holds', HOLD if slots and all((y.a[0][1], y.a[1][:2]) == me for y in slots) else UNDECIDED, [show(y, 5)[:80] for y in slots])
        init = next((x for q in S.exits for x in subterms(q[0]) if x.op == 'insw' and any(y.op == 'load' for y in subterms(x))), None)
        hit = AND(E, init) if init is not None else E
        full = [x for x in (S.exits[0][0].a if S.exits[0][0].op == 'and' else (S.exits[0][0],))]
        more = NOT(S.exits[0][0])
        exits = [q[0] for q in S.exits[1:]]
        found = [k for k, q in enumerate(exits) if same(AND(q, NOT(hit)), FALSE)[0] == HOLD]
        free_ = [k for k, q in enumerate(exits) if k not in found]
        self.ob(v, 'an equal value is found', *same(OR(*[exits[k] for k in found]) if found else FALSE, hit, more))
        if len(free_) == 1:
            self.ob(v, 'a slot is reused only when dead and different', *same(exits[free_[0]], AND(dead, NOT(hit)), more))
        ups = [x for x in es if x.kind in ('update', 'fetch_sub')]
        go_on = AND(more, NOT(dead), NOT(hit))
        back = []
        for u in ups:
            c = u.cond
            mine = lambda x: x is init or any(y is idx or m(y) is idx or y is fin or y is E for y in subterms(x))
            rest = AND(*[x for x in (c.a if c.op == 'and' else (c,)) if mine(x)])
            vd, d = same(m(rest), m(go_on))
            self.ob(v, 'count %s given back when going on' % u.n, vd, d)
            self.ob(v, 'count %s given back to the same slot' % u.n, HOLD if u.place is e.place else UNDECIDED, show(u.place, 5)[:100])
            if vd == HOLD:
                back.append(u)
        one = len(back) == 1
        self.ob(v, 'the reference taken for looking is given back once', HOLD if one else VIOLATED if not ups or len(back) > 1 else UNDECIDED,
                {'places that give it back': [u.where for u in back]})
        # no way out leaves the slot claimed
        nosel = lambda t: subst(t, lambda x: TRUE if x.op == 'insw' and x.a[0].op == 'exitsel' or x.op == 'lt' and (x.a[1] is NODES or x.a[1].op == 'len') else None)
        for k, q in enumerate(exits):
            ec = nosel(AND(flat(q), flat(dead), flat(more)))
            if same(ec, FALSE)[0] == HOLD:
                continue
            cs = [nosel(flat(expand(x.cond))) for x in stores]
            never = all(same(AND(c, ec), FALSE)[0] == HOLD for c in cs)
            always = same(OR(*cs), TRUE, ec)[0] == HOLD if cs else False
            self.ob(v, 'way out %d ends the claim' % k, VIOLATED if never else HOLD if always else UNDECIDED, None if always else 'the slot stays claimed')
        # a claimed slot that is reused gets its value before its count
        for s in stores:
            if not any(x.op == 'exitsel' for x in subterms(s.cond)):
                continue
            c = expand(s.cond)
            if same(AND(flat(c), NOT(flat(hit))), FALSE)[0] == HOLD:
                continue
            eng, st = s.state
            want = raw('ref', s.place.a[0], s.place.a[1][:2] + (('f', self.sf[2]),))
            val = [x for k, x in st.m.items() if k[0] == 'mem' and isinstance(k[1], T) and v.conv(raw('ref', k, ())) is not None and
                   strip(v.conv(k[1])) is want]
            if not val:
                val = [FIELD(x, 0, 0) for k, x in []]
            ok = bool(val) and any(y is v.p[1] for y in subterms(v.conv(val[0])))
            self.ob(v, 'count %s set after the value' % s.n, HOLD if ok else VIOLATED, show(v.conv(val[0]), 5)[:120] if val else 'the value of the slot is not yet written',
                    'the value is in place before the slot goes live', '%s %s' % (v.b.path, facts.short_span(s.where)))


def run():
    rep = Report('P18', RULE, ['callers release only references they hold', 'links and counts are reached only through the functions analysed'])
    prog = facts.load('numeric_utils')
    ck = Check(rep, prog)
    ck.sf = slot_fields(prog)
    ck.chunk = None
    if fields(prog) is None or ck.sf is None:
        rep.ob('shape', UNDECIDED, 'numeric_utils', RULE, 'list or slot type not recognised')
        return rep
    for t in prog.types:
        if t['k'] == 'array' and prog.ty(t['e']).get('p') == ck.sf[0]:
            mm = re.search(r'; (\d+)\]', t['s'])
            if mm:
                ck.chunk = int(mm.group(1))
    ck.lists()
    if ck.chunk:
        ck.interner()
    else:
        rep.ob('chunk length', UNDECIDED, 'numeric_utils', RULE)
    for b in prog.roots:
        if '::tests::' in b.path:
            continue
        v = ck.view(b)
        if v.r is not None:
            ck.protocol(v)
    return rep
