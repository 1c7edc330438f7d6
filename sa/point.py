"""Closed forms of what counted loops leave in an element of an array.

The effect of one iteration on an arbitrary position is read off the step of the loop summary; it is
the identity except in the iterations whose (affine) index meets that position.  Solving the index
equation for the iteration number gives the value after any number of iterations, for every length
and every position, without unrolling.  Index arithmetic is over the integers: machine wrap of an
index is excluded by the bounds checks, which are obligations of their own."""
from .term import *
from .loops import LoopView, IT, under
from .lin import infeasible


class Fail(Exception):
    pass


class Lin:
    __slots__ = ('m', 'c')

    def __init__(self, m=None, c=0):
        self.m = {k: v for k, v in (m or {}).items() if v}
        self.c = c

    def add(self, o, k=1):
        m = dict(self.m)
        for a, v in o.m.items():
            m[a] = m.get(a, 0) + k * v
        return Lin(m, self.c + k * o.c)

    def scale(self, k):
        return Lin({a: k * v for a, v in self.m.items()}, k * self.c)

    def coef(self, a):
        return self.m.get(a, 0)

    def key(self):
        return (tuple(sorted((a.id, v) for a, v in self.m.items())), self.c)


def lin(t):
    o = t.op
    if o == 'int':
        return Lin(c=t.a[0])
    if o == 'add':
        return lin(t.a[1]).add(lin(t.a[2]))
    if o == 'sub':
        return lin(t.a[1]).add(lin(t.a[2]), -1)
    if o == 'mul':
        a, b = lin(t.a[1]), lin(t.a[2])
        if not a.m:
            return b.scale(a.c)
        if not b.m:
            return a.scale(b.c)
        if len(a.m) * len(b.m) <= 9 and t.a[0] == 'usize':
            r = a.scale(b.c).add(b.scale(a.c)).add(Lin(c=-a.c * b.c))
            for x, v in a.m.items():
                for y, w in b.m.items():
                    r = r.add(Lin({BIN('mul', 'usize', x, y): v * w}))
            return r
    if o == 'cast' and t.a[0] == t.a[1]:
        return lin(t.a[2])
    return Lin({t: 1})


def _sum(items, c):
    t = None
    for a, v in items:
        x = a if v == 1 else BIN('mul', 'usize', a, mkint(v))
        t = x if t is None else BIN('add', 'usize', t, x)
    if t is None:
        return mkint(c)
    return BIN('add', 'usize', t, mkint(c)) if c else t


def unlin(l):
    it = sorted(l.m.items(), key=lambda kv: kv[0].id)
    pos = [(a, v) for a, v in it if v > 0]
    neg = [(a, -v) for a, v in it if v < 0]
    p = _sum(pos, l.c if l.c > 0 else 0)
    if neg or l.c < 0:
        return BIN('sub', 'usize', p, _sum(neg, -l.c if l.c < 0 else 0))
    return p


def nonneg(l):
    """term for l >= 0 without subtraction"""
    it = sorted(l.m.items(), key=lambda kv: kv[0].id)
    pos = _sum([(a, v) for a, v in it if v > 0], l.c if l.c > 0 else 0)
    ng = [(a, -v) for a, v in it if v < 0]
    if l.c < 0:
        return LT(_sum(ng, -l.c - 1), pos)
    return NOT(LT(pos, _sum(ng, 0)))


class Facts:
    """linear facts in force"""

    def __init__(self, rows=(), bools=()):
        self.rows = list(rows)
        self.bools = dict(bools)
        self._c = {}

    def plus(self, c, pos=True):
        f = Facts(self.rows, self.bools)
        f._add(c, pos)
        return f

    def _add(self, c, pos):
        if c.op == 'not':
            return self._add(c.a[0], not pos)
        if c.op == 'and' and pos:
            for x in c.a:
                self._add(x, True)
            return
        if c.op == 'or' and not pos:
            for x in c.a:
                self._add(x, False)
            return
        self.bools[c] = pos
        if c.op == 'lt' and (tyof(c.a[0]) or tyof(c.a[1])) == 'usize':
            a, b = lin(c.a[0]), lin(c.a[1])
            l = b.add(a, -1)
            self.rows.append(Lin(l.m, l.c - 1) if pos else l.scale(-1))
        elif c.op == 'eq' and pos and (tyof(c.a[0]) or tyof(c.a[1])) == 'usize':
            l = lin(c.a[0]).add(lin(c.a[1]), -1)
            self.rows += [l, l.scale(-1)]

    def bad(self, extra):
        rows = []
        atoms = set()
        for l in self.rows + extra:
            rows.append((dict(l.m), l.c))
            atoms |= set(l.m)
        for a in list(atoms):
            if a.op == 'div' and a.a[2].op == 'int' and 1 < a.a[2].a[0] < 1 << 20:
                # k * (x / k) <= x < k * (x / k) + k
                x = lin(a.a[1])
                k = a.a[2].a[0]
                if a not in x.m:
                    for l in (x.add(Lin({a: k}), -1), Lin({a: k}, k - 1).add(x, -1)):
                        rows.append((dict(l.m), l.c))
                        atoms |= set(l.m)
        for a in atoms:
            rows.append(({a: 1}, 0))
            r = rng(a)
            if r and r[1] is not None and r[1] < (1 << 60):
                rows.append(({a: -1}, r[1]))
        return infeasible(rows)

    def ge0(self, l):
        """True / False / None for l >= 0"""
        if not l.m:
            return l.c >= 0
        k = l.key()
        if k in self._c:
            return self._c[k]
        r = None
        if self.bad([Lin({a: -v for a, v in l.m.items()}, -l.c - 1)]):
            r = True
        elif self.bad([l]):
            r = False
        self._c[k] = r
        return r

    def cond(self, c):
        """c simplified under the facts"""
        if c in (TRUE, FALSE):
            return c
        if c in self.bools:
            return mkbool(self.bools[c])
        if c.op == 'not':
            return NOT(self.cond(c.a[0]))
        if c.op == 'and':
            return AND(*[self.cond(x) for x in c.a])
        if c.op == 'or':
            return OR(*[self.cond(x) for x in c.a])
        if c.op == 'lt' and (tyof(c.a[0]) or tyof(c.a[1])) == 'usize':
            l = lin(c.a[1]).add(lin(c.a[0]), -1)
            l = Lin(l.m, l.c - 1)
            r = self.ge0(l)
            return mkbool(r) if r is not None else NOT(NOT(nonneg(l)))
        if c.op == 'eq' and (tyof(c.a[0]) or tyof(c.a[1])) == 'usize':
            return self.eq(lin(c.a[0]), lin(c.a[1]))
        return c

    def eq(self, a, b):
        l = a.add(b, -1)
        if not l.m:
            return mkbool(l.c == 0)
        x, y = self.ge0(l), self.ge0(l.scale(-1))
        if x is False or y is False:
            return FALSE
        if x and y:
            return TRUE
        it = sorted(l.m.items(), key=lambda kv: kv[0].id)
        pos = _sum([(p, v) for p, v in it if v > 0], l.c if l.c > 0 else 0)
        neg = _sum([(p, -v) for p, v in it if v < 0], -l.c if l.c < 0 else 0)
        return EQ(pos, neg)


def bind(body, var):
    """body with var replaced by a bound variable named after its height (alpha-normal form)"""
    h = 0
    for x in subterms(body):
        if x.op in ('big', 'forall'):
            h = max(h, x.a[-2] + 1)
    return h, subst(body, lambda x: bound(h) if x is var else None)


def bound(h):
    return sym('#b%d' % h, 'usize')


class Point:
    def __init__(self, loops, given=None, fuel=4000):
        self.loops = loops
        self.given = given or {}
        self.views = {}
        self.fuel = fuel
        self.depth = 0

    # ------------------------------------------------------------ loops
    def view(self, lid):
        if lid not in self.views:
            L = self.loops[lid]
            v = LoopView(L, mkint(0), 'up')
            v.t = sym('#t%d' % len(self.views), 'usize')
            if not v.counters:
                raise Fail('no induction variable')
            f = lambda x: v.t if x is IT else None
            v.map = {p: subst(m, f) for p, m in v.map.items()}
            self.views[lid] = v
        return self.views[lid]

    def trips(self, lid, F, env):
        """number of iterations, as a term"""
        v = self.view(lid)
        if len(v.exits) > 1:
            # several ways out: the iteration count is known when the loop is known to run to its end
            ks = self.exits_in_force(lid, F)
            if len(ks) != 1:
                raise Fail('several ways out')
            c = NOT(v.exits[ks[0]])
        else:
            c = v.cont
        c = self.res(c, F, {**env, lid: v.t})
        T = None
        for x in (c.a if c.op == 'and' else [c]):
            pos = True
            if x.op == 'not':
                x, pos = x.a[0], False
            l = None
            if x.op == 'lt' and pos:
                l = lin(x.a[1]).add(lin(x.a[0]), -1)          # > 0
                k = l.coef(v.t)
                if k == -1:
                    l = l.add(Lin({v.t: 1}))
                else:
                    l = None
            elif x.op == 'lt':
                l = lin(x.a[0]).add(lin(x.a[1]), -1)          # >= 0
                k = l.coef(v.t)
                l = l.add(Lin({v.t: 1}, 1)) if k == -1 else None
            elif x.op == 'eq' and not pos:
                l = lin(x.a[1]).add(lin(x.a[0]), -1)
                k = l.coef(v.t)
                if k == 1:
                    l = l.scale(-1)
                if k in (1, -1):
                    l = l.add(Lin({v.t: 1}))
                    if F.ge0(l) is not True:
                        raise Fail('start beyond the end')
                else:
                    l = None
            if l is None:
                raise Fail('exit condition %s' % show(x, 5))
            # l may be negative: no iterations
            r = F.ge0(l)
            t = unlin(l) if r else mkint(0) if r is False else ITE(nonneg(l), unlin(l), mkint(0))
            T = t if T is None or T is t else ITE(LT(t, T), t, T)
        return T

    def fresh(self):
        self.nu = getattr(self, 'nu', 0) + 1
        return sym('#u%d' % self.nu, 'usize')

    def exits_in_force(self, lid, F):
        v = self.view(lid)
        ks = set(range(len(v.exits)))
        sel = raw('exitsel', lid)
        for c, pos in F.bools.items():
            if c.op == 'insw' and c.a[0] is sel:
                inn = (c.a[2] is not True) == pos
                ks = {k for k in ks if (k in c.a[1]) == inn}
        return sorted(ks)

    def exhausts(self, lid, k):
        """exit k is the end of the iteration space: not (counter < bound)"""
        v = self.view(lid)
        x = v.exits[k]
        ps = [y for y in subterms(x) if y.op == 'phi' and y.a[0] == lid]
        return bool(ps) and all(y.a[1] in v.counters for y in ps) and x.op in ('not', 'eq', 'or') and not any(y.op in ('call', 'discr', 'sel') for y in subterms(x))

    def complete(self, t, F, env):
        """insw over the exit taken, as 'for all iterations no early exit'"""
        lid = t.a[0].a[0]
        v = self.view(lid)
        ends = [k for k in range(len(v.exits)) if self.exhausts(lid, k)]
        if len(ends) != 1:
            raise Fail('no single normal end')
        e = ends[0]
        rest = set(range(len(v.exits))) - {e}
        ks = set(t.a[1])
        if ks == {e}:
            pos = True
        elif ks == rest:
            pos = False
        else:
            raise Fail('which early exit')
        if t.a[2] is True:
            pos = not pos
        F1 = F.plus(raw('insw', raw('exitsel', lid), (e,), False))
        n = self.trips(lid, F1, env)
        early = FALSE
        for k in rest:
            early = OR(early, v.exits[k])
        u = self.fresh()
        e2 = {**env, lid: u}
        F2 = F.plus(LT(u, n))
        body = NOT(self.res(early, F2, e2))
        body = F2.cond(body)
        r = self.forall(n, body, u)
        return r if pos else NOT(r)

    def forall(self, n, body, var):
        if body is TRUE or (isint(n) and n.a[0] == 0):
            return TRUE
        h, body = bind(body, var)
        return raw('forall', n, h, body)

    def big(self, op, ty, init, n, body, var, F):
        """init op body(0) op ... op body(n-1)"""
        from .ring import Ring
        unit = 'zero' if op == 'add' else 'one'
        m1 = unlin(lin(var).add(Lin(c=-1)))
        down = self.tidy(subst(body, lambda x: m1 if x is var else None), F)
        first = self.tidy(subst(down, lambda x: mkint(0) if x is var else None), F)
        if not (init.op == 'tconst' and init.a[0] == unit):
            if Ring().equal(init, first):
                init = None
                n = unlin(lin(n).add(Lin(c=1)))
                body = down
        else:
            init = None
        h, body = bind(body, var)
        b = raw('big', op, n, h, body)
        if init is None:
            return b
        return raw('t', op, init, b)

    # ------------------------------------------------------------ reading
    def burn(self):
        self.fuel -= 1
        if self.fuel < 0:
            raise Fail('too large')

    def res(self, t, F, env):
        """t with every carried or final value of the loops replaced by its closed form"""
        self.burn()
        o = t.op
        if o in ('sym', 'int', 'bool', 'str', 'float'):
            return t
        if o in ('sel', 'fld'):
            return self.read(t, (), F, env)
        if o == 'ite':
            c = F.cond(self.res(t.a[0], F, env))
            if c is TRUE:
                return self.res(t.a[1], F, env)
            if c is FALSE:
                return self.res(t.a[2], F, env)
            return ITE(c, self.res(t.a[1], self.both(F, c, t.a[0], True), env), self.res(t.a[2], self.both(F, c, t.a[0], False), env))
        if o == 'insw' and t.a[0].op == 'exitsel':
            if t in F.bools:
                return mkbool(F.bools[t])
            if NOT(t) in F.bools:
                return mkbool(not F.bools[NOT(t)])
            if t.a[0].a[0] in self.loops:
                return self.complete(t, F, env)
        if o in ('phi', 'fin'):
            return self.read(t, (), F, env)
        if o == 'leaf':
            return t
        if o == 'len' and t.a[0].op in ('phi', 'fin') and t.a[0].a[0] in self.loops:
            x = t.a[0]
            lid, k = x.a[0], x.a[1]
            v = self.view(lid)
            if k in v.data:
                p, init, step = v.data[k]
                tau = (env.get(lid) if x.op == 'phi' else self.trips(lid, F, env))
                e1 = {a: b for a, b in env.items() if a != lid and a != ('keep', lid)}
                ls = LEN(step)
                if ls is LEN(p):
                    return self.res(LEN(init), F, e1)
                g = lin(ls).add(lin(LEN(p)), -1)
                if not g.m and tau is not None:
                    return unlin(lin(self.res(LEN(init), F, e1)).add(lin(tau).scale(g.c)))
        na = tuple(self.resa(x, F, env) for x in t.a)
        if all(p is q or (not isinstance(p, T) and p == q) for p, q in zip(na, t.a)):
            r = t
        else:
            r = rebuild(o, na)
        if o in ('lt', 'eq', 'and', 'or', 'not'):
            r = F.cond(r)
        elif o in ('add', 'sub') and t.a[0] == 'usize':
            r = unlin(lin(r))
        return r

    def resa(self, x, F, env):
        if isinstance(x, T):
            return self.res(x, F, env)
        if isinstance(x, tuple):
            return tuple(self.resa(y, F, env) for y in x)
        return x

    def both(self, F, c, orig, pos):
        G = F.plus(c, pos)
        return G if orig is c else G.plus(F.cond(orig), pos)

    def ix(self, t, F, env):
        return unlin(lin(self.res(t, F, env)))

    def read(self, t, path, F, env):
        """closed form of t[path]; indices in the path are already closed"""
        self.burn()
        o = t.op
        if t in self.given:
            return self.build(self.given[t], path)
        if o == 'sel':
            return self.read(t.a[0], (('i', self.ix(t.a[1], F, env)),) + path, F, env)
        if o == 'fld':
            return self.read(t.a[0], (('f', t.a[1], t.a[2]),) + path, F, env)
        if o == 'ite':
            c = F.cond(self.res(t.a[0], F, env))
            if c is TRUE:
                return self.read(t.a[1], path, F, env)
            if c is FALSE:
                return self.read(t.a[2], path, F, env)
            return ITE(c, self.read(t.a[1], path, self.both(F, c, t.a[0], True), env), self.read(t.a[2], path, self.both(F, c, t.a[0], False), env))
        if o in ('phi', 'fin'):
            return self.carried(t, path, F, env)
        if not path:
            if o in ('upd', 'rep', 'arr', 'push', 'resize', 'updsub', 'sub', 'uninit'):
                # whole sequence as a value
                na = tuple(self.resa(x, F, env) for x in t.a)
                return rebuild(o, na)
            return self.res(t, F, env)
        p = path[0]
        rest = path[1:]
        if p[0] == 'i':
            q = p[1]
            if o == 'upd':
                i = self.ix(t.a[1], F, env)
                e = F.eq(lin(i), lin(q))
                if e is TRUE:
                    return self.read(t.a[2], rest, F, env)
                if e is FALSE:
                    return self.read(t.a[0], path, F, env)
                return ITE(e, self.read(t.a[2], rest, F.plus(e), env), self.read(t.a[0], path, F.plus(e, False), env))
            if o == 'rep':
                return self.read(t.a[0], rest, F, env)
            if o == 'arr':
                if isint(q):
                    if q.a[0] < len(t.a):
                        return self.read(t.a[q.a[0]], rest, F, env)
                    return UNDEF
                r = UNDEF
                for k in range(len(t.a) - 1, -1, -1):
                    v = self.read(t.a[k], rest, F, env)
                    r = v if r is UNDEF else ITE(EQ(q, mkint(k)), v, r)
                return r
            if o == 'sub':
                i = unlin(lin(q).add(lin(self.ix(t.a[1], F, env))))
                return self.read(t.a[0], (('i', i),) + rest, F, env)
            if o == 'resize':
                n = self.res(LEN(t.a[0]), F, env)
                c = F.cond(LT(q, n))
                a = UNDEF if c is FALSE else self.read(t.a[0], path, F.plus(c) if c is not TRUE else F, env)
                b = UNDEF if c is TRUE else self.read(t.a[2], rest, F.plus(c, False) if c is not FALSE else F, env)
                return a if b is UNDEF else b if a is UNDEF else ITE(c, a, b)
            if o == 'push':
                n = self.res(LEN(t.a[0]), F, env)
                e = F.eq(lin(q), lin(n))
                if e is TRUE:
                    return self.read(t.a[1], rest, F, env)
                if e is FALSE:
                    return self.read(t.a[0], path, F, env)
                return ITE(e, self.read(t.a[1], rest, F.plus(e), env), self.read(t.a[0], path, F.plus(e, False), env))
            if o == 'updsub':
                st, n = self.ix(t.a[1], F, env), self.ix(t.a[2], F, env)
                c = F.cond(AND(NOT(LT(q, st)), LT(q, unlin(lin(st).add(lin(n))))))
                inn = lambda F2: self.read(t.a[3], (('i', unlin(lin(q).add(lin(st), -1))),) + rest, F2, env)
                if c is TRUE:
                    return inn(F)
                if c is FALSE:
                    return self.read(t.a[0], path, F, env)
                return ITE(c, inn(F.plus(c)), self.read(t.a[0], path, F.plus(c, False), env))
            if o == 'uninit':
                return raw('uninitv')
            if o in ('eachref',):
                return self.build(SEL(t, q), rest)
        else:
            if o == 'agg':
                v = FIELD(t, p[1], p[2])
                return self.read(v, rest, F, env)
            if o == 'setf':
                if t.a[2] == p[2]:
                    return self.read(t.a[3], rest, F, env)
                return self.read(t.a[0], path, F, env)
        if o in ('op', 'opout', 'sym', 'load', 'call', 'const', 'tcall', 'uninitv', 't', 'tconst') or o == 'bytes' and not any(x.op in ('phi', 'fin') for x in subterms(t)):
            b = t if o == 'sym' else rebuild(o, tuple(self.resa(x, F, env) for x in t.a))
            return self.build(b, path)
        raise Fail('reading %s' % show(t, 3))

    def build(self, t, path):
        for p in path:
            t = SEL(t, p[1]) if p[0] == 'i' else FIELD(t, p[1], p[2])
        return t

    def carried(self, t, path, F, env):
        lid, k = t.a[0], t.a[1]
        if lid not in self.loops:
            raise Fail('unknown loop')
        v = self.view(lid)
        p = raw('phi', lid, k, t.a[2])
        if t.op == 'phi' and lid not in env:
            raise Fail('loop state outside its loop')
        tau = env[lid] if t.op == 'phi' else self.trips(lid, F, env)
        if k in v.counters:
            m = v.map[p]
            m = subst(m, lambda x: tau if x is v.t else None)
            return self.res(m, F, env)
        if k not in v.data:
            if p in v.sub0:
                return v.sub0[p]
            raise Fail('carried %s' % show(t, 3))
        if t.op == 'phi' and tau is v.t and ('keep', lid) in env:
            return raw('leaf', lid, k, t.a[2], path)
        return self.state(lid, k, t.a[2], tau, path, F, env)

    def state(self, lid, k, ty, tau, path, F, env):
        """value of carried leaf k at `path` after tau iterations"""
        v = self.view(lid)
        self.depth += 1
        if self.depth > 12:
            self.depth -= 1
            raise Fail('recursive reads')
        try:
            _, init, step = v.data[k]
            me = raw('leaf', lid, k, ty, path)
            env1 = {a: b for a, b in env.items() if a != lid and a != ('keep', lid)}
            start = lambda F2: self.read(init, path, F2, env1)
            e2 = dict(env1)
            e2[lid] = v.t
            e2[('keep', lid)] = True
            E = self.read(step, path, Facts(F.rows, F.bools), e2)
            if E is me:
                return start(F)
            cases = []
            self.cases(E, me, [], cases)
            events = []
            for lits, val in cases:
                t0 = None
                for x in lits:
                    if x.op == 'eq' and (tyof(x.a[0]) or tyof(x.a[1])) == 'usize':
                        l = lin(x.a[0]).add(lin(x.a[1]), -1)
                        c = l.coef(v.t)
                        if c in (1, -1):
                            t0 = l.add(Lin({v.t: c}), -1).scale(-c)
                            eqn = x
                            break
                for x in lits if t0 is None else ():
                    # t <= rest with rest <= 0: the first iteration only
                    y, pos = (x.a[0], False) if x.op == 'not' else (x, True)
                    if y.op == 'lt' and (tyof(y.a[0]) or tyof(y.a[1])) == 'usize':
                        l = lin(y.a[1]).add(lin(y.a[0]), -1)
                        l = Lin(l.m, l.c - 1) if pos else l.scale(-1)
                        if l.coef(v.t) == -1 and F.ge0(l.add(Lin({v.t: 1})).scale(-1)) is True:
                            t0, eqn = Lin(), None
                            break
                if t0 is None:
                    # changes in every iteration: fine when it does not depend on its own past
                    if len(cases) == 1 and not lits and not any(y is me for y in subterms(val)):
                        prev = unlin(lin(tau).add(Lin(c=-1)))
                        c = F.eq(lin(tau), Lin())
                        now = lambda F2: self.at(val, me, None, lid, prev, F2, env1)
                        if c is TRUE:
                            return start(F)
                        if c is FALSE:
                            return now(F)
                        return ITE(c, start(F.plus(c)), now(F.plus(c, False)))
                    r = self.reduction(cases, me, lid, ty, v, tau, start, F, env1)
                    if r is not None:
                        return r
                    raise Fail('not a point update')
                events.append((t0, [y for y in lits if y is not eqn], val))
            events = self.chrono(events, F, lin(tau))
            return self.fold(events, len(events), me, lid, v, tau, start, F, env1)
        finally:
            self.depth -= 1

    def reduction(self, cases, me, lid, ty, v, tau, start, F, env):
        if len(cases) != 1 or cases[0][0]:
            # x = if c { p } else { x }  etc. of booleans
            return None
        val = cases[0][1]
        u = self.fresh()
        F2 = F.plus(LT(u, tau))
        if val.op == 't' and val.a[0] in ('add', 'mul') and len(val.a) == 3:
            for a, e in ((val.a[1], val.a[2]), (val.a[2], val.a[1])):
                if a is me and not any(y is me for y in subterms(e)):
                    body = self.at(e, me, None, lid, u, F2, env)
                    return self.big(val.a[0], ty, start(F), tau, body, u, F2)
        if val.op in ('and', 'or') and any(x is me for x in val.a):
            rest = [x for x in val.a if x is not me]
            if any(y is me for x in rest for y in subterms(x)):
                return None
            b = AND(*rest) if val.op == 'and' else OR(*rest)
            b = self.at(b, me, None, lid, u, F2, env)
            if val.op == 'and':
                return AND(start(F), self.forall(tau, b, u))
            return OR(start(F), NOT(self.forall(tau, NOT(b), u)))
        return None

    def chrono(self, ev, F, tau):
        inside = lambda t: [t, tau.add(t, -1).add(Lin(c=-1))]
        out = []
        for e in ev:
            i = len(out)
            for j, x in enumerate(out):
                d = e[0].add(x[0], -1)
                if F.ge0(d) is True:
                    continue
                if F.ge0(d.scale(-1)) is True:
                    i = min(i, j)
                    continue
                if F.bad(inside(e[0]) + inside(x[0])):
                    continue        # never both
                raise Fail('order of writes')
            out.insert(i, e)
        return out

    def fold(self, ev, n, me, lid, v, tau, start, F, env):
        """value after the first n events"""
        if n == 0:
            return start(F)
        t0, lits, val = ev[n - 1]
        tt = unlin(t0)
        up = lin(tau).add(t0, -1).add(Lin(c=-1))
        c = TRUE
        for l in (t0, up):
            r = F.ge0(l)
            c = AND(c, mkbool(r) if r is not None else nonneg(l))
        before = lambda F2: self.fold(ev, n - 1, me, lid, v, tau, start, F2, env)
        if c is FALSE:
            return before(F)
        F1 = F.plus(c) if c is not TRUE else F
        for x in lits:
            y = F1.cond(self.at(x, me, None, lid, tt, F1, env))
            c = AND(c, y)
            if c is FALSE:
                return before(F)
            F1 = F1.plus(y)
        if any(y is me for y in subterms(val)):
            acc = before(F1)
        else:
            acc = None
        hit = self.at(val, me, acc, lid, tt, F1, env)
        if c is TRUE:
            return hit
        return ITE(c, hit, before(F.plus(c, False)))

    def at(self, t, me, acc, lid, tt, F, env):
        """value of an iteration expression in iteration tt"""
        v = self.view(lid)
        memo = {}

        def g(x):
            if x is me:
                if acc is None:
                    raise Fail('own past')
                return acc
            if x is v.t:
                return tt
            if x.op == 'leaf' and x.a[0] == lid:
                path = tuple(('i', unlin(lin(sub(p[1])))) if p[0] == 'i' else p for p in x.a[3])
                return self.state(lid, x.a[1], x.a[2], tt, path, F, env)
            return None

        def sub(y):
            return subst(y, g, memo)
        r = sub(t)
        return self.tidy(r, F)

    def tidy(self, t, F):
        """re-simplify conditions and index arithmetic"""
        memo = {}

        def go(x, F):
            if not isinstance(x, T) or not x.a:
                return x
            k = (x, id(F))
            if k in memo:
                return memo[k]
            if x.op == 'ite':
                c = F.cond(go(x.a[0], F))
                if c is TRUE:
                    r = go(x.a[1], F)
                elif c is FALSE:
                    r = go(x.a[2], F)
                else:
                    r = ITE(c, go(x.a[1], F.plus(c)), go(x.a[2], F.plus(c, False)))
            else:
                na = tuple(go(y, F) if isinstance(y, T) else y for y in x.a)
                r = x if all(p is q for p, q in zip(na, x.a)) else rebuild(x.op, na)
                if r.op in ('add', 'sub') and r.a[0] == 'usize':
                    r = unlin(lin(r))
            memo[k] = r
            keep.append(F)
            return r
        keep = []
        return go(t, F)

    def cases(self, E, me, lits, out):
        if E is me:
            return
        if E.op == 'ite':
            c = E.a[0]
            self.cases(E.a[1], me, lits + (list(c.a) if c.op == 'and' else [c]), out)
            n = NOT(c)
            self.cases(E.a[2], me, lits + (list(n.a) if n.op == 'and' else [n]), out)
            return
        out.append((lits, E))


def closed(t, loops, pre=TRUE, given=None):
    """closed form of t (which may contain loop results) under pre, or Fail"""
    return Point(loops, given).res(t, Facts().plus(pre), {})
