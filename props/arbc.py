"""Value of a compound-type summary at particular dimensions and elements (rationals), against the required expression there.

Decides between 'written differently' and 'different' where the closed forms could not be matched; see arb.py."""
import os
import random
import time
from fractions import Fraction
from .common import *
from .arb import conv, simple, plain, SKIP
from sa.conc import Run
from sa.decide import NoEval, constants


class Maker:
    def __init__(self, prog, rnd, pool, top):
        self.prog, self.rnd, self.dims, self.pool, self.top = prog, rnd, {}, pool, top
        self.mode = rnd.random()

    def count(self, n, sub):
        if isinstance(n, int):
            return n
        if isinstance(n, (list, tuple)) and n and n[0] == 'cparam':
            if n[1] in sub:
                return self.count(sub[n[1]], {})
            if n[1] not in self.dims:
                self.dims[n[1]] = self.rnd.choice(self.pool)
            return self.dims[n[1]]
        if isinstance(n, (list, tuple)) and n and n[0] == 'cint':
            return int(n[1])
        raise NoEval('array length %s' % (n,))

    def elem(self):
        r = self.rnd.random()
        if self.mode < .15:
            return Fraction(0 if r < .85 else 1)
        if self.mode < .25:
            return Fraction(1 if r < .85 else 0)
        if r < .25:
            return Fraction(self.rnd.choice((0, 0, 1)))
        return Fraction(self.rnd.randrange(-9, 12), self.rnd.choice((1, 1, 1, 2, 3)))

    def make(self, ty, sub):
        t = self.prog.types[ty] if isinstance(ty, int) else ty
        k = t['k']
        if k == 'ref':
            return self.make(t['e'], sub)
        if k == 'param':
            if t['n'] in sub:
                return self.make(sub[t['n']], {})
            return self.elem()
        if k in ('uint', 'int'):
            return self.rnd.randrange(0, self.top + 2)
        if k == 'array':
            v = ('arr',) + tuple(self.make(t['e'], sub) for _ in range(self.count(t['n'], sub)))
            if .25 < self.mode < .45 and len(v) > 1 and all(isinstance(x, tuple) and x[0] == 'arr' and all(isinstance(y, Fraction) for y in x[1:]) for x in v[1:]):
                # the identity, or all but one element of it
                m = [[Fraction(int(i == j)) for j in range(len(v[1]) - 1)] for i in range(len(v) - 1)]
                if self.rnd.random() < .7 and m[0]:
                    m[self.rnd.randrange(len(m))][self.rnd.randrange(len(m[0]))] = self.rnd.choice((Fraction(0), Fraction(1), Fraction(2)))
                v = ('arr',) + tuple(('arr',) + tuple(x) for x in m)
            return v
        if k == 'tuple':
            return ('agg', 'tuple', 0) + tuple(self.make(x, sub) for x in t['a'])
        if k == 'adt':
            if t['p'] == 'alloc::vec::Vec':
                return ('arr',) + tuple(self.make(t['a'][0], sub) for _ in range(self.rnd.choice(self.pool)))
            a = self.prog.adts.get(t['p'])
            if a is None or a['kind'] != 'struct':
                raise NoEval('type ' + t['p'])
            args = [self.res(x, sub) for x in t.get('a', ())]
            s2 = dict(zip(a['gens'], args))
            fs = a['v'][0]['f']
            if t['p'].endswith('::DynMatrix'):
                # data has rows * columns elements
                r, c = self.rnd.choice(self.pool), self.rnd.choice(self.pool)
                v = {'rows': r, 'cols': c, 'data': ('arr',) + tuple(self.elem() for _ in range(r * c))}
                return ('agg', t['p'], 0) + tuple(v[f['n']] for f in fs)
            return ('agg', t['p'], 0) + tuple(self.make(f['t'], s2) for f in fs)
        raise NoEval('type ' + t['s'])

    def res(self, x, sub):
        if isinstance(x, (list, tuple)) and x and x[0] == 'cparam' and x[1] in sub:
            return sub[x[1]]
        if isinstance(x, int) and self.prog.types[x]['k'] == 'param' and self.prog.types[x]['n'] in sub:
            return sub[self.prog.types[x]['n']]
        return x


def bind(env, p, v):
    env[p] = v
    if p.op == 'agg' and isinstance(v, tuple) and v[0] == 'agg':
        for x, y in zip(p.a[2:], v[3:]):
            if isinstance(x, T):
                bind(env, x, y)
    elif p.op == 'arr' and isinstance(v, tuple) and v[0] == 'arr':
        for x, y in zip(p.a, v[1:]):
            bind(env, x, y)


def probe(c, t, steps, spec, pre, tries=9000, limit=12, need=12, hint=None):
    """('differs', witness) | ('agrees', n) | ('unknown', why)"""
    rnd = random.Random(5)
    everything = [t, spec, pre]
    for L in c.r.loops.values():
        everything += [x for p, i, s in L.phis.values() for x in (i, s)] + [e[0] for e in L.exits]
    cs = [k for k in sorted(set(constants(*everything))) if 1 < k <= 12]
    free = sorted({x for z in (spec, pre) for x in subterms(z) if x.op == 'sym' and tyof(x) == 'usize' and not str(x.a[0]).startswith('#')}
                  | {s for s in steps if isinstance(s, T) and s.op == 'sym'}, key=lambda x: str(x.a[0]))
    good, done, bad, err, end = 0, 0, 0, None, time.time() + limit
    for k in range(tries):
        if done > 20 and time.time() > end or done >= 60 and not good or good >= 120:
            break
        top = rnd.choice((2, 3, 4))
        pool = list(range(0 if rnd.random() < .2 else 1, top + 1))
        if cs and rnd.random() < .3:
            x = rnd.choice(cs)
            pool = [1, x, x + 1, x + 2, x + 3, x + 4]
            top = x + 4
        m = Maker(c.prog, rnd, pool, top)
        at = hint if hint and k < 40 else {}
        m.dims.update({n: v for n, v in at.items() if n.isidentifier() and n.isupper()})
        try:
            env = {}
            for i, p in enumerate(c.p):
                bind(env, p, m.make(c.b.local_ty(i + 1), {}))
                if p.op == 'sym' and str(p.a[0]) in at and isinstance(env[p], int):
                    env[p] = at[str(p.a[0])]
            shown = {show(p, 2): plain(conv(env[p]))[:160] for p in c.p}
            for n, v in m.dims.items():
                env[sym(n, 'usize')] = v
            for s in free:
                if s not in env:
                    env[s] = at.get(str(s.a[0]), rnd.randrange(0, max([top] + list(m.dims.values())) + 1))
                    shown[str(s.a[0])] = env[s]
            R = Run(c.r.loops, env, turns=1200)
            if not R.b(pre):
                continue
            done += 1
            if R.panicked(c.r) not in (None, 'maybe'):
                continue
            x = R.ev(t)
            for s in steps:
                if isinstance(s, T):
                    x = R.sel(x, R.i(s, 'usize'))
                else:
                    if not (isinstance(x, tuple) and x[0] == 'agg'):
                        raise NoEval('shape')
                    x = x[3 + s[1]]
            y = R.ev(spec)
            x, y = conv(x), conv(y)
            if not simple(x) or not simple(y) or type(x) in (list, tuple) and type(x) is not type(y):
                raise NoEval('shape')
            if x != y:
                return 'differs', {'inputs': shown, 'value': plain(x)[:160], 'required': plain(y)[:160]}
            good += 1
        except NoEval as ex:
            err = str(ex)
            bad += not err.endswith(('div0', 'long', 'turns', 'loop', 'state'))
        except SKIP as ex:
            err = repr(ex)
            bad += 1
    if os.environ.get('SA_DEBUG'):
        print('probe', good, bad, err)
    return ('agrees', good) if good >= need and bad * 5 <= good else ('unknown', err)
