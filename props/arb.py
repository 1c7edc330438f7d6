"""Last word on a function whose summary was not matched with the expected recurrence: the value of the whole summary
(nested loops included) at particular parameter values against the number it stands for.

A recurrence that differs is reported only when this shows a parameter value at which the result differs; where the summary
agrees at every value tried, the difference is one of form and stays undecided."""
import os
import random
import time
from fractions import Fraction
from .common import *
from sa.conc import Run
from sa.decide import Val, NoEval, constants

SKIP = (ZeroDivisionError, OverflowError, RecursionError, KeyError, TypeError, AttributeError, IndexError, ValueError)


def conv(v):
    if isinstance(v, tuple) and v and v[0] == 'arr':
        return [conv(x) for x in v[1:]]
    if isinstance(v, tuple) and v and v[0] == 'agg':
        return ('agg', v[2]) + tuple(conv(x) for x in v[3:])
    return v


def limbs_of(rnd, g, limb, n):
    k = rnd.random()
    w = WIDTH[limb]
    if n > 24 and k < .6:
        v = [0] * n
        v[max(0, n - 1 - rnd.randrange(4))] = g.rand_int(limb)
        if k < .3:
            v[rnd.randrange(n)] = g.rand_int(limb)
        return v
    if k < .12:
        return [0] * n
    if k < .22:
        return [(1 << w) - 1] * n
    if k < .3:
        v = [0] * n
        if n:
            v[rnd.randrange(n)] = g.rand_int(limb)
        return v
    out = [g.rand_int(limb) for _ in range(n)]
    if n and rnd.random() < .2:
        out[-1] = 0
    return out


def points(r, ins, outs, want, tries=400, skip_panics=(), limb=None, lens=(0, 1, 1, 2, 2, 3, 4), pick=None, need=25, panics=True, also=None, far=.15, gen=None):
    """('differs', witness) | ('agrees', n) | ('unknown', why).  ins: {parameter: limb type of a sequence ('[u8]') or integer type}"""
    rnd = random.Random(11)
    terms = [t for t in outs.values() if t is not None]
    if not terms or len(terms) != len(outs):
        return 'unknown', 'no summary'
    everything = list(terms)
    for L in r.loops.values():
        everything += [x for p, i, s in L.phis.values() for x in (i, s)] + [e[0] for e in L.exits]
    cs = sorted(set(constants(*everything)))
    long = [c for c in cs if 5 <= c <= 90]
    huge = [c for c in cs if 90 < c <= 1100]
    big = [c for c in cs if 5 <= c <= 9000]
    good, bad, err = 0, 0, None
    end = time.time() + 20
    for k in range(tries):
        if k == 120 and good == 0 or k > 40 and time.time() > end:
            break
        g = Val(rnd, cs)
        g.conc = True
        g.base = None
        env, py = {}, []
        if gen is not None:
            env, py = gen(rnd)
        for p, ty in () if gen is not None else ins.items():
            if ty.startswith('['):
                n = rnd.choice(lens)
                if long and rnd.random() < far:
                    n = max(0, rnd.choice(long) + rnd.choice((-1, 0, 1, 2)))
                elif huge and rnd.random() < .06:
                    n = rnd.choice(huge) + rnd.choice((-1, 0, 1, 2))
                elif rnd.random() < .05:
                    n = rnd.randrange(0, 12)
                v = limbs_of(rnd, g, ty[1:-1], n)
                env[p] = ('arr',) + tuple(v)
            else:
                v = g.rand_int(ty) if ty != 'bool' else rnd.random() < .5
                if ty == 'usize' and limb and rnd.random() < .4:
                    # amounts about a whole number of limbs
                    v = max(0, WIDTH[limb] * rnd.randrange(0, 5) + rnd.choice((-1, 0, 0, 0, 1, 3)))
                if big and ty == 'usize' and rnd.random() < .08:
                    v = rnd.choice(big) + rnd.choice((-1, 0, 1, 2))
                env[p] = v
            py.append(v)
        if pick is not None:
            py = pick(rnd, py)
            if py is None:
                continue
            for p, v in zip(ins, py):
                env[p] = ('arr',) + tuple(v) if isinstance(v, list) else v
        if also is not None:
            env.update(also(*py))
        try:
            w = want(*[list(v) if isinstance(v, list) and gen is None else v for v in py])
            if w is None:
                continue
            R = Run(r.loops, env, turns=2500)
            R.limb = limb
            shown = {str(p.a[0]): str(v)[:100] for p, v in zip(ins, py)} if gen is None else [plain(v) for v in py]
            if panics:
                pk = R.panicked(r, skip_panics)
                if pk == 'maybe':
                    if w == 'panic':
                        continue
                    pk = None
                if (pk is not None) != (w == 'panic'):
                    return 'differs', {'inputs': shown, 'found': 'panics: %s' % pk if pk else 'no panic', 'required': 'panic' if w == 'panic' else 'no panic'}
            if w == 'panic':
                continue
            for n, t in outs.items():
                if n not in w:
                    continue
                x = R.ev(t)
                ty = tyof(t)
                if ty in WIDTH or ty == 'bool':
                    x = R.co(x, ty)
                x = conv(x)
                if isinstance(w[n], tuple) and w[n][0] == 'num':
                    # as a number, whatever its length in limbs
                    if not isinstance(x, list) or any(not isinstance(q, int) for q in x):
                        raise NoEval('shape')
                    x = ('num', sum(q << (WIDTH[limb] * j) for j, q in enumerate(x)))
                if isinstance(x, list) != isinstance(w[n], list) or isinstance(x, tuple) != isinstance(w[n], tuple):
                    raise NoEval('shape')
                if not simple(x):
                    raise NoEval('elements')
                if x != w[n]:
                    return 'differs', {'inputs': shown, 'result': n, 'found': show_(x), 'required': show_(w[n])}
            good += 1
        except NoEval as ex:
            err = str(ex)
            bad += not err.endswith(('div0', 'long', 'turns', 'loop', 'state'))
        except SKIP as ex:
            err = repr(ex)
            bad += 1
    if os.environ.get('SA_DEBUG'):
        print('points', good, bad, err)
    if good >= need and bad * 4 <= good:
        return 'agrees', good
    return 'unknown', err


def simple(x):
    if isinstance(x, list):
        return all(simple(q) for q in x)
    if isinstance(x, tuple):
        return all(simple(q) for q in x[1:])
    return isinstance(x, (int, Fraction))


def plain(v):
    if isinstance(v, (list, tuple)):
        return '[' + ', '.join(plain(x) for x in v) + ']'
    return str(v)


def tup(v):
    """nested lists as a value of the evaluator"""
    return ('arr',) + tuple(tup(x) for x in v) if isinstance(v, list) else v


def show_(v):
    if isinstance(v, list):
        return plain(v)[:160]
    return str(v)[:160]


def num(v):
    return ('num', v)


class whole:
    """with whole(...): obligations of one function"""
    stats = []

    def __init__(self, rep, key, b, rule, r, ins, outs, want, **kw):
        self.rep, self.key, self.b, self.rule, self.r = rep, key, b, rule, r
        self.ins, self.outs, self.want, self.kw = ins, outs, want, kw

    def __enter__(self):
        self.start = len(self.rep.obs)
        return self

    def __exit__(self, et, ev, tb):
        if et is not None:
            return False
        mine = self.rep.obs[self.start:]
        always = os.environ.get('SA_ARB')
        if all(o[1] == HOLD for o in mine) and not always:
            return False
        v, d = points(self.r, self.ins, self.outs, self.want, **self.kw)
        if always:
            print('ARB', self.key, v, str(d)[:200])
        if v == 'agrees':
            self.rep.obs[self.start:] = [o if o[1] != VIOLATED else (o[0], UNDECIDED, o[2], o[3], ('same result at %d inputs' % d, o[4])) for o in mine]
        elif v == 'differs':
            bad = [o for o in mine if o[1] == VIOLATED]
            if not bad:
                self.rep.ob(self.key + ': result for a particular input', VIOLATED, where(self.b), self.rule, d)
        return False
