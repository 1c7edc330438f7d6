"""shared by the limb-slice properties: instantiated trait methods, contracts for the operations they call"""
from .common import *
from sa.loops import Spec, compare, IT, under, ANY, resub, inner, LoopView, linear
from sa.decide import OPSEM

LIMBS = ('u8', 'usize')
WIDE = {'u8': 'u16', 'usize': 'u128', 'u64': 'u128', 'u16': 'u32', 'u32': 'u64'}


def seqty(limb):
    return '[%s]' % limb


def methods(prog, trait, name, kinds=('slice', 'vec')):
    """instantiations of Trait::name"""
    out = []
    for b, limb, kind in prog.iroots:
        if kind in kinds and b.path.endswith('::%s::%s' % (trait, name)):
            out.append((b, limb, kind))
    return out


CONTRACTS = ('shrink', 'add_item', 'not')


def is_call(c, trait, name):
    return c.get('p', '').endswith('%s::%s' % (trait, name)) or (c.get('p', '').endswith('::' + name) and trait in c.get('tr', ''))


def contract_hook(names):
    """operations treated by contract: each is decided separately; here they are named functions of
    their argument values.  Mutated receivers become the named result."""
    def hook(eng, fr, s, c, args, atys, dty, cond, where):
        p = c.get('p', '')
        for key in names:
            tr, m = key
            if p.endswith('::' + m) and (('::' + tr + '::') in p or tr in str(c.get('tr', ''))):
                vals = [eng.reify(s, a) for a in args]
                nm = '%s::%s' % key
                t = raw('op', nm, *vals)
                r = names[key]
                for i in r.get('mut', ()):
                    eng.store(s, args[i], CALL(nm, i, *vals))
                if r.get('ret') == 'arg0':
                    return args[0]
                if r.get('ret') == 'unit':
                    return UNIT
                if r.get('ret') == 'bool':
                    return RET(nm, *vals)
                if r.get('ret') == 'arg0,bool':
                    return TUPLE(args[0], RET(nm, *vals))
                return t
        return NotImplemented
    return hook


def CALL(name, i, *vals):
    """state of argument i after the named operation"""
    t = raw('opout', name, i, *vals)
    if isseq(vals[i]):
        LENS[t] = LEN(vals[i])
    if name == 'ElementMul::add_item':
        return ITE(EQ(vals[2], mkint(0, tyof(vals[2]))), vals[0], t)
    return t


def RET(name, *vals):
    t = raw('tcall', 'bool', raw('op', name, *vals))
    if name == 'ElementMul::add_item':
        return AND(NE(vals[2], mkint(0, tyof(vals[2]))), t)
    return t


def _val(e, s):
    w = WIDTH[e]
    return sum(x << (w * i) for i, x in enumerate(s))


def _limbs(e, v, n):
    w = WIDTH[e]
    return [(v >> (w * i)) & ((1 << w) - 1) for i in range(n)]


def sem_add_item(e, s, i, v):
    w = WIDTH[e]
    if i >= len(s):
        return v != 0, {0: list(s)}
    t = _val(e, s) + (v << (w * i))
    return t >= 1 << (w * len(s)), {0: _limbs(e, t, len(s))}


def sem_row(e, s, base, l, r):
    """add l * r at limb base, keeping the final high limb apart"""
    w = WIDTH[e]
    c, ov = 0, False
    for k, x in enumerate(r):
        t = l * x + c
        f, d = sem_add_item(e, s, base + k, t & ((1 << w) - 1))
        s = d[0]
        ov = ov or f
        c = t >> w
    return s, c, ov


OPSEM['ElementMul::add_item'] = sem_add_item
OPSEM['row:limbs'] = lambda e, s, b, l, r: (None, {0: sem_row(e, s, b, l, r)[0]})
OPSEM['row:carry'] = lambda e, s, b, l, r: (sem_row(e, s, b, l, r)[1], {})
OPSEM['row:lost'] = lambda e, s, b, l, r: (sem_row(e, s, b, l, r)[2], {})
OPSEM['ElementNot::not'] = lambda e, s: (None, {0: [x ^ ((1 << WIDTH[e]) - 1) for x in s]})


def params(prog, b, r):
    """entry values of the parameters, looking through references"""
    eng = r.engine
    out = []
    for i in range(b.argc):
        p = eng.args[i]
        if p.op == 'sym' and isinstance(p.a[1], str) and p.a[1].startswith('&'):
            out.append(eng.mem_init(p))
        else:
            out.append(p)
    return out


def final(r, b, i):
    """contents behind reference parameter i when the function returns"""
    p = r.engine.args[i]
    if r.state is None:
        return None
    return r.engine.root_val(r.state, ('mem', p))


def get0(S, i, limb):
    return ITE(LT(i, LEN(S)), SEL(S, i), mkint(0, limb))


def MAX(a, b):
    return ITE(LT(b, a), a, b)


def report(rep, key, b, rule, res):
    """fold the sub-obligations of one function"""
    for what, v, d in res:
        rep.ob('%s: %s' % (key, what), v, where(b), rule, d)


def main_loop(r, pick=None):
    ls = [l for l in r.loops.values() if l.phis]
    if pick:
        ls = [l for l in ls if pick(l)]
    return ls


from .arb import whole, points, num


def trim(v):
    """without the zero limbs at the top, but one limb at least where there was one"""
    v = list(v)
    while len(v) > 1 and v[-1] == 0:
        v.pop()
    return v


OPSEM['IntSlice::shrink'] = lambda e, s: (trim(s), {})
