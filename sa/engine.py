"""Gated value-flow construction over MIR.

Each function body is turned into value numbers by one forward pass over its control-flow graph in
topological order.  Where control joins, values are merged with gating conditions (gated SSA), so
no path is ever enumerated.  Natural loops become LoopSummary objects: carried leaves with their
initial value and per-iteration step, plus the exit conditions; nothing is unrolled.  Calls to
functions whose body is part of the analysed program are expanded in place (bounded depth); the rest
are either modelled (sa/models.py) or stay uninterpreted."""
import re
from .term import *
from . import facts


class Undecided(Exception):
    pass


_WRAPS = ('core::mem::maybe_uninit::MaybeUninit<', 'core::mem::manually_drop::ManuallyDrop<', 'core::ptr::Unaligned<')


def plain(s):
    """type string without the transparent wrappers that do not change the value"""
    for w in _WRAPS:
        while w in s:
            i = s.index(w)
            d, j = 1, i + len(w)
            while d and j < len(s):
                d += (s[j] == '<') - (s[j] == '>' and s[j - 1] != '-')
                j += 1
            s = s[:i] + s[i + len(w):j - 1] + s[j:]
    return s


class Loop:
    """summary of one natural loop"""

    def __init__(self, lid):
        self.id = lid
        self.phis = {}      # key -> (phi term, init, step)
        self.exits = []     # (cond over phis, fin-substituted cond, target)
        self.where = ''
        self.body_cond = TRUE
        self.parent = None

    def __repr__(self):
        s = 'loop %s\n' % (self.where,)
        for k, (p, i, st) in self.phis.items():
            s += '   %s: init=%s\n        step=%s\n' % (p, i, st)
        for c in self.exits:
            s += '   exit when %s\n' % (c[0],)
        return s


class State:
    __slots__ = ('m',)

    def __init__(self, m=None):
        self.m = m if m is not None else {}

    def copy(self):
        return State(dict(self.m))


class Result:
    def __init__(self):
        self.ret = UNDEF
        self.cond = FALSE        # condition under which the function returns
        self.state = None
        self.panics = []         # (cond, kind, where)
        self.loops = {}
        self.calls = []          # uninterpreted calls (name, args, cond, where)
        self.facts = []
        self.unsafe_ops = []
        self.unknown = []        # constructs the engine had to leave opaque


TRACE = ('trace',)


_DERIVED = {}


def derived(p):
    """a pointer computed from a pointer to a known object: it may alias that object"""
    r = _DERIVED.get(p)
    if r is None:
        r = _DERIVED[p] = (p.op in ('ptroff', 'fatptr') or p.op == 'ptrcast' and 'UnsafeCell' not in p.a[0]) and any(x.op == 'ref' for x in subterms(p))
    return r


class Engine:
    def __init__(self, prog, models=None, max_depth=14, inline_std=True, opaque=None, max_blocks=6000):
        self.prog = prog
        FIELDSTR[0] = self.fieldstr
        ADTS.update((k, v) for k, v in prog.adts.items() if v)      # field types are numbered per program
        self.models = models
        self.max_depth = max_depth
        self.inline_std = inline_std
        self.opaque = opaque or (lambda callee: False)
        self.budget = max_blocks
        self.res = Result()
        self.stack = []
        self.frame_n = 0
        self.loops = self.res.loops
        self.phi_ty = {}
        self.const_cache = {}
        self.hooks = {}

    # ------------------------------------------------------------ entry
    def run(self, body, args=None, st=None):
        st = st or State()
        if args is None:
            args = []
            for i in range(body.argc):
                args.append(self.param(body, i + 1))
        self.st_init = st
        self.args = args
        self.rootfid = 'R%s' % body.id
        rets = self.eval_body(body, args, st, TRUE, self.rootfid)
        r = self.res
        if rets is None:
            r.cond = FALSE
            r.state = None
        else:
            r.ret, r.state, r.cond = rets
        return r

    def param(self, body, i):
        ty = body.local_ty(i)
        nm = body.names.get(i, '_%d' % i)
        if i == 1 and nm == '_1':
            nm = 'self' if body.kind != 'Closure' else 'env'
        nm = 'a%d' % i if nm.startswith('_') and nm != '_1' else nm
        return self.symval(nm, ty)

    def symval(self, name, ty):
        k = ty['k']
        if k in ('int', 'uint'):
            return sym(name, ty['n'])
        if k == 'bool':
            return sym(name, 'bool')
        if k == 'char':
            return sym(name, 'char')
        if k == 'tuple':
            return TUPLE(*[self.symval('%s.%d' % (name, i), self.prog.types[t]) for i, t in enumerate(ty['a'])])
        if k == 'adt':
            if ty['p'] == 'core::slice::iter::Iter':
                e = next((self.prog.types[x]['s'] for x in ty['a'] if isinstance(x, int)), None)
                if e is not None:
                    # a slice iterator stands for the positions lo..hi of some slice
                    return AGG('it:slice', 0, sym(name + '.s', '&[%s]' % e), sym(name + '.lo', 'usize'), sym(name + '.hi', 'usize'))
            ad = ADTS.get(ty['p'])
            if ad and ad['kind'] == 'struct' and ad['crate'].startswith('numeric') and len(ad['v'][0]['f']) > 0:
                # expand structs of the workspace one level so that fields are separate values
                fs = []
                for f in ad['v'][0]['f']:
                    ft = self.field_ty(ty, f)
                    fs.append(self.symval('%s.%s' % (name, f['n']), ft))
                return AGG(ty['p'], 0, *fs)
        return sym(name, ty['s'])

    def field_ty(self, ty, f):
        """type json of an ADT field under the ADT's arguments (param substitution by name)"""
        ft = self.prog.types[f['t']] if isinstance(f['t'], int) and f['t'] < len(self.prog.types) else {'k': 'other', 's': '?'}
        ad = ADTS.get(ty['p'])
        if ft['k'] == 'param' and ad:
            for i, g in enumerate(ad['gens']):
                if g == ft['n'] and i < len(ty['a']) and isinstance(ty['a'][i], int):
                    return self.prog.types[ty['a'][i]]
        if ad and ad['gens'] and ft['k'] in ('array', 'adt', 'slice', 'ref', 'tuple'):
            mp = {}
            for i, g in enumerate(ad['gens']):
                if i < len(ty['a']):
                    x = ty['a'][i]
                    mp[g] = self.prog.types[x]['s'] if isinstance(x, int) else str(x[1]) if isinstance(x, (list, tuple)) else str(x)
            if any(k != v for k, v in mp.items()):
                ns = re.sub(r"(?<![\w:'])(%s)(?![\w:])" % '|'.join(map(re.escape, mp)), lambda m: mp[m.group(1)], ft['s'])
                if ns != ft['s']:
                    return self.type_by_str(ns) or {**ft, 's': ns}
        return ft

    def fieldstr(self, s, i):
        """type string of field i of the struct type written s"""
        t = self.type_by_str(s)
        if t is None or t['k'] != 'adt':
            return None
        ad = ADTS.get(t['p'])
        if not ad or ad['kind'] != 'struct' or i >= len(ad['v'][0]['f']):
            return None
        return self.field_ty(t, ad['v'][0]['f'][i])['s']

    # ------------------------------------------------------------ memory
    def root_val(self, st, root):
        v = st.m.get(root)
        if v is None:
            if root[0] == 'mem':
                p = root[1]
                if derived(p):
                    raise Undecided('access through a pointer computed from another: %s' % str(p)[:160])
                v = self.mem_init(p)
                st.m[root] = v
            elif root[0] == 'static':
                return root[1]
            else:
                return UNDEF
        return v

    def mem_init(self, p):
        """initial contents of the object a symbolic pointer refers to"""
        ty = None
        if p.op == 'sym' and isinstance(p.a[1], str):
            s = p.a[1]
            inner = s
            for pre in ('&mut ', '&', '*const ', '*mut '):
                if s.startswith(pre):
                    inner = s[len(pre):]
                    break
            t = self.type_by_str(inner)
            if t is not None:
                return self.symval(p.a[0], t) if t['k'] != 'param' else sym(p.a[0], inner)
            return sym(p.a[0], inner)
        return raw('load', p)

    _tybystr = None

    def type_by_str(self, s):
        if self._tybystr is None:
            self._tybystr = {t['s']: t for t in self.prog.types}
        return self._tybystr.get(s)

    def read_path(self, v, path):
        variant = None
        for p in path:
            if p[0] == 'v':
                variant = p[1]
                continue
            if p[0] == 'f':
                v = FIELD(v, variant, p[1])
                variant = None
            elif p[0] == 'i':
                v = SEL(v, p[1])
            elif p[0] == 'sub':
                v = self.mksub(v, p[1], p[2])
        return v

    def mksub(self, v, s, l):
        if isint(s) and s.a[0] == 0 and l is LEN(v):
            return v
        if v.op == 'sub':
            return raw('sub', v.a[0], BIN('add', 'usize', v.a[1], s), l)
        if v.op == 'arr' and isint(s) and isint(l):
            return raw('arr', *v.a[s.a[0]:s.a[0] + l.a[0]])
        return raw('sub', v, s, l)

    def write_path(self, v, path, x):
        if not path:
            return x
        variant = None
        i = 0
        while path[i][0] == 'v':
            variant = path[i][1]
            i += 1
            if i == len(path):
                return x
        p = path[i]
        rest = path[i + 1:]
        if p[0] == 'f':
            if not rest:
                return SETFIELD(v, variant, p[1], x)
            return SETFIELD(v, variant, p[1], self.write_path(FIELD(v, variant, p[1]), rest, x))
        if p[0] == 'i':
            if not rest:
                return UPD(v, p[1], x)
            return UPD(v, p[1], self.write_path(SEL(v, p[1]), rest, x))
        if p[0] == 'sub':
            # write to element of a subslice, or whole subslice
            if rest and rest[0][0] == 'i':
                return self.write_path(v, (('i', BIN('add', 'usize', p[1], rest[0][1])),) + rest[1:], x)
            return raw('updsub', v, p[1], p[2], x)
        return raw('updp', v, x)

    def load(self, st, ptr):
        """value of *ptr"""
        if ptr.op == 'ref':
            return self.read_path(self.root_val(st, ptr.a[0]), ptr.a[1])
        if ptr.op == 'ite':
            return ITE(ptr.a[0], self.load(st, ptr.a[1]), self.load(st, ptr.a[2]))
        if ptr is UNDEF:
            return UNDEF
        return self.root_val(st, ('mem', ptr))

    def store(self, st, ptr, x, cond=TRUE):
        if ptr.op == 'ite':
            self.store(st, ptr.a[1], x, AND(cond, ptr.a[0]))
            self.store(st, ptr.a[2], x, AND(cond, NOT(ptr.a[0])))
            return
        if ptr is UNDEF:
            return
        if ptr.op == 'ref':
            root, path = ptr.a
        else:
            root, path = ('mem', ptr), ()
        old = self.root_val(st, root)
        new = self.write_path(old, path, x)
        st.m[root] = ITE(cond, new, old) if cond is not TRUE else new

    def extend(self, ptr, elem):
        """pointer to a sub-object"""
        if ptr.op == 'ite':
            return ITE(ptr.a[0], self.extend(ptr.a[1], elem), self.extend(ptr.a[2], elem))
        if ptr is UNDEF:
            return UNDEF
        if ptr.op == 'ref':
            root, path = ptr.a
        else:
            root, path = ('mem', ptr), ()
        if elem[0] == 'i' and path and path[-1][0] == 'sub':
            return raw('ref', root, path[:-1] + (('i', BIN('add', 'usize', path[-1][1], elem[1])),))
        if elem[0] == 'sub' and path and path[-1][0] == 'sub':
            return raw('ref', root, path[:-1] + (('sub', BIN('add', 'usize', path[-1][1], elem[1]), elem[2]),))
        return raw('ref', root, path + (elem,))

    def place_ptr(self, fr, st, pl):
        """pointer term of a MIR place"""
        ptr = raw('ref', ('loc', fr.id, pl[0]), ())
        proj = pl[1]
        for e in proj:
            k = e[0]
            if k == '*':
                ptr = self.load(st, ptr)
                if ptr.op == 'box':
                    ptr = ptr.a[0]
                if ptr.op == 'agg' and ptr.a[0] == 'alloc::boxed::Box':
                    ptr = ptr.a[2]
            elif k == 'f':
                ptr = self.extend(ptr, ('f', e[1]))
            elif k == 'v':
                ptr = self.extend(ptr, ('v', e[1]))
            elif k == 'i':
                ix = self.load(st, raw('ref', ('loc', fr.id, e[1]), ()))
                ptr = self.extend(ptr, ('i', ix))
            elif k == 'ci':
                if e[3]:
                    v = self.load(st, ptr)
                    ptr = self.extend(ptr, ('i', BIN('sub', 'usize', LEN(v), mkint(e[1]))))
                else:
                    ptr = self.extend(ptr, ('i', mkint(e[1])))
            elif k == 'ss':
                v = self.load(st, ptr)
                l = LEN(v)
                if e[3]:
                    n = BIN('sub', 'usize', l, mkint(e[1] + e[2]))
                else:
                    n = mkint(e[2] - e[1])
                ptr = self.extend(ptr, ('sub', mkint(e[1]), n))
            elif k == 'oc' or k == 'pd':
                pass
            else:
                raise Undecided('projection ' + k)
        return ptr

    # ------------------------------------------------------------ operands
    def operand(self, fr, st, o):
        if o[0] in ('cp', 'mv'):
            return self.load(st, self.place_ptr(fr, st, o[1]))
        if o[0] == 'c':
            return self.constant(fr, st, o[1])
        if o[0] == 'rtc':
            return FALSE
        raise Undecided('operand')

    def cst(self, c):
        if c[0] == 'cint':
            return mkint(int(c[1]))
        if c[0] == 'cparam':
            return sym(c[1], 'usize')
        return sym(c[1], 'usize')

    def constant(self, fr, st, c):
        k = c['k']
        ty = self.prog.types[c['t']]
        if k == 'int':
            v = int(c['v'])
            if ty['k'] in ('int', 'uint'):
                return mkint(v, ty['n'])
            if ty['k'] == 'bool':
                return mkbool(v)
            if ty['k'] == 'char':
                return mkint(v, 'char')
            if ty['k'] == 'float':
                return raw('float', v, ty['n'])
            if 'inst' in c:
                r = self.eval_const(fr, st, c['inst'])
                if r is not None:
                    return r
            return self.decode_scalar_adt(ty, v)
        if k == 'fn':
            return raw('fn', self.intern_callee(c['f']))
        if k == 'tree':
            fs = [self.constant(fr, st, x) for x in c['f']]
            if ty['k'] == 'tuple':
                return TUPLE(*fs)
            if ty['k'] == 'array':
                return raw('arr', *fs)
            return AGG(ty['p'], c['vi'], *fs)
        if k == 'zst':
            if ty['k'] == 'tuple':
                return UNIT
            if ty['k'] == 'adt':
                return AGG(ty['p'], 0)
            if ty['k'] == 'array':
                return raw('arr')
            return raw('zst', ty['s'])
        if k == 'tyconst':
            v = c['v']
            if v[0] == 'cint':
                n = int(v[1])
                if ty['k'] in ('int', 'uint'):
                    return mkint(n, ty['n'])
                if ty['k'] == 'bool':
                    return mkbool(n)
                return mkint(n, 'char' if ty['k'] == 'char' else 'usize')
            return sym(v[1], ty.get('n', ty['s']))
        if k == 'str':
            return self.const_ref(raw('str', c['v']))
        if k == 'promoted':
            b = fr.body.promoted[c['n']]
            key = ('prom', id(b))
            r = self.eval_body(b, [], st, TRUE, fr.id + '/p%d' % c['n'])
            if not r:
                return UNDEF
            for kk, vv in r[1].m.items():
                if kk not in st.m:
                    st.m[kk] = vv
            return r[0]
        if k == 'static':
            r = self.eval_const(fr, st, c['inst'])
            if r is not None:
                return self.const_ref(r)
            return raw('opaque', c.get('v', '?'))
        if k in ('uneval', 'opaque', 'bytes'):
            if 'inst' in c:
                r = self.eval_const(fr, st, c['inst'])
                if r is not None:
                    return r
            if k == 'bytes':
                r = self.decode_bytes(ty, c['v'])
                if r is not None:
                    return r
            if 'p' in c:
                t = raw('const', c['p'], self.argsig(c['a']), ty['n'] if ty['k'] in ('int', 'uint') else ty['s'])
                return t
            return raw('opaque', c.get('v', '?') if not isinstance(c.get('v'), dict) else str(c['v'])[:80])
        raise Undecided('const ' + k)

    def argsig(self, a):
        out = []
        for x in a:
            if isinstance(x, int):
                out.append(self.prog.types[x]['s'])
            else:
                out.append(str(x[1]))
        return ','.join(out)

    def decode_scalar_adt(self, ty, v):
        if ty['k'] == 'adt':
            ad = ADTS.get(ty['p'])
            if ad and ad['kind'] == 'enum' and all(not x['f'] for x in ad['v']):
                for i, x in enumerate(ad['v']):
                    if int(x['d']) & 0xff == v & 0xff:
                        return AGG(ty['p'], i)
            if ad and ad['kind'] == 'struct' and len([f for f in ad['v'][0]['f']]) == 1:
                ft = self.field_ty(ty, ad['v'][0]['f'][0])
                if ft['k'] in ('int', 'uint'):
                    return AGG(ty['p'], 0, mkint(v, ft['n']))
                if ft['k'] == 'bool':
                    return AGG(ty['p'], 0, mkbool(v))
        if ty['k'] in ('ptr', 'fnptr'):
            return raw('ptrint', v)
        return raw('scalar', v, ty['s'])

    def decode_bytes(self, ty, v):
        if v['ptr']:
            return None
        b = bytes(v['b'])

        def dec(t, off):
            if t['k'] in ('int', 'uint'):
                w = WIDTH[t['n']] // 8
                return mkint(int.from_bytes(b[off:off + w], 'little'), t['n']), w
            if t['k'] == 'bool':
                return mkbool(b[off]), 1
            if t['k'] == 'char':
                return mkint(int.from_bytes(b[off:off + 4], 'little'), 'char'), 4
            if t['k'] == 'array' and t['n'][0] == 'cint':
                out = []
                e = self.prog.types[t['e']]
                for _ in range(int(t['n'][1])):
                    x, w = dec(e, off)
                    off += w
                    out.append(x)
                return raw('arr', *out), sum(1 for _ in ()) or 0
            raise KeyError
        try:
            if ty['k'] == 'ref':
                inner = self.prog.types[ty['e']]
                if inner['k'] == 'array':
                    return self.const_ref(dec(inner, 0)[0])
                return None
            return dec(ty, 0)[0]
        except KeyError:
            return None

    def const_ref(self, v):
        return raw('ref', ('static', v), ())

    def eval_const(self, fr, st, inst):
        b = self.prog.bodies.get(inst)
        if b is None or len(self.stack) > self.max_depth + 6:
            return None
        if inst in self.const_cache:
            v, mem = self.const_cache[inst]
            for k, x in mem.items():
                st.m.setdefault(k, x)
            return v
        if any(f is b for f in self.stack):
            return None
        tmp = State()
        r = self.eval_body(b, [], tmp, TRUE, 'C%d' % inst)
        if r is None:
            return None
        mem = {k: v for k, v in r[1].m.items()}
        for k, x in mem.items():
            st.m.setdefault(k, x)
        self.const_cache[inst] = (r[0], mem)
        return r[0]

    _callees = {}

    def intern_callee(self, f):
        k = (f['p'], self.argsig(f['a']), f.get('inst'), id(self.prog))
        self._callees[k] = f
        return k

    # ------------------------------------------------------------ rvalues
    def scalar_name(self, t):
        ty = self.prog.types[t] if isinstance(t, int) else t
        if ty['k'] in ('int', 'uint', 'float'):
            return ty['n']
        if ty['k'] in ('bool', 'char'):
            return ty['k']
        return ty['s']

    def rvalue(self, fr, st, rv, dty, cond, where):
        k = rv[0]
        if k == 'use':
            return self.operand(fr, st, rv[1])
        if k == 'ref' or k == 'raw':
            return self.place_ptr(fr, st, rv[1])
        if k == 'rep':
            x = self.operand(fr, st, rv[1])
            return raw('rep', x, self.cst(rv[2]))
        if k == 'cast':
            return self.cast(fr, st, rv, where)
        if k == 'bin':
            a = self.operand(fr, st, rv[2])
            b = self.operand(fr, st, rv[3])
            return self.binop(rv[1], a, b, self.scalar_name(rv[4]), self.scalar_name(rv[5]))
        if k == 'un':
            a = self.operand(fr, st, rv[2])
            n = self.scalar_name(rv[3])
            if rv[1] == 'Not':
                return BNOT(n, a)
            if rv[1] == 'Neg':
                return NEG(n, a)
            if rv[1] == 'PtrMetadata':
                return self.ptr_len(st, a)
            raise Undecided('unop ' + rv[1])
        if k == 'discr':
            ptr = self.place_ptr(fr, st, rv[1])
            v = self.load(st, ptr)
            d = DISCR(v)
            self.note_domain(d, fr, rv[1])
            return d
        if k == 'agg':
            kk = rv[1]
            fs = [self.operand(fr, st, o) for o in rv[2]]
            if kk[0] == 'array':
                return raw('arr', *fs)
            if kk[0] == 'tuple':
                return TUPLE(*fs)
            if kk[0] == 'adt':
                if kk[4] >= 0:
                    return raw('union', kk[1], kk[4], *fs)
                return AGG(kk[1], kk[2], *fs)
            if kk[0] == 'closure':
                return AGG('closure', 0, *(fs + [raw('clbody', kk[2], kk[1])]))
            if kk[0] == 'rawptr':
                return raw('fatptr', *fs)
            raise Undecided('aggregate')
        raise Undecided('rvalue ' + str(rv[:2]))

    def note_domain(self, d, fr, pl):
        """record the set of possible discriminants of raw discr terms"""
        for x in (y for y in subterms(d) if y.op == 'discr'):
            if discr_domain(x) is None:
                t = self.place_ty(fr, pl)
                if t is not None and t['k'] == 'adt':
                    ad = ADTS.get(t['p'])
                    if ad and ad['kind'] == 'enum':
                        set_domain(x, [variant_discr(t['p'], i).a[0] for i in range(len(ad['v']))])

    def place_ty(self, fr, pl):
        t = fr.body.local_ty(pl[0])
        variant = 0
        for e in pl[1]:
            if e[0] == '*':
                if t['k'] in ('ref', 'ptr'):
                    t = self.prog.types[t['e']]
                else:
                    return None
            elif e[0] == 'f':
                t = self.prog.types[e[3]]
            elif e[0] in ('i', 'ci'):
                if t['k'] in ('array', 'slice'):
                    t = self.prog.types[t['e']]
                else:
                    return None
            elif e[0] == 'ss':
                pass
        return t

    def ptr_len(self, st, p):
        if p.op == 'ite':
            return ITE(p.a[0], self.ptr_len(st, p.a[1]), self.ptr_len(st, p.a[2]))
        if p.op == 'fatptr':
            return p.a[1]
        v = self.load(st, p)
        return LEN(v)

    def cast(self, fr, st, rv, where):
        kind, o, ft, tt = rv[1], rv[2], self.prog.types[rv[3]], self.prog.types[rv[4]]
        a = self.operand(fr, st, o)
        f, t = self.scalar_name(rv[3]), self.scalar_name(rv[4])
        if kind.startswith('IntToInt'):
            if a.op == 'discr' or (f not in WIDTH and f not in ('bool', 'char')):
                return a if f not in WIDTH else CAST(f, t, a)
            return CAST(f, t, a)
        if kind.startswith(('FloatToInt', 'IntToFloat', 'FloatToFloat')):
            return raw('fcast', f, t, a)
        if kind.startswith('PointerCoercion'):
            if 'Unsize' in kind:
                return a
            if 'ClosureFnPointer' in kind or 'ReifyFnPointer' in kind or 'MutToConst' in kind or 'ArrayToPointer' in kind:
                return a
            return a
        if kind.startswith('PtrToPtr'):
            # a cast to a pointer to the first element / same object; element type change is opaque
            fe = self.prog.types[ft['e']] if ft['k'] in ('ptr', 'ref') else None
            te = self.prog.types[tt['e']] if tt['k'] in ('ptr', 'ref') else None
            if fe and te and fe['s'] == te['s']:
                return a
            if fe and te and fe['k'] in ('array', 'slice') and self.prog.types[fe['e']]['s'] == te['s']:
                return self.extend(a, ('i', mkint(0)))
            return raw('ptrcast', f, t, a)
        if kind.startswith(('Transmute', 'BoxDerefTransmute', 'Subtype')):
            if ft['s'] == tt['s'] or plain(ft['s']) == plain(tt['s']):
                return a
            if kind.startswith('BoxDeref') or ft['s'].startswith('core::ptr::non_null::NonNull') or ft['s'].startswith('core::ptr::unique::Unique'):
                # Box deref: pointer out of the unique wrapper
                while a.op == 'agg' and len(a.a) > 2:
                    a = a.a[2]
                return a
            if tt['k'] == 'adt' and tt['p'] == ORDERING:
                return raw('transmute', f, t, a)
            return raw('transmute', f, t, a)
        return raw('xcast', kind, f, t, a)

    BINMAP = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'Div': 'div', 'Rem': 'rem', 'BitAnd': 'band',
              'BitOr': 'bor', 'BitXor': 'bxor', 'Shl': 'shl', 'Shr': 'shr',
              'AddUnchecked': 'add', 'SubUnchecked': 'sub', 'MulUnchecked': 'mul', 'ShlUnchecked': 'shl',
              'ShrUnchecked': 'shr'}

    def binop(self, op, a, b, n, n2):
        fl = n in ('f32', 'f64')
        if op in self.BINMAP:
            if fl:
                return raw('f' + self.BINMAP[op], n, a, b)
            return BIN(self.BINMAP[op], n, a, b)
        if op.endswith('WithOverflow'):
            o = op[:3].lower()
            return TUPLE(BIN(o, n, a, b), OVF(o, n, a, b))
        if fl:
            return {'Eq': lambda: raw('feq', *sorted((a, b), key=lambda t: t.id)), 'Ne': lambda: NOT(raw('feq', *sorted((a, b), key=lambda t: t.id))),
                    'Lt': lambda: raw('flt', a, b), 'Gt': lambda: raw('flt', b, a),
                    'Le': lambda: raw('fle', a, b), 'Ge': lambda: raw('fle', b, a)}[op]()
        if op == 'Cmp':
            return CMP3(a, b)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return {'Eq': EQ, 'Ne': NE, 'Lt': LT, 'Le': LE, 'Gt': GT, 'Ge': GE}[op](a, b)
        if op == 'Offset':
            return raw('ptroff', a, b)
        raise Undecided('binop ' + op)

    # ------------------------------------------------------------ CFG
    def cfg(self, body):
        if body._cfg is not None:
            return body._cfg
        n = len(body.blocks)
        succ = [[] for _ in range(n)]
        for i, b in enumerate(body.blocks):
            t = b['t']
            if b['cl']:
                continue
            if t[0] == 'goto':
                succ[i] = [t[1]]
            elif t[0] == 'switch':
                s = [x[1] for x in t[2]] + [t[3]]
                succ[i] = s
            elif t[0] == 'drop':
                succ[i] = [t[2]]
            elif t[0] == 'call':
                if t[4] >= 0:
                    succ[i] = [t[4]]
            elif t[0] == 'assert':
                succ[i] = [t[4]]
        # reachability of a return
        canret = set()
        pred = [[] for _ in range(n)]
        for i in range(n):
            for s in succ[i]:
                pred[s].append(i)
        work = [i for i in range(n) if body.blocks[i]['t'][0] == 'return']
        canret = set(work)
        while work:
            x = work.pop()
            for p in pred[x]:
                if p not in canret:
                    canret.add(p)
                    work.append(p)
        # RPO
        order, seen = [], set()

        def dfs(r):
            st = [(r, iter(succ[r]))]
            seen.add(r)
            while st:
                x, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(succ[s])))
                        break
                else:
                    order.append(x)
                    st.pop()
        dfs(0)
        rpo = order[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        # dominators
        idom = {rpo[0]: rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in pred[b] if p in idom]
                if not ps:
                    continue
                d = ps[0]
                for p in ps[1:]:
                    x, y = d, p
                    while x != y:
                        while num[x] > num[y]:
                            x = idom[x]
                        while num[y] > num[x]:
                            y = idom[y]
                    d = x
                if idom.get(b) != d:
                    idom[b] = d
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if idom[b] == b:
                    return False
                b = idom[b]
        loops = {}
        irreducible = False
        for b in rpo:
            for s in succ[b]:
                if num.get(s, -1) <= num[b]:
                    if dom(s, b):
                        body_ = loops.setdefault(s, {s})
                        w = [b]
                        while w:
                            x = w.pop()
                            if x not in body_:
                                body_.add(x)
                                w.extend(pred[x])
                    else:
                        irreducible = True
        body._cfg = (succ, pred, rpo, num, idom, loops, canret, irreducible)
        return body._cfg

    def eval_body(self, body, args, st, cond, fid):
        """returns (ret value, state, return condition) or None when no path returns"""
        if cond is FALSE:
            return None
        fr = Frame(fid, body)
        self.stack.append(body)
        try:
            for i, a in enumerate(args):
                st.m[('loc', fid, i + 1)] = a
            cfg = self.cfg(body)
            if cfg[7]:
                raise Undecided('irreducible control flow in ' + body.path)
            rets = []
            self.region(fr, cfg, set(cfg[2]), 0, [((), st)], None, rets, cond)
            if not rets:
                return None
            pc, s = self.join(rets, fr)
            v = self.load(s, raw('ref', ('loc', fid, 0), ()))
            self.gc_frame(s, fid, v)
            return v, s, AND(*pc)
        finally:
            self.stack.pop()

    def gc_frame(self, s, fid, v):
        pre = fid
        used = None
        dead = [k for k in s.m if k[0] == 'loc' and (k[1] == pre or k[1].startswith(pre + '/'))]
        if not dead:
            return
        # keep locals reachable through references that escape
        keep = set()
        work = [v] + [x for k, x in s.m.items() if not (k[0] == 'loc' and (k[1] == pre or k[1].startswith(pre + '/')))]
        seen = set()
        while work:
            t = work.pop()
            for x in subterms(t, seen if False else None):
                if x.op == 'ref':
                    r = x.a[0]
                    if r[0] == 'loc' and r not in keep and (r[1] == pre or r[1].startswith(pre + '/')):
                        keep.add(r)
                        if r in s.m:
                            work.append(s.m[r])
        for k in dead:
            if k not in keep:
                del s.m[k]

    def join(self, ins, fr):
        """merge incoming (pathcond tuple, state) pairs"""
        if len(ins) == 1:
            return ins[0]
        # merge pairwise, preferring pairs with the longest common prefix
        ins = list(ins)
        while len(ins) > 1:
            best = None
            for i in range(len(ins)):
                for j in range(i + 1, len(ins)):
                    a, b = ins[i][0], ins[j][0]
                    k = 0
                    while k < len(a) and k < len(b) and a[k] is b[k]:
                        k += 1
                    sc = (k, -abs(len(a) - len(b)) - max(len(a), len(b)))
                    if best is None or sc > best[0]:
                        best = (sc, i, j, k)
            _, i, j, k = best
            (pa, sa), (pb, sb) = ins[i], ins[j]
            ca, cb = AND(*pa[k:]), AND(*pb[k:])
            c = OR(ca, cb)
            np = pa[:k] + (() if c is TRUE else (c,))
            ns = self.merge_state(ca, sa, sb)
            ins = [x for q, x in enumerate(ins) if q not in (i, j)] + [(np, ns)]
        return ins[0]

    def merge_state(self, c, sa, sb):
        m = {}
        for k in sa.m:
            if k in sb.m:
                x, y = sa.m[k], sb.m[k]
                m[k] = x if x is y else ITE(c, x, y)
            else:
                if k[0] == 'mem':
                    y = self.mem_init(k[1])
                    m[k] = ITE(c, sa.m[k], y)
                elif k[0] != 'loc':
                    m[k] = sa.m[k]
                else:
                    m[k] = sa.m[k]
        for k in sb.m:
            if k not in sa.m:
                if k[0] == 'mem':
                    m[k] = ITE(c, self.mem_init(k[1]), sb.m[k])
                else:
                    m[k] = sb.m[k]
        return State(m)

    def region(self, fr, cfg, blocks, entry, ins, loop_header, rets, base):
        """evaluate an acyclic region (inner loops collapsed).  `ins` are the entry edges.
        Returns (back edges to loop_header, exit edges {target: [(pc, st)]})."""
        succ, pred, rpo, num, idom, loops, canret, _ = cfg
        pend = {entry: list(ins)}
        back, exits = [], {}
        order = [b for b in rpo if b in blocks]
        # blocks of inner loops are handled by their header
        inner = {}
        for h, bs in loops.items():
            if h != loop_header and h in blocks and bs <= blocks:
                inner[h] = bs
        skip = set()

        def go(frm, to, pc, s):
            if to == loop_header:
                back.append((pc, s))
            elif to not in blocks:
                exits.setdefault(to, []).append((pc, s))
            else:
                pend.setdefault(to, []).append((pc, s))
        for b in order:
            if b in skip:
                continue
            inc = pend.pop(b, None)
            if not inc:
                if b in inner:
                    skip |= inner[b] - {b}
                continue
            pc, s = self.join(inc, fr)
            s = s.copy()
            if b in inner:
                skip |= inner[b]
                ex = self.loop_cfg(fr, cfg, inner[b], b, pc, s, rets, base)
                for to, lst in ex.items():
                    for (p2, s2) in lst:
                        go(b, to, p2, s2)
                continue
            self.block(fr, cfg, b, pc, s, lambda to, p2, s2: go(b, to, p2, s2), rets, base)
        return back, exits

    def block(self, fr, cfg, b, pc, s, go, rets, base):
        self.budget -= 1
        if self.budget < 0:
            raise Undecided('analysis budget exhausted')
        blk = fr.body.blocks[b]
        canret = cfg[6]
        cond = AND(base, *pc)
        for x in blk['s']:
            if x[0] == '=':
                ptr = self.place_ptr(fr, s, x[1])
                v = self.rvalue(fr, s, x[2], None, cond, x[3])
                self.store(s, ptr, v)
            elif x[0] == 'sd':
                ptr = self.place_ptr(fr, s, x[1])
                old = self.load(s, ptr)
                self.store(s, ptr, raw('setd', old, x[2]))
            elif x[0] == 'assume':
                pass
            elif x[0] == 'copy':
                src = self.operand(fr, s, x[1])
                dst = self.operand(fr, s, x[2])
                n = self.operand(fr, s, x[3])
                if isint(n) and n.a[0] == 1:
                    self.store(s, dst, self.load(s, src))
                else:
                    def cut(p):
                        if p.op == 'ref' and p.a[1] and p.a[1][-1][0] == 'i':
                            return raw('ref', p.a[0], p.a[1][:-1] + (('sub', p.a[1][-1][1], n),))
                        return None
                    a, b = cut(src), cut(dst)
                    if a is None or b is None:
                        self.res.unknown.append('copy_nonoverlapping')
                        self.store(s, dst, raw('copied', self.load(s, src), n))
                    else:
                        self.store(s, b, self.load(s, a))
        t = blk['t']
        k = t[0]
        if k == 'goto':
            go(t[1], pc, s)
        elif k == 'return':
            rets.append((pc, s))
        elif k == 'unreachable':
            self.res.unsafe_ops.append((cond, 'unreachable', blk['l']))
        elif k == 'drop':
            self.do_drop(fr, s, t, cond, blk['l'])
            go(t[2], pc, s)
        elif k == 'assert':
            c = self.operand(fr, s, t[1])
            ok = c if t[2] else NOT(c)
            if ok is not TRUE:
                self.res.panics.append((AND(cond, NOT(ok)), t[3], t[5]))
                self.res.facts.append((cond, ok))
            if ok is not FALSE:
                go(t[4], pc, s)
        elif k == 'switch':
            d = self.operand(fr, s, t[1])
            dt = self.prog.types[t[4]]
            live = []
            vals = []
            for v, to in t[2]:
                v = int(v)
                if dt['k'] == 'bool':
                    lit = d if v == 1 else NOT(d)
                else:
                    n = dt.get('n', 'char') if dt['k'] in ('int', 'uint') else 'char'
                    v = wrap(v, n)
                    lit = INSW(d, [v], False)
                vals.append(v)
                live.append((lit, to))
            if dt['k'] == 'bool':
                other = AND(*[NOT(l) for l, _ in live])
            else:
                other = INSW(d, vals, True)
            live.append((other, t[3]))
            # merge same targets
            tg = {}
            for lit, to in live:
                if lit is FALSE:
                    continue
                if fr.body.blocks[to]['t'][0] == 'unreachable' and not fr.body.blocks[to]['s']:
                    # compiler-known impossible arm
                    continue
                tg[to] = OR(tg[to], lit) if to in tg else lit
            items = list(tg.items())
            returning = [(to, l) for to, l in items if to in canret]
            for to, lit in items:
                if lit is UNDEF:
                    self.res.unknown.append('branch on untracked memory in %s' % fr.body.path)
                    lit = TRUE
                if len(returning) == 1 and to in canret:
                    # every other successor diverges: this test is an assertion
                    if lit is not TRUE:
                        self.res.facts.append((cond, lit))
                    if len(items) == 1:
                        go(to, pc, s)
                    else:
                        go(to, pc, s.copy())
                    continue
                go(to, pc + (() if lit is TRUE else (lit,)), s.copy())
        elif k == 'call':
            self.do_call(fr, s, t, pc, cond, go, blk)
        elif k in ('resume', 'abort'):
            pass
        else:
            raise Undecided('terminator ' + k)

    def do_drop(self, fr, s, t, cond, where):
        if t[4]:
            h = self.hooks.get('drop')
            if h:
                h(self, fr, s, t, cond, where)

    def do_call(self, fr, s, t, pc, cond, go, blk):
        f = self.operand(fr, s, t[1])
        args = [self.operand(fr, s, a) for a in t[2]]
        where = t[6]
        dptr = self.place_ptr(fr, s, t[3])
        r = self.call(fr, s, f, args, t[7], t[8], cond, where)
        if r is None:     # diverges
            return
        if isinstance(r, tuple):
            r, s2 = r
            s.m = s2.m
        if t[4] < 0:
            return
        self.store(s, dptr, r)
        go(t[4], pc, s)

    # ------------------------------------------------------------ calls
    def call(self, fr, s, f, args, atys, dty, cond, where):
        """value of the call (state mutated in place), or None if it cannot return"""
        if f.op == 'fn':
            c = self._callees[f.a[0]]
            return self.call_callee(fr, s, c, args, atys, dty, cond, where)
        if f.op == 'ite':
            a = State(dict(s.m))
            b = State(dict(s.m))
            ra = self.call(fr, a, f.a[1], args, atys, dty, AND(cond, f.a[0]), where)
            rb = self.call(fr, b, f.a[2], args, atys, dty, AND(cond, NOT(f.a[0])), where)
            if ra is None and rb is None:
                return None
            if ra is None:
                s.m = b.m
                return rb
            if rb is None:
                s.m = a.m
                return ra
            s.m = self.merge_state(f.a[0], a, b).m
            return ITE(f.a[0], ra, rb)
        return self.opaque_call(fr, s, 'fnptr', [f] + args, dty, cond, where, {})

    def call_callee(self, fr, s, c, args, atys, dty, cond, where):
        if c.get('ctor'):
            ty = self.prog.types[dty] if isinstance(dty, int) else None
            path = ty['p'] if ty is not None and ty['k'] == 'adt' else c['p'] if c['p'] in ADTS else c['p'].rsplit('::', 1)[0]
            if path in ADTS or ty is not None and ty['k'] == 'adt':
                ad = ADTS.get(path)
                vi = 0
                if ad and ad['kind'] == 'enum':
                    nm = c['p'].split('::')[-1]
                    for i, v in enumerate(ad['v']):
                        if v['n'] == nm:
                            vi = i
                return AGG(path, vi, *args)
        h = self.hooks.get('call')
        if h:
            r = h(self, fr, s, c, args, atys, dty, cond, where)
            if r is not NotImplemented:
                return r
        if self.models is not None:
            r = self.models.dispatch(self, fr, s, c, args, atys, dty, cond, where)
            if r is not NotImplemented:
                return r
        # closure calls
        if c.get('tr', '').startswith('core::ops::function::') and args and args[0].op in ('agg', 'ref', 'fn', 'ite'):
            return self.call_value(fr, s, args[0], self.untuple(args[1], atys), dty, cond, where)
        if 'inst' in c and not self.opaque(c):
            b = self.prog.bodies.get(c['inst'])
            if b is not None and self.inlinable(c, b):
                return self.inline(s, b, args, cond, where)
        return self.opaque_call(fr, s, self.callee_name(c), args, dty, cond, where, c, atys)

    def untuple(self, t, atys=None):
        if t.op == 'agg' and t.a[0] == 'tuple':
            return list(t.a[2:])
        ty = self.prog.types[atys[1]] if atys else None
        if ty and ty['k'] == 'tuple':
            return [FIELD(t, None, i) for i in range(len(ty['a']))]
        raise Undecided('closure argument tuple')

    def inlinable(self, c, b):
        if len(self.stack) >= self.max_depth:
            return False
        if sum(1 for x in self.stack if x is b) >= 1:
            return False
        if not b.j['crate'].startswith('numeric') and not self.inline_std:
            return False
        return True

    def inline(self, s, b, args, cond, where):
        self.frame_n += 1
        parent = self.cur_frame_id()
        fid = '%s/%s@%s' % (parent, b.name or 'cl', self.call_site_key(where, b))
        self.frames.append(fid)
        try:
            if b.spread is not None and b.spread > 0:
                pass
            r = self.eval_body(b, args, s.copy(), cond, fid)
        finally:
            self.frames.pop()
        if r is None:
            return None
        v, ns, rc = r
        s.m = ns.m
        return v

    frames = None

    def cur_frame_id(self):
        if self.frames is None:
            self.frames = [self.rootfid]
        return self.frames[-1]

    def call_site_key(self, where, b):
        # deterministic across re-evaluation of a loop body: location + callee identity
        return '%s#%s' % (where.split('/')[-1], b.id)

    def call_value(self, fr, s, f, args, dty, cond, where):
        """call a closure / fn item value (possibly behind references) with unpacked arguments"""
        envptr = None
        depth = 0
        while f.op == 'ref' and depth < 6:
            envptr = f
            f = self.load(s, f)
            depth += 1
        if f.op == 'ite':
            a, b = State(dict(s.m)), State(dict(s.m))
            ra = self.call_value(fr, a, f.a[1], args, dty, AND(cond, f.a[0]), where)
            rb = self.call_value(fr, b, f.a[2], args, dty, AND(cond, NOT(f.a[0])), where)
            if ra is None:
                s.m = b.m
                return rb
            if rb is None:
                s.m = a.m
                return ra
            s.m = self.merge_state(f.a[0], a, b).m
            return ITE(f.a[0], ra, rb)
        if f.op == 'fn':
            c = self._callees[f.a[0]]
            return self.call_callee(fr, s, c, args, [], dty, cond, where)
        if f.op == 'agg' and f.a[0] == 'closure':
            cb = f.a[-1]
            b = self.prog.bodies.get(cb.a[0])
            if b is None:
                raise Undecided('closure body')
            if sum(1 for x in self.stack if x is b) >= 1 or len(self.stack) >= self.max_depth + 4:
                return self.opaque_call(fr, s, 'closure:' + cb.a[1], args, dty, cond, where, {})
            # receiver: by reference or by value
            t1 = b.local_ty(1)
            if t1['k'] == 'ref':
                if envptr is None:
                    root = ('env', self.cur_frame_id(), self.call_site_key(where, b))
                    s.m[root] = f
                    envptr = raw('ref', root, ())
                a0 = envptr
            else:
                a0 = f
            return self.inline(s, b, [a0] + list(args), cond, where)
        if f.op == 'zst' or f.op == 'sym':
            pass
        target = envptr if envptr is not None else f
        return self.opaque_call(fr, s, 'callback', [f] + list(args), dty, cond, where, {})

    def callee_name(self, c):
        p = c['p']
        return p

    def selfty(self, c):
        if c['a'] and isinstance(c['a'][0], int):
            return self.prog.types[c['a'][0]]['s']
        return ''

    def opaque_call(self, fr, s, name, args, dty, cond, where, c, atys=()):
        ty = self.prog.types[dty] if isinstance(dty, int) else None
        if ty is not None and ty['k'] == 'never':
            self.res.panics.append((cond, 'panic:' + name.split('::')[-1], where))
            return None
        vals = []
        muts = []
        for a in args:
            vals.append(self.reify(s, a))
        sig = self.argsig(c['a']) if c else ''
        t = raw('call', name, raw('targs', sig), *vals)
        if ty is not None and ty['k'] in ('int', 'uint', 'bool'):
            t = raw('tcall', self.scalar_name(dty), t)
        self.res.calls.append((name, c, args, vals, cond, where))
        # havoc objects behind mutable references
        for i, a in enumerate(args):
            if i < len(atys):
                at = self.prog.types[atys[i]]
                if at['k'] in ('ref', 'ptr') and at['m']:
                    self.store(s, a, raw('out', t, i))
        return t

    def reify(self, s, a):
        """argument as a pure value: references to known objects become their contents"""
        if a.op == 'ref':
            v = self.load(s, a)
            d = 0
            while v.op == 'ref' and d < 4:
                v = self.load(s, v)
                d += 1
            return v
        if a.op == 'agg' and any(isinstance(x, T) and x.op in ('ref', 'agg') for x in a.a[2:]):
            return raw('agg', a.a[0], a.a[1], *[self.reify(s, x) if isinstance(x, T) else x for x in a.a[2:]])
        if a.op == 'sym' and isinstance(a.a[1], str) and a.a[1].startswith('&'):
            return self.load(s, a)
        return a

    # ------------------------------------------------------------ loops
    def loop_cfg(self, fr, cfg, blocks, h, pc, s, rets, base):
        lid = '%s:%d' % (fr.id, h)

        def body(hst):
            r2 = []
            back, exits = self.region(fr, cfg, blocks, h, [((), hst)], h, r2, AND(base, *pc))
            # region() treats edges to the header as back edges; the entry itself starts at h
            ex = []
            for to, lst in exits.items():
                for (p2, s2) in lst:
                    ex.append((to, p2, s2))
            for (p2, s2) in r2:
                ex.append(('ret', p2, s2))
            return back, ex
        ex = self.fix(lid, s, body, fr.body.where())
        out = {}
        n = len(ex)
        for i, (to, ec, es) in enumerate(ex):
            lit = () if n == 1 else (INSW(raw('exitsel', lid), [i], False),)
            if n > 1:
                set_domain(raw('exitsel', lid), list(range(n)))
                lit = (INSW(raw('exitsel', lid), [i], False),)
            if to == 'ret':
                rets.append((pc + lit, es))
            else:
                out.setdefault(to, []).append((pc + lit, es))
        return out

    def fix(self, lid, s0, body, where):
        """carried-leaf fixpoint.  body(header_state) -> (back edges, exits)"""
        H = {}
        nolen = set()
        saved = (len(self.res.panics), len(self.res.calls), len(self.res.facts), len(self.res.unsafe_ops), len(self.res.unknown))
        for it in range(40):
            for lst, n in zip((self.res.panics, self.res.calls, self.res.facts, self.res.unsafe_ops, self.res.unknown), saved):
                del lst[n:]
            hs = s0.copy()
            phis = {}
            for (root, path), ty in H.items():
                ph = raw('phi', lid, self.keyname(root, path), ty)
                init = self.read_path(self.root_val(s0, root), path)
                LENS.pop(ph, None)
                if isseq(init) and ph not in nolen:
                    LENS[ph] = LEN(init)
                    LENS[raw('fin', lid, ph.a[1], ty)] = LEN(init)
                hs.m[root] = self.write_path(hs.m[root], path, ph)
                phis[(root, path)] = (ph, init)
            hcopy = hs.copy()
            back, exits = body(hs)
            if not back:
                # never iterates: treat as straight-line
                new = {}
            else:
                bpc, bs = self.join([(p, s) for p, s in back], None)
                new = {}
                for root in s0.m:
                    if root in bs.m and root in hcopy.m:
                        self.diff(hcopy.m[root], bs.m[root], root, (), new)
                # objects first seen inside the loop whose contents change there
                for root in bs.m:
                    if root not in s0.m and root[0] == 'mem':
                        init = self.mem_init(root[1])
                        if any(x.op == 'phi' and x.a[0] == lid for x in subterms(root[1])):
                            continue
                        if bs.m[root] is not init:
                            s0.m[root] = init
                            new[(root, ())] = tyof(init) or (isseq(init) and elemty(init) and '[%s]' % elemty(init)) or None
            added = False
            for k, ty in new.items():
                if k not in H:
                    # a coarser leaf swallows finer ones
                    for k2 in list(H):
                        if k2[0] == k[0] and k2[1][:len(k[1])] == k[1]:
                            del H[k2]
                    if not any(k2[0] == k[0] and k[1][:len(k2[1])] == k2[1] for k2 in H):
                        H[k] = ty
                        added = True
            if not added and back:
                for (root, path), (ph, init) in phis.items():
                    if ph in LENS and LEN(self.read_path(bs.m.get(root, UNDEF), path)) is not LEN(init):
                        nolen.add(ph)
                        LENS.pop(raw('fin', lid, ph.a[1], ph.a[2]), None)
                        added = True
            if not added:
                break
        else:
            raise Undecided('loop fixpoint')
        L = Loop(lid)
        L.where = where
        if back:
            for key, (ph, init) in phis.items():
                root, path = key
                step = self.read_path(bs.m.get(root, UNDEF), path)
                L.phis[ph.a[1]] = (ph, init, step)
            L.body_cond = AND(*bpc)
        out = []
        memo = {}

        def f(x):
            if x.op == 'phi' and x.a[0] == lid:
                return raw('fin', lid, x.a[1], x.a[2])
            if x.op == 'ref':
                return raw('ref', self.subst_root(x.a[0], f, memo), tuple(tuple(subst(y, f, memo) if isinstance(y, T) else y for y in p) for p in x.a[1]))
            return None
        for (to, p2, s2) in exits:
            ec = AND(*p2)
            L.exits.append((ec, subst(ec, f, memo), to))
            ns = State()
            for k, v in s2.m.items():
                k2 = k
                if k[0] == 'mem':
                    k2 = ('mem', subst(k[1], f, memo))
                ns.m[k2] = subst(v, f, memo)
            out.append((to, ec, ns))
        # panic / call conditions inside the body are kept over phis (meaning: in some iteration)
        self.loops[lid] = L
        return out

    def subst_root(self, r, f, memo):
        if r[0] == 'mem' or r[0] == 'static':
            return (r[0], subst(r[1], f, memo))
        return r

    def keyname(self, root, path):
        def one(x):
            return show(x, 6) if isinstance(x, T) else str(x)
        if root[0] == 'loc':
            b = None
            r = '%s_%d' % (root[1].split('/')[-1][-24:], root[2])
        elif root[0] == 'mem':
            r = '*' + show(root[1], 6)
        else:
            r = ':'.join(one(x) for x in root)
        return r + ''.join('.' + '/'.join(one(y) for y in p) for p in path)

    def diff(self, a, b, root, path, out):
        if a is b:
            return
        if a.op == 'agg' and b.op == 'agg' and a.a[:2] == b.a[:2] and len(a.a) == len(b.a):
            ad = ADTS.get(a.a[0])
            pre = (('v', a.a[1]),) if ad and ad['kind'] == 'enum' else ()
            for i, (x, y) in enumerate(zip(a.a[2:], b.a[2:])):
                self.diff(x, y, root, path + pre + (('f', i),), out)
            return
        if b is UNDEF:
            return
        ty = tyof(a) or tyof(b)
        if ty is None and isseq(a) and elemty(a):
            ty = '[%s]' % elemty(a)
        out[(root, path)] = ty


class Frame:
    __slots__ = ('id', 'body')

    def __init__(self, fid, body):
        self.id = fid
        self.body = body
