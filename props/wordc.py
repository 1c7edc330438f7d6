"""The one-word representation of the arbitrary-precision integer, read off the code.

What a word means is taken from the functions that look at it: whether it holds the number itself (inline), its sign, the inline number
and the identifier under which the limbs are kept otherwise.  Everything else is compared with that reading, bit by bit."""
import itertools
from .bigc import *
from sa import bits
from sa.bits import No

STORED, ADDED = 'stored', 'added'
IID = 'numeric_utils::intern::InternId'


class IBdd(bits.Bdd):
    def __init__(self):
        super().__init__()
        self.words, self.conds, self.back = {}, {}, {}

    def v(self, key):
        if isinstance(key, tuple) and len(key) == 2 and isinstance(key[1], int) and key[0] != 'c':
            i = key[1] * 4096 + self.words.setdefault(key[0], len(self.words))
        else:
            i = -1000000 + self.conds.setdefault(key, len(self.conds))
        self.back[i] = key
        return self.mk(i, 0, 1)

    def sat(self, f):
        out = {}
        while f > 1:
            i, lo, hi = self.n[f]
            if lo != 0:
                out[self.back[i]] = 0
                f = lo
            else:
                out[self.back[i]] = 1
                f = hi
        return out if f == 1 else None


class Low(bits.Words):
    def __init__(self):
        super().__init__({})
        self.B = IBdd()
        self.names = {}

    def _w(self, t, n):
        o = t.op
        if o in ('int', 'shl', 'shr', 'band', 'bor', 'bxor', 'bnot', 'add', 'sub', 'cast', 'ite') and not (o == 'sub' and isinstance(t.a[0], T)):
            if o == 'cast' and not (t.a[0] in WIDTH and t.a[1] in WIDTH or t.a[0] == 'bool'):
                raise No('cast')
            return super()._w(t, n)
        if o in ('mul', 'div', 'rem') and isint(t.a[2]) and t.a[2].a[0] and not t.a[2].a[0] & (t.a[2].a[0] - 1) and t.a[0] in UINTS:
            k = t.a[2].a[0].bit_length() - 1
            x = self.w(t.a[1], t.a[0])
            return [0] * k + x[:len(x) - k] if o == 'mul' else x[k:] + [0] * k if o == 'div' else x[:k] + [0] * (len(x) - k)
        ty = tyof(t)
        ty = ty if ty in WIDTH else n if n in WIDTH else 'usize'
        if o in ('phi', 'fin', 'undef', 'exitsel'):
            raise No('loop state')
        self.names[t.id] = t
        return [self.B.v((t.id, i)) for i in range(WIDTH[ty])]

    def b(self, c):
        B, o = self.B, c.op
        if o == 'insw':
            r = 0
            for v in c.a[1]:
                e = 1
                x = self.w(c.a[0], None)
                for p, q in zip(x, self.const(v % (1 << len(x)), len(x))):
                    e = B.AND(e, B.NOT(B.XOR(p, q)))
                r = B.OR(r, e)
            return B.NOT(r) if c.a[2] else r
        if o == 'eq':
            x, y = c.a
            for u, v in ((x, y), (y, x)):
                if u.op == 'ite':
                    return B.ite(self.b(u.a[0]), self.b(EQ(u.a[1], v)), self.b(EQ(u.a[2], v)))
            if x.op == 'agg' and y.op == 'agg':
                if x.a[:2] != y.a[:2]:
                    return 0
                r = 1
                for p, q in zip(x.a[2:], y.a[2:]):
                    r = B.AND(r, self.b(EQ(p, q)))
                return r
            if x.op == 'tuple' and y.op == 'tuple':
                r = 1
                for p, q in zip(x.a, y.a):
                    r = B.AND(r, self.b(EQ(p, q)))
                return r
            ty = next((t for t in (tyof(x), tyof(y)) if t in WIDTH), None)
            if ty is not None:
                r = 1
                for p, q in zip(self.w(x, ty), self.w(y, ty)):
                    r = B.AND(r, B.NOT(B.XOR(p, q)))
                return r
            if tyof(x) != 'bool':
                self.names[('c', c.id)] = c
                return B.v(('c', c.id))
        if o == 'lt':
            ty = next((t for t in (tyof(c.a[0]), tyof(c.a[1])) if t in WIDTH), None)
            if ty is None or ty in SINTS:
                return B.v(('c', c.id))
            r = 0
            for x, y in zip(self.w(c.a[0], ty), self.w(c.a[1], ty)):
                r = B.ite(B.XOR(x, y), y, r)
            return r
        if o in ('phi', 'fin'):
            raise No('loop state')
        if o in ('true', 'false', 'bool', 'not', 'and', 'or', 'ite', 'eq') or c in (TRUE, FALSE):
            return super().b(c)
        self.names[('c', c.id)] = c
        return B.v(('c', c.id))

    def model(self, f):
        m = self.B.sat(f)
        if m is None:
            return None
        out = {}
        for k, v in m.items():
            if isinstance(k, tuple) and k[0] == 'c':
                t = self.names.get(k)
                out[show(t, 4)[:60] if t is not None else str(k)] = bool(v)
            else:
                t = self.names.get(k[0])
                n = show(t, 4)[:60] if t is not None else str(k[0])
                out[n] = out.get(n, 0) | v << k[1]
        return {k: hex(v) if not isinstance(v, bool) else v for k, v in out.items()}


def plain(t, extra=()):
    if t in extra:
        return True
    if t.op == 'tcall' and isinstance(t.a[1], T) and t.a[1].op == 'samelimbs':
        return True
    return all(x.op in ('sym', 'fld', 'load') for x in subterms(t))


def valid(c, pre=TRUE, extra=()):
    """(HOLD | VIOLATED | UNDECIDED, witness) for: pre implies c, for every value of the words in it"""
    try:
        return valid1(c, pre, extra)
    except (No, RecursionError, KeyError) as e:
        why = str(e)[:120]
    # amounts that depend on a flag: once for each of its values
    fl = [x for x in subterms(c) | subterms(pre) if x.op == 'sym' and tyof(x) == 'bool']
    try:
        if len(fl) > 3:
            raise No(why)
        for vs in itertools.product((TRUE, FALSE), repeat=len(fl)):
            m = dict(zip(fl, vs))
            v, w = valid1(subst(c, m.get), subst(pre, m.get), tuple(subst(x, m.get) for x in extra))
            if v == VIOLATED:
                w = dict(w, **{show(k, 1): x is TRUE for k, x in m.items()})
            if v != HOLD:
                return v, w
        return (HOLD, None) if fl else (UNDECIDED, why)
    except (No, RecursionError, KeyError) as e:
        return UNDECIDED, str(e)[:120]


def valid1(c, pre, extra):
    L = Low()
    f = L.B.AND(L.b(pre), L.B.NOT(L.b(c)))
    if f == 0:
        return HOLD, None
    odd = [t for t in L.names.values() if not plain(t, extra)]
    if odd:
        return UNDECIDED, 'depends on %s' % show(odd[0], 5)[:100]
    return VIOLATED, L.model(f)


def weq(a, b):
    """equality of two machine words as a condition (kept bitwise)"""
    return EQ(a, b)


def IFF(a, b):
    return OR(AND(a, b), AND(NOT(a), NOT(b)))


class Store:
    """call hook: the interner as an abstract store; records what is asked of it"""

    def __init__(self, prog, more=None):
        self.prog, self.more = prog, more
        self.events = []          # (kind, id term, condition, where)
        self.slices = []          # contents handed to an unknown function
        self.shrunk = []

    def tys(self, t):
        return self.prog.tys(t) if isinstance(t, int) else t.get('s', '?') if isinstance(t, dict) else str(t)

    def idof(self, x):
        return FIELD(x, 0, 0)

    def drop(self, eng, fr, s, t, cond, where):
        ty = self.tys(t[3])
        if BI not in ty:
            return
        try:
            v = eng.load(s, eng.place_ptr(fr, s, t[1]))
        except Exception:
            v = None
        self.events.append(('drop', v, cond, where, ty))

    def hook(self, eng, fr, s, c, args, atys, dty, cond, where):
        n, p, tr = c.get('n', ''), c.get('p', ''), str(c.get('tr', ''))
        if self.more is not None:
            r = self.more(eng, fr, s, c, args, atys, dty, cond, where)
            if r is not NotImplemented:
                return r
        if p.startswith('numeric_utils::intern::Interner'):
            if n in ('get', 'try_get'):
                r = raw('tcall', '&alloc::boxed::Box<[usize]>', raw(STORED, self.idof(args[1])))
                self.events.append(('get', self.idof(args[1]), cond, where))
                return r if n == 'get' else AGG(OPT, 1, r)
            if n == 'add':
                r = raw('tcall', IID, raw(ADDED, args[1], mkint(len(self.events))))
                self.events.append(('add', self.idof(r), cond, where, args[1]))
                return r
            if n in ('incr', 'decr'):
                self.events.append((n, self.idof(args[1]), cond, where))
                return UNIT
        ts = [self.tys(t) for t in atys]
        if n in ('eq', 'ne') and tr.endswith('PartialEq') and len(args) == 2 and all('[usize]' in t for t in ts):
            r = self.seqeq(self.content(eng, s, args[0]), self.content(eng, s, args[1]))
            return r if n == 'eq' else NOT(r)
        if n in ('call_once', 'call_mut', 'call') and len(args) == 2 and args[0].op in ('sym', 'load'):
            a = args[1]
            xs = a.a if a.op == 'tuple' else a.a[2:] if a.op == 'agg' else [a]
            self.slices.append([self.content(eng, s, x) for x in xs])
        return NotImplemented

    def content(self, eng, s, a):
        for _ in range(4):
            if a.op == 'ite':
                return ITE(a.a[0], self.content(eng, s, a.a[1]), self.content(eng, s, a.a[2]))
            q = self.leaf(a)
            if q is not None:
                return q
            if a.op == 'ptrcast' and a.a[0] == '*const usize' and a.a[1] == '*const [usize; 1]':
                try:
                    a = eng.load(s, a.a[2])
                    continue
                except Exception:
                    break
            if a.op == 'ref' or a.op in ('ptrcast', 'fld') or tstr(a).startswith('&'):
                try:
                    a = eng.load(s, a)
                except Exception:
                    break
            else:
                break
        q = self.leaf(a)
        return q if q is not None else a

    def leaf(self, a):
        """a one-limb slice or the limbs kept under an identifier"""
        st = [x for x in subterms(a) if x.op == STORED]
        if len(st) == 1 and a.op != 'ite' and not any(x.op in ('ite', 'sel', 'sub') for x in subterms(a) if STORED in str([y.op for y in subterms(x)]) and x is not a):
            return raw('limbsof', st[0].a[0])
        if a.op == 'arr' and len(a.a) == 1:
            return raw('onelimb', a.a[0])
        if tyof(a) == 'usize' and a.op != 'ref':
            return raw('onelimb', a)
        return None

    def seqeq(self, x, y):
        if x.op == 'ite':
            return ITE(x.a[0], self.seqeq(x.a[1], y), self.seqeq(x.a[2], y))
        if y.op == 'ite':
            return ITE(y.a[0], self.seqeq(x, y.a[1]), self.seqeq(x, y.a[2]))
        if x.op == 'onelimb' and y.op == 'onelimb':
            return EQ(x.a[0], y.a[0])
        if x.op == 'limbsof' and y.op == 'limbsof':
            k = tuple(sorted((x.a[0], y.a[0]), key=lambda t: t.id))
            return OR(EQ(x.a[0], y.a[0]), raw('tcall', 'bool', raw('samelimbs', *k)))
        if {x.op, y.op} == {'onelimb', 'limbsof'}:
            return FALSE       # what fits a word is never kept outside it
        return raw('tcall', 'bool', raw('seqeq', x, y))


def word(t):
    """the word of an integer term"""
    return FIELD(FIELD(t, 0, 0), 0, 0)


class Reading:
    """inline / negative / number / identifier of a word, from the code"""

    def __init__(self, prog, rep, rule):
        self.prog, self.ok, self.why = prog, False, ''
        self.w = sym('word', 'usize')
        g = self.find
        try:
            inl = g('BigInt::is_inline')
            neg = g('is_negative', 'Signed')
            self._inl = self.value(inl)
            self._neg = self.value(neg)
            b = g('BigInt::with_slice')
            S = Store(prog)
            r, err = analyse(prog, b, hooks={'call': S.hook})
            if r is None or len(S.slices) != 1 or len(S.slices[0]) != 1:
                raise No('with_slice: %s' % (err or 'no single call'))
            rep.saw(b.path)
            self.ws = b
            w0 = word(params(prog, b, r)[0])
            c = subst(S.slices[0][0], lambda x: self.w if x is w0 else None)
            self.content = c
            self.gets = [(subst(e[1], lambda x: self.w if x is w0 else None), subst(e[2], lambda x: self.w if x is w0 else None)) for e in S.events]
            cs = leaves(c)
            one = [(k, x) for k, x in cs if x.op == 'onelimb']
            far = [(k, x) for k, x in cs if x.op == 'limbsof']
            if len(one) != 1 or len(far) != 1 or len(cs) != 2:
                raise No('what with_slice passes on: %s' % [x.op for _, x in cs])
            self._off, self._id = one[0][1].a[0], far[0][1].a[0]
            self.incond = one[0][0]
            self.ok = True
        except (No, LookupError) as e:
            self.why = str(e)[:200]

    def find(self, name, trait=None):
        for b in self.prog.roots:
            if '::tests::' in b.path:
                continue
            if trait is None and b.path == 'numeric_ints::big_int::' + name:
                return b
            if trait is not None and b.name == name and (b.j.get('itrait') or '').split('<')[0].endswith('::' + trait) and targs(self.prog, b)[:1] == [BI]:
                return b
        raise LookupError('no %s' % name)

    def value(self, b):
        r, err = analyse(self.prog, b)
        if r is None:
            raise No('%s: %s' % (b.name, err))
        w0 = word(params(self.prog, b, r)[0])
        t = subst(r.ret, lambda x: self.w if x is w0 else None)
        return t

    def at(self, t, w):
        return subst(t, lambda x: w if x is self.w else None)

    def inl(self, w):
        return self.at(self._inl, w)

    def neg(self, w):
        return self.at(self._neg, w)

    def off(self, w):
        return self.at(self._off, w)

    def id(self, w):
        return self.at(self._id, w)

    def canon(self, w):
        """no negative zero"""
        return NOT(AND(self.inl(w), EQ(self.off(w), mkint(0)), self.neg(w)))


def leaves(t, c=TRUE):
    if t.op == 'ite':
        return leaves(t.a[1], AND(c, t.a[0])) + leaves(t.a[2], AND(c, NOT(t.a[0])))
    return [(c, t)]
