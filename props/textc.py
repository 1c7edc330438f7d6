"""Text written to a formatter, and text read: calls of the formatting and string interfaces are given their meaning over sequences of characters."""
from .common import *
from .bigc import *
from sa.conc import Run
from sa.decide import NoEval

UN = 'numeric_ints::u::U<N>'
OKU = AGG(RES, 0, UNIT)


def CH(c):
    return mkint(ord(c), 'char')


def NUMERAL(x, ty):
    """decimal numeral of a machine integer, as one chunk"""
    return raw('tcall', 'chunk', raw('numeral', x, ty))


class TextAbs(Abs):
    """adds text to the meaning of calls on integers"""

    def isbig(self, ty):
        t = ty.replace('&', '').replace("'_ ", '').replace('mut ', '').strip()
        return t in (BI, UN)

    # ---- writers
    def place(self, eng, s, a):
        for _ in range(4):
            v = eng.load(s, a)
            if v.op == 'ref':
                a = v
            else:
                return a, v
        return None, None

    def emit(self, eng, s, w, chunks):
        a, v = self.place(eng, s, w)
        if a is None:
            return False
        for x in chunks:
            v = raw('push', v, x)
        eng.store(s, a, v)
        return True

    def content(self, eng, s, a):
        for _ in range(4):
            if a.op == 'ref':
                a = eng.load(s, a)
            else:
                break
        return a

    def chunks(self, eng, s, t):
        """characters of a formatted text"""
        t = self.content(eng, s, t)
        if t.op == 'str':
            return [CH(c) for c in t.a[0]]
        if t.op == 'agg' and t.a[0] == 'text:args':
            return list(t.a[2:])
        return None

    def piece(self, eng, s, kind, a, ty):
        a = self.content(eng, s, a)
        t = ty.replace('&', '').replace('mut ', '').strip()
        if kind == 'new_display':
            if t == 'char':
                return [a]
            if t in PRIMS:
                return [NUMERAL(a, t)]
            if t == 'str':
                return self.chunks(eng, s, a)
        return None

    def arguments(self, eng, s, tmpl, args):
        tmpl, args = self.content(eng, s, tmpl), self.content(eng, s, args)
        if tmpl.op != 'arr' or args.op != 'arr' or not all(isint(x) for x in tmpl.a):
            return None
        bs = [x.a[0] for x in tmpl.a]
        out, i, k = [], 0, 0
        while i < len(bs) and bs[i]:
            b = bs[i]
            i += 1
            if b < 128:
                out += [CH(c) for c in bytes(bs[i:i + b]).decode('utf-8', 'replace')]
                i += b
            elif b == 0xC0:
                if k >= len(args.a) or args.a[k].op != 'agg' or args.a[k].a[0] != 'text:arg':
                    return None
                out += args.a[k].a[2:]
                k += 1
            else:
                return None
        return out

    def hook(self, eng, fr, s, c, args, atys, dty, cond, where):
        n, tr, p = c.get('n', ''), str(c.get('tr', '')), c.get('p', '')
        ts = [self.tys(t) for t in atys]
        short = tr.rsplit('::', 1)[-1]
        if p.startswith('core::fmt::Arguments::') and n in ('from_str', 'new_const'):
            x = self.chunks(eng, s, args[0])
            if x is not None:
                return AGG('text:args', 0, *x)
        if p.startswith('core::fmt::Arguments::') and n == 'new' and len(args) == 2:
            x = self.arguments(eng, s, args[0], args[1])
            if x is not None:
                return AGG('text:args', 0, *x)
        if p.startswith('core::fmt::rt::Argument') and n.startswith('new_'):
            x = self.piece(eng, s, n, args[0], ts[0])
            if x is not None:
                return AGG('text:arg', 0, *x)
        if n in ('write_char', 'write_str', 'write_fmt') and (short == 'Write' or p.startswith('core::fmt::Formatter')):
            x = [args[1]] if n == 'write_char' else self.chunks(eng, s, args[1])
            if x is not None and self.emit(eng, s, args[0], x):
                return OKU
        # ---- text that is read
        if p.startswith('core::str::<impl str>::'):
            v = self.content(eng, s, args[0])
            q = chars_of(eng, s, v)
            if q is not None:
                one = lambda: AND(LT(mkint(0), LEN(q)), EQ(SEL(q, mkint(0)), args[1]))
                rest = lambda: eng.const_ref(eng.mksub(q, mkint(1), BIN('sub', 'usize', LEN(q), mkint(1))))
                if n == 'strip_prefix' and ts[1] == 'char':
                    return ITE(one(), AGG(OPT, 1, rest()), AGG(OPT, 0))
                if n == 'starts_with' and ts[1] == 'char':
                    return one()
                if n == 'is_empty':
                    return EQ(LEN(q), mkint(0))
                if n == 'chars':
                    return AGG('it:seq', 0, q, mkint(0), LEN(q))
        if p.startswith('core::char::methods::'):
            x = self.content(eng, s, args[0])
            isl = lambda lo, hi: AND(NOT(LT(x, CH(lo))), NOT(LT(CH(hi), x)))
            sh = lambda k: CAST('u32', 'char', BIN('add' if k > 0 else 'sub', 'u32', CAST('char', 'u32', x), mkint(abs(k), 'u32')))
            if n == 'to_ascii_lowercase':
                return raw('tcall', 'char', raw('lower', x))
            if n in ('to_lowercase', 'to_uppercase') and 'ascii' not in n:
                # nearly every character has a single counterpart; the others are left out of the evaluation
                return AGG('it:once', 0, raw('tcall', 'char', raw('ulower' if n == 'to_lowercase' else 'uupper', x)), TRUE)
            if n == 'to_ascii_uppercase':
                return raw('tcall', 'char', raw('upper', x))
            if n == 'eq_ignore_ascii_case':
                return EQ(raw('tcall', 'char', raw('lower', x)), raw('tcall', 'char', raw('lower', self.content(eng, s, args[1]))))
            if n == 'to_digit':
                return raw('tcall', 'core::option::Option<u32>', raw('todigit', x, args[1]))
            if n in ('is_ascii_digit', 'is_ascii_uppercase', 'is_ascii_lowercase'):
                return isl(*{'is_ascii_digit': '09', 'is_ascii_uppercase': 'AZ', 'is_ascii_lowercase': 'az'}[n])
        if short in ('FromChecked', 'IntoChecked') and n in ('from_checked', 'into_checked') and self.tys(dty) == 'core::option::Option<%s>' % UN and ts[0] in PRIMS:
            # the radix is below 256 and fits every width of at least one byte
            return AGG(OPT, 1, BIGZ(INT(args[0], ts[0])))
        return super().hook(eng, fr, s, c, args, atys, dty, cond, where)


def chars_of(eng, s, v):
    for _ in range(4):
        if v.op == 'ref':
            v = eng.load(s, v)
    if v.op == 'ite':
        a, b = chars_of(eng, s, v.a[1]), chars_of(eng, s, v.a[2])
        return ITE(v.a[0], a, b)
    if v.op == 'str':
        return raw('arr', *[CH(c) for c in v.a[0]])
    return v if isseq(v) else TEXT(v)


def TEXT(v):
    return sym('#text%d' % v.id, '[char]')


class TextRun(Run):
    """concrete values; big integers are ('big', n)"""

    def z(self, t):
        o = t.a[0]
        if o == 'k':
            return t.a[1]
        if o == 'ite':
            return self.z(t.a[2] if self.b(t.a[1]) else t.a[3])
        if o == 'val':
            v = self.ev(t.a[1])
            if not (isinstance(v, tuple) and v[0] == 'big'):
                raise NoEval('value')
            return v[1]
        if o == 'int':
            v = self.i(t.a[1], t.a[2])
            if not isinstance(v, int):
                raise NoEval('int')
            v %= 1 << WIDTH[t.a[2]]
            return v - (1 << WIDTH[t.a[2]]) if t.a[2] in SINTS and v > PRIMS[t.a[2]][1] else v
        if o == 'limbs':
            return sum(self.i(x, 'usize') << 64 * k for k, x in enumerate(t.a[1:]))
        if o == 'negate':
            return -self.z(t.a[1])
        if o == 'abs':
            return abs(self.z(t.a[1]))
        if o == 'wrap':
            v = self.z(t.a[1]) % (1 << WIDTH[t.a[2]])
            return v - (1 << WIDTH[t.a[2]]) if t.a[2] in SINTS and v > PRIMS[t.a[2]][1] else v
        a, b = self.z(t.a[1]), self.z(t.a[2])
        if o in ('add', 'sub', 'mul'):
            return a + b if o == 'add' else a - b if o == 'sub' else a * b
        if o in ('quo', 'tdiv', 'rem', 'trem'):
            if b == 0:
                raise NoEval('division by zero')
            q = abs(a) // abs(b)
            q = -q if (a < 0) != (b < 0) else q
            return q if o in ('quo', 'tdiv') else a - q * b
        if o in ('shl', 'shr') and 0 <= b < 2000:
            m = abs(a) << b if o == 'shl' else abs(a) >> b
            return -m if a < 0 else m
        if o == 'pow' and 0 <= b < 300:
            return a ** b
        raise NoEval(o)

    def _ev(self, t):
        if t.op == 'load' and len(t.a) and isinstance(t.a[0], T) and isseqz(t.a[0]):
            return self.ev(t.a[0])
        if t.op == 'tcall' and isinstance(t.a[1], T):
            x = t.a[1]
            if x.op == 'zbig':
                return ('big', self.z(x.a[0]))
            if x.op == 'zlt':
                return self.z(x.a[0]) < self.z(x.a[1])
            if x.op == 'zeq':
                return self.z(x.a[0]) == self.z(x.a[1])
            if x.op == 'zconv':
                return self.z(x.a[0]) % (1 << WIDTH[t.a[0]])
            if x.op == 'zseq':
                if not x.a[1]:
                    raise NoEval('length')
                v = self.z(x.a[0])
                return ('arr',) + tuple(v >> 64 * i & (1 << 64) - 1 for i in range(max(1, (v.bit_length() + 63) // 64)))
            if x.op == 'zinl':
                v = self.z(x.a[0])
                if 2 <= v < 1 << 64:
                    raise NoEval('inline')
                return v < 2
            if x.op == 'numeral':
                v = self.i(x.a[0], x.a[1])
                return ('numeral', v - (1 << WIDTH[x.a[1]]) if x.a[1] in SINTS and v > PRIMS[x.a[1]][1] else v)
            if x.op == 'lower':
                v = self.ev(x.a[0])
                return v + 32 if 65 <= v <= 90 else v
            if x.op == 'upper':
                v = self.ev(x.a[0])
                return v - 32 if 97 <= v <= 122 else v
            if x.op in ('ulower', 'uupper'):
                v = self.ev(x.a[0])
                v = chr(v).lower() if x.op == 'ulower' else chr(v).upper()
                if len(v) != 1:
                    raise NoEval('case')
                return ord(v)
            if x.op == 'todigit':
                v, r = self.ev(x.a[0]), self.i(x.a[1], 'u32')
                d = digit_value(v)
                if d is not None and d < r:
                    return ('agg', OPT, 1, d)
                return ('agg', OPT, 0)
        return super()._ev(t)

    def text(self, t):
        v = self.ev(t)
        if not (isinstance(v, tuple) and v[0] == 'arr'):
            raise NoEval('text')
        out = ''
        for x in v[1:]:
            if isinstance(x, int) and not isinstance(x, bool):
                out += chr(x)
            elif isinstance(x, tuple) and x[0] == 'numeral':
                out += str(x[1])
            else:
                raise NoEval('chunk')
        return out


def digit_value(c):
    if 48 <= c <= 57:
        return c - 48
    if 97 <= c <= 122:
        return c - 87
    if 65 <= c <= 90:
        return c - 55
    return None
