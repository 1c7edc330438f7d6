"""P24 - what is printed denotes the integer, and what is read is the integer denoted."""
import os
import random
import time
import re
from .textc import *
from .p15 import nice
from sa.loops import Spec, compare, IT, LoopView

RULE = ('A formatter is read as the sequence of characters written so far, a string as a sequence of characters. Printing: the digits are the remainders of the magnitude by '
        'the radix, the magnitude being divided until nothing is left; they are written from the last one back through the table of the radix, after sign and prefix. '
        'Reading: from the first character on, the value is multiplied by the radix and the digit added, a digit being the first place of the character in the table.')

DEC, HEXU, HEXL = '0123456789', '0123456789ABCDEF', '0123456789abcdef'
ALNUM = '0123456789abcdefghijklmnopqrstuvwxyz'
KINDS = {'Display': (10, '', DEC), 'Debug': (10, '', DEC), 'UpperHex': (16, '0x', HEXU), 'LowerHex': (16, '0x', HEXL), 'Binary': (2, '0b', '01')}


def numeral(n, base, digits):
    out = ''
    while n:
        out = digits[n % base] + out
        n //= base
    return out or '0'


def required(kind, v):
    base, pre, digits = KINDS[kind]
    s = numeral(abs(v), base, digits)
    if kind == 'Binary':
        s = s.rjust(max(1, (abs(v).bit_length() + 63) // 64) * 64, '0')
    return ('-' if v < 0 else '') + pre + s


def denotes(kind, got, v):
    """the text denotes the value (binary numerals may have leading zeros)"""
    want = required(kind, v)
    if kind != 'Binary':
        return got == want
    m = re.match(r'(-?)0b([01]+)$', got)
    return bool(m) and (m.group(1) == '-') == (v < 0) and int(m.group(2), 2) == abs(v)


def samples(signed, base):
    rnd = random.Random(5)
    out = [0, 1, 2, 7, 9, 10, 11, 15, 16, 17, 31, 99, 100, 101, 109, 190, 255, 256, 999, 1000, 1001, 12345, 65535, 1234567890, 9876543210, 0xFEDCBA9876543210, 0x123456789ABCDEF,
           10 ** 9, 10 ** 9 - 1, 10 ** 9 + 1, 10 ** 18, 10 ** 18 + 7, 10 ** 19 - 1, 10 ** 19, 10 ** 19 + 1, 10 ** 20, 10 ** 38, 10 ** 38 + 10 ** 19, 10 ** 27 + 5, 10 ** 36 + 10 ** 9 + 3]
    for k in (8, 16, 31, 32, 33, 62, 63, 64, 65, 128, 192):
        out += [1 << k, (1 << k) - 1, (1 << k) + 1, (1 << k) + (1 << k // 2) + 5]
    for k in (40, 70, 130, 200, 330):
        out.append(rnd.getrandbits(k) | 1 << k)
    out = list(dict.fromkeys(out))
    if signed:
        out = [x for v in out for x in ((v, -v) if v else (v,))]
    return out


def run():
    rep = Report('P24', RULE)
    prog = facts.load('numeric_ints')
    rep.config = {'integers': 'BigInt of every value; U<N> of every width of at least one byte', 'radixes read': '0 to 36 and beyond'}
    n = 0
    for b in prog.roots:
        if '::tests::' in b.path or not b.j.get('itrait'):
            continue
        tr = b.j['itrait'].split('<')[0]
        k = tr.rsplit('::', 1)[-1]
        me = (targs(prog, b) or ['?'])[0]
        if b.name == 'fmt' and tr.startswith('core::fmt::') and k in KINDS and me in (BI, UN):
            n += 1
            printing(rep, prog, b, k, me == BI)
        if b.name == 'from_str_radix' and k == 'FromStrRadix' and me == BI:
            n += 1
            reading(rep, prog, b)
    rep.floor('printing and reading functions', n, 8)
    return rep


def arrof(t, want):
    return t.op == 'arr' and [x.a[0] if isint(x) else None for x in t.a] == [ord(c) for c in want]


class Shape(Exception):
    pass


def need(c, why):
    if not c:
        raise Shape(why)


def printing(rep, prog, b, kind, signed):
    base, prefix, table = KINDS[kind]
    key = '%s: the text denotes the value' % nice(b)
    rep.saw(b.path)
    A = TextAbs(prog, b)
    r, err = analyse(prog, b, hooks={'call': A.hook})
    if r is None:
        rep.ob(key, UNDECIDED, where(b), RULE, err)
        return
    p = params(prog, b, r)
    me = p[0]
    out = final(r, b, 1)
    start = p[1]
    ran = 0
    why = None
    t0 = time.time()
    for v in samples(signed, base):
        if time.time() - t0 > 25:
            break
        R = TextRun(r.loops, {me: ('big', v), start: ('arr',)}, turns=1500)
        try:
            if r.cond is not TRUE:
                pk = R.panicked(r)
                if pk == 'maybe':
                    continue
                if pk:
                    rep.ob(key, VIOLATED, where(b), RULE, {'value': str(v), 'found': pk, 'required': required(kind, v)})
                    return
            got = R.text(out)
            if r.ret is not OKU and R.ev(r.ret)[2] != 0:
                got = got + ' and an error'
        except NoEval as e:
            why = str(e)
            continue
        ran += 1
        if not denotes(kind, got, v):
            rep.ob(key, VIOLATED, where(b), RULE, {'value': str(v), 'found': got[:200], 'required': required(kind, v)[:200]})
            return
    try:
        need(ran > 0, 'not evaluated: %s' % why)
        (binary if kind == 'Binary' else digits)(r, me, start, out, base, prefix, table, signed)
        v, d = HOLD, None
    except Shape as e:
        v, d = UNDECIDED, str(e)
    rep.ob(key, v, where(b), RULE, d)


def lead(t, neg, start, prefix, signed):
    """text at the start of the digits: sign and prefix"""
    for val in ((FALSE, TRUE) if signed else (FALSE,)):
        x = subst(t, lambda y: val if y is neg else None)
        cs = []
        while x.op == 'push':
            cs.append(x.a[1])
            x = x.a[0]
        need(x is start, 'what is written first')
        want = ('-' if val is TRUE else '') + prefix
        need([c.a[0] if isint(c) else None for c in reversed(cs)] == [ord(c) for c in want], 'sign and prefix')


def digits(r, me, start, out, base, prefix, table, signed):
    z = VAL(me)
    need(out.op == 'fin' and out.a[0] in r.loops, 'text not written by a loop')
    L2 = r.loops[out.a[0]]
    L1s = [L for L in r.loops.values() if L is not L2]
    need(len(L1s) == 1, 'one loop over the digits')
    L1 = L1s[0]
    # the digits, last first
    seqs = [(q, i, s) for q, i, s in L1.phis.values() if s.op == 'push' and s.a[0] is q]
    rest = [(q, i, s) for q, i, s in L1.phis.values() if not (s.op == 'push' and s.a[0] is q)]
    need(len(seqs) == 1 and len(rest) == 1, 'state of the loop over the digits')
    (D, D0, Ds), (S, S0, Ss) = seqs[0], rest[0]
    need(LEN(D0) is mkint(0), 'digits at the start')
    mag = BIGZ(Z('abs', z)) if signed else BIGZ(z)
    pos = NOT(NEG(VAL(S)))
    need(decide(S0 if S0 is not me else BIGZ(z), mag, [me])[0] == HOLD, 'magnitude at the start')
    need(decide(Ss, BIGZ(Z('tdiv', VAL(S), K(base))), [S], pre=pos)[0] == HOLD, 'next magnitude')
    need(len(L1.exits) == 1 and any(decide(L1.exits[0][0], e, [S], pre=pos)[0] == HOLD for e in (ZEQ(VAL(S), K(0)), NOT(ZLT(K(0), VAL(S))))), 'end of the digits')
    x = Ds.a[1]
    need(x.op == 'tcall' and x.a[1].op == 'zconv' and x.a[0] in PRIMS and PRIMS[x.a[0]][1] >= base - 1, 'digit')
    need(decide(BIGZ(x.a[1].a[0]), BIGZ(Z('trem', VAL(S), K(base))), [S], pre=pos)[0] == HOLD, 'digit is the remainder')
    # written back to front
    F = raw('fin', L1.id, D.a[1], D.a[2])
    N = LEN(F)
    some = {EQ(N, mkint(0)): FALSE, LT(mkint(0), N): TRUE}
    g = lambda t: subst(t, some.get)
    texts = [(q, g(i), g(s)) for q, i, s in L2.phis.values() if q.a[1] == out.a[1]]
    need(len(texts) == 1, 'text')
    Q, Q0, Qs = texts[0]
    lead(Q0, NEG(z), start, prefix, signed)
    others = [(q, g(i), g(s)) for q, i, s in L2.phis.values() if q.a[1] != out.a[1]]
    need(len(others) == 1 and tyof(others[0][0]) == 'usize', 'position')
    C, C0, Cs = others[0]
    need(len(L2.exits) == 1, 'end of the text')
    more = LT(mkint(0), C)
    need(same(C0, N)[0] == HOLD and same(Cs, BIN('sub', 'usize', C, mkint(1)), more)[0] == HOLD and same(g(L2.exits[0][0]), NOT(more))[0] == HOLD, 'positions')
    need(Qs.op == 'push' and Qs.a[0] is Q, 'one character per digit')
    y = Qs.a[1]
    need(y.op == 'sel' and arrof(y.a[0], table), 'table of digits')
    need(same(y.a[1], CAST(x.a[0], 'usize', SEL(F, BIN('sub', 'usize', C, mkint(1)))), more)[0] == HOLD, 'digit that is written')


def binary(r, me, start, out, base, prefix, table, signed):
    z = VAL(me)
    need(out.op == 'fin' and out.a[0] in r.loops and len(r.loops) == 1, 'text not written by one loop')
    L = r.loops[out.a[0]]
    texts = [x for x in L.phis.values() if x[0].a[1] == out.a[1]]
    others = [x for x in L.phis.values() if x[0].a[1] != out.a[1]]
    need(len(texts) == 1 and len(others) == 1 and len(L.exits) == 1, 'state')
    Q, Q0, Qs = texts[0]
    C, C0, Cs = others[0]
    lead(Q0, NEG(z), start, prefix, signed)
    sq = next((x for x in subterms(C0) if x.op == 'len' and Z('abs', z) in subterms(x)), None)
    need(sq is not None, 'length')
    more = LT(mkint(0), C)
    need(same(C0, BIN('mul', 'usize', sq, mkint(64)))[0] == HOLD and same(Cs, BIN('sub', 'usize', C, mkint(1)), more)[0] == HOLD and same(L.exits[0][0], NOT(more))[0] == HOLD, 'positions')
    need(Qs.op == 'push' and Qs.a[0] is Q, 'one character per bit')
    y = Qs.a[1]
    i = BIN('sub', 'usize', C, mkint(1))
    bit = NE(BIN('band', 'usize', SEL(sq.a[0], BIN('div', 'usize', i, mkint(64))), BIN('shl', 'usize', mkint(1), BIN('rem', 'usize', i, mkint(64)))), mkint(0))
    if y.op == 'tcall' and y.a[1].op == 'numeral':
        w = y.a[1].a[0]
        need(same(w, CAST('bool', y.a[1].a[1], bit), more)[0] == HOLD, 'bit that is written')
    else:
        need(same(y, ITE(bit, CH('1'), CH('0')), more)[0] == HOLD, 'bit that is written')


# ------------------------------------------------------------------ reading
ERRS = 'numeric_ints::big_int::FromStrError'


def parse(s, radix):
    neg = s[:1] == '-'
    body = s[1:] if neg else s
    v = 0
    for c in body:
        if radix > 36:
            return ('bad radix',)
        d = digit_value(ord(c))
        if d is None or d >= radix:
            return ('bad character', c)
        v = v * radix + d
    return ('value', -v if neg else v)


TEXTS = ['', '0', '1', '7', '9', '10', '123', '987', '-1', '-0', '-123', '-', '--1', '+1', 'FF', 'ff', 'fF', '-Ff', 'zZ', 'Az', 'g', 'G', '12a', 'a12', '1_0', '1 0', ' 1', '1 ', '0x1', '1-1', '1-', '00012', '-00',
         '18446744073709551615', '18446744073709551616', '-18446744073709551617', '123456789012345678901234567890123456789', '1' + '0' * 45, 'DEADBEEFcafebabe0123456789', '4611686018427387903', '4611686018427387904',
         'a', 'z', 'A', 'Z', '@', '[', '`', '{', '/', ':', 'é', '\u212a', '1\u212a', 'ſ', '\u0130', '1é', '٣', '99999999999999999999', '1010101010101010101010101010101010101010101010101010101010101010101', '1.5', '1e5', 'hello', 'Hello', 'WORLD', 'rUsT']
RADIXES = [0, 1, 2, 3, 7, 8, 10, 11, 15, 16, 17, 20, 35, 36, 37, 62, 1 << 31]


def reading(rep, prog, b):
    key = '%s: the value denoted' % nice(b)
    rep.saw(b.path)
    A = TextAbs(prog, b)
    r, err = analyse(prog, b, hooks={'call': A.hook})
    if r is None:
        rep.ob(key, UNDECIDED, where(b), RULE, err)
        return
    p = params(prog, b, r)
    txt = [x for q in [r.ret] + [e[0] for L in r.loops.values() for e in L.exits] for x in subterms(q) if x.op == 'sym' and str(x.a[0]).startswith('#text')]
    txt = sorted(set(txt), key=lambda x: x.id)
    if len(txt) != 1:
        rep.ob(key, UNDECIDED, where(b), RULE, 'text is read in a way not modelled')
        return
    S, radix = txt[0], p[1]
    ran, why = 0, None
    t0 = time.time()
    for s in TEXTS:
        for q in RADIXES:
            if time.time() - t0 > 60:
                break
            want = parse(s, q)
            R = TextRun(r.loops, {S: ('arr',) + tuple(ord(c) for c in s), radix: q}, turns=400)
            try:
                pk = R.panicked(r) if r.cond is not TRUE else None
                if pk == 'maybe':
                    continue
                if pk:
                    got = (pk,)
                else:
                    v = R.ev(r.ret)
                    if v[2] == 0:
                        got = ('value', v[3][1]) if v[3][0] == 'big' else None
                    else:
                        e = v[3]
                        got = ('bad radix',) if e[2] == 0 else ('bad character', chr(e[3]))
                        if e[2] == 0 and e[3] != q:
                            got = ('bad radix', e[3])
                if got is None:
                    continue
            except (NoEval, TypeError, IndexError) as e:
                why = str(e)
                if os.environ.get('SA_DBGX'):
                    print(repr(s), q, e)
                continue
            ran += 1
            if got != want:
                rep.ob(key, VIOLATED, where(b), RULE, {'text': s, 'radix': q, 'found': str(got), 'required': str(want)})
                return
    try:
        need(ran > 0, 'not evaluated: %s' % why)
        read_shape(r, S, radix)
        v, d = HOLD, None
    except Shape as e:
        v, d = UNDECIDED, str(e)
    rep.ob(key, v, where(b), RULE, d)


def read_shape(r, S, radix):
    neg = AND(LT(mkint(0), LEN(S)), EQ(SEL(S, mkint(0)), CH('-')))
    Ls = [L for L in r.loops.values() if any(tyof(q) == BI for q, _, _ in L.phis.values())]
    need(len(Ls) == 1, 'one loop over the characters')
    L = Ls[0]
    vals = [x for x in L.phis.values() if tyof(x[0]) == BI]
    poss = [x for x in L.phis.values() if tyof(x[0]) == 'usize']
    need(len(vals) == 1 and len(poss) == 1 and len(L.phis) == 2, 'state')
    V, V0, Vs = vals[0]
    I, I0, Is = poss[0]
    need(decide(V0, BIGZ(K(0)), [])[0] == HOLD, 'value at the start')
    # the characters after the sign
    for c in (TRUE, FALSE):
        f = lambda t: subst(subst(t, lambda y: c if y is neg else None), lambda y: None)
        n = BIN('sub', 'usize', LEN(S), mkint(1)) if c is TRUE else LEN(S)
        at = BIN('add', 'usize', I, mkint(1)) if c is TRUE else I
        pre = LT(mkint(0), LEN(S)) if c is TRUE else TRUE
        inr = LT(I, n)
        need(f(I0) is mkint(0) and same(f(Is), BIN('add', 'usize', I, mkint(1)), AND(pre, inr))[0] == HOLD, 'one character after the other')
        need(len(L.exits) == 2 and same(f(L.exits[0][0]), NOT(inr), pre)[0] == HOLD, 'end of the text')
        ch = SEL(S, at)
        bad = f(L.exits[1][0])
        # the digit
        st = f(Vs)
        zz = st.a[1].a[0] if st.op == 'tcall' and st.a[1].op == 'zbig' else None
        need(zz is not None and zz.a[0] == 'add', 'value times radix plus digit')
        d = next((y for y in zz.a[1:] if y.a[0] == 'int'), None)
        need(d is not None and decide(st, BIGZ(Z('add', Z('mul', VAL(V), INT(radix, 'u32')), d)), [V], [radix])[0] == HOLD, 'value times radix plus digit')
        digit(r, L, d.a[1], bad, ch, radix, AND(pre, inr), f)
    # the result
    ex = raw('exitsel', L.id)
    ok = subst(r.ret, lambda y: mkint(0) if y is ex else None)
    need(ok.op == 'agg' and ok.a[0] == RES and ok.a[1] == 0, 'result')
    FV = raw('fin', L.id, V.a[1], V.a[2])
    need(decide(ok.a[2], BIGZ(Z('ite', neg, Z('negate', VAL(FV)), VAL(FV))), [FV])[0] == HOLD or
         all(decide(subst(ok.a[2], lambda y: c if y is neg else None), BIGZ(Z('negate', VAL(FV))) if c is TRUE else FV, [FV])[0] == HOLD for c in (TRUE, FALSE)), 'sign')
    e = subst(r.ret, lambda y: mkint(1) if y is ex else None)
    need(e.op == 'agg' and e.a[1] == 1, 'error')
    FI = raw('fin', L.id, I.a[1], I.a[2])
    for c in (TRUE, FALSE):
        x = subst(e.a[2], lambda y: c if y is neg else None)
        ch = SEL(S, BIN('add', 'usize', FI, mkint(1)) if c is TRUE else FI)
        need(same(x, ITE(LT(mkint(36, 'u32'), radix), AGG(ERRS, 0, radix), AGG(ERRS, 1, ch)))[0] == HOLD, 'which error')


def digit(r, L, d, bad, ch, radix, pre, f):
    """d is the value of the character ch, bad says there is none"""
    inner = [M for M in r.loops.values() if M is not L and any(x.op in ('fin', 'exitsel') and x.a[0] == M.id for x in subterms(d))]
    wide = LT(mkint(36, 'u32'), radix)
    if not inner:
        spec = raw('tcall', 'core::option::Option<u32>', raw('todigit', ch, radix))
        need(same(d, FIELD(spec, 1, 0))[0] == HOLD, 'digit')
        need(same(bad, OR(wide, NE(DISCR(spec), DISCR(AGG(OPT, 1, mkint(0, 'u32'))))), pre)[0] == HOLD, 'characters that are no digits')
        return
    need(len(inner) == 1, 'search of the digit')
    M = inner[0]
    n = CAST('u32', 'usize', radix)
    ks = list(M.phis.values())
    need(len(ks) >= 1 and all(tyof(k[0]) == 'usize' and k[1] is mkint(0) for k in ks), 'positions')
    k = ks[0][0]
    same_k = lambda t: subst(t, lambda y: k if any(y is q[0] for q in ks) else None)
    need(all(same(same_k(q[2]), BIN('add', 'usize', k, mkint(1)), LT(k, n))[0] == HOLD for q in ks), 'one place after the other')
    es = [same_k(f(e[0])) for e in M.exits]
    need(len(es) == 2 and same(es[0], NOT(LT(k, n)))[0] == HOLD, 'digits of the radix only')
    low = raw('tcall', 'char', raw('lower', ch))
    tb = next((x for x in subterms(es[1]) if x.op == 'arr'), None)
    need(tb is not None and arrof(tb, ALNUM), 'table of digits')
    need(same(es[1], AND(LT(k, n), EQ(SEL(tb, k), low)))[0] == HOLD, 'first place of the character')
    fins = {raw('fin', M.id, q[0].a[1], q[0].a[2]) for q in ks}
    F = next(iter(fins))
    g = lambda t: subst(t, lambda y: F if y in fins else None)
    need(same(g(d), CAST('usize', 'u32', F))[0] == HOLD, 'value of the digit')
    ex = raw('exitsel', M.id)
    # left through the second exit: the place holds the character
    got = g(bad)
    at = EQ(SEL(tb, F), low)
    found = subst(subst(got, lambda y: mkint(1) if y is ex else None), lambda y: TRUE if y is at else None)
    none = subst(got, lambda y: mkint(0) if y is ex else None)
    need(same(found, wide, pre)[0] == HOLD and same(none, TRUE, pre)[0] == HOLD, 'characters that are no digits')
