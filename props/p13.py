"""P13 - every arbitrary-precision integer owns exactly one reference to its stored limbs."""
from .p14 import *

RULE = ('Every function that builds or changes the word of an integer, or calls the reference counting of the store, must be balanced: references taken (incr, add) plus references '
        'received by value, minus references released (decr, dropped values), equals references handed out in results, for every word; '
        'no integer is forgotten, duplicated or reinterpreted elsewhere.')
TO = 'numeric_ints::big_int::TaggedOffset'
ESCAPE = ('forget', 'transmute', 'transmute_copy', 'zeroed', 'uninit', 'assume_init', 'assume_init_read', 'read', 'read_unaligned', 'read_volatile', 'write', 'write_unaligned', 'write_volatile',
          'copy', 'copy_nonoverlapping', 'drop_in_place', 'from_raw', 'into_raw', 'leak', 'new_unchecked', 'set_len')


def opers(x):
    """operands and places of an rvalue"""
    if isinstance(x, list):
        yield x
        for y in x:
            yield from opers(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from opers(y)


def touches(prog, b):
    """why a body handles words or references itself"""
    out = []
    tys = [prog.tys(t) if isinstance(t, int) else t.get('s', '') for t in b.j['locals']]
    for blk in b.j['blocks']:
        if blk.get('cl'):
            continue
        for st in blk['s']:
            if st[0] != '=':
                continue
            place, rv = st[1], st[2]
            if rv[0] == 'agg' and rv[1][0] == 'adt' and rv[1][1] == BI:
                out.append(('builds', st[-1]))
            proj = place[1]
            base = tys[place[0]].replace('&mut ', '').replace('&', '').strip()
            if (base == BI or base == TO) and any(p[0] == 'f' for p in proj if isinstance(p, list)) and '&mut' not in tys[place[0]] * (base == TO) or \
                    base == BI and any(p[0] == 'f' for p in proj if isinstance(p, list)):
                out.append(('changes', st[-1]))
            if rv[0] == 'ref' and rv[2] and tys[rv[1][0]].replace('&mut ', '').replace('&', '').strip() == BI and any(p[0] == 'f' for p in rv[1][1] if isinstance(p, list)):
                out.append(('changes', st[-1]))
            if rv[0] == 'cast' and BI in str([prog.tys(x) if isinstance(x, int) else '' for x in rv[1:]]) and any('transmute' in str(x).lower() for x in rv[1:]):
                out.append(('reinterprets', st[-1]))
        t = blk['t']
        if t[0] == 'call' and t[1][0] == 'c' and isinstance(t[1][1], dict) and t[1][1].get('k') == 'fn':
            f = t[1][1]['f']
            if 'intern::Interner' in f.get('p', '') and f['n'] in ('add', 'incr', 'decr'):
                out.append((f['n'], t[6]))
            ga = [prog.tys(x) if isinstance(x, int) else str(x) for x in (f.get('a') or [])]
            if f['n'] in ESCAPE and any(re.search(r'big_int::BigInt\b', g) for g in ga) and f['p'].split('::')[0] in ('core', 'alloc', 'std'):
                out.append(('escapes' if f['n'] in ('forget', 'transmute', 'read') else 'copies', t[6]))
            if 'ManuallyDrop' in f.get('p', '') and any('big_int::BigInt' in g for g in ga):
                out.append(('escapes', t[6]))
    return out


def run():
    rep = Report('P13', RULE, ['functions that only move, clone and drop integers are balanced by the ownership rules of the language', 'panics abandon the computation'])
    prog = facts.load('numeric_ints')
    R = Reading(prog, rep, RULE)
    if not R.ok:
        rep.ob('reading of a word', UNDECIDED, 'crates/ints/src/big_int.rs', RULE, R.why)
    n = k = 0
    for b in prog.roots:
        if '::tests::' in b.path or 'big_int' not in b.path and BI not in b.path:
            continue
        k += 1
        rep.saw(b.path)
        why = touches(prog, b)
        if not why and (b.j.get('itrait') or '').split('::')[-1] in ('Drop', 'Clone') and b.name in ('drop', 'clone') and b.path.startswith('<%s as' % BI):
            why = [('ends or copies a value', b.name)]
        if not why:
            continue
        n += 1
        if R.ok:
            balance(rep, prog, R, b, why)
    if R.ok:
        # looked up only while the integer is borrowed: the identifier asked for is the word's own
        for i, (ident, cond) in enumerate(R.gets):
            v, d = valid(EQ(ident, R.id(R.w)), AND(cond, R.canon(R.w)))
            rep.ob('BigInt::with_slice: looks up its own identifier', v, where(R.ws), RULE, d)
            v, d = valid(IMP(cond, NOT(R.inl(R.w))), TRUE)
            rep.ob('BigInt::with_slice: looks up stored limbs only', v, where(R.ws), RULE, d)
    sends(rep, prog)
    rep.floor('functions examined', k, 60)
    rep.floor('functions that handle references', n, 4)
    return rep


def sends(rep, prog):
    """no bitwise copies: the integer type is not Copy and has a destructor"""
    ad = prog.adts.get(BI)
    if ad is not None:
        rep.ob('BigInt: has a destructor', HOLD if ad.get('drop') else VIOLATED, 'crates/ints/src/big_int.rs', RULE, None if ad.get('drop') else 'no Drop implementation: stored limbs are never released')


def balance(rep, prog, R, b, why):
    o = One(rep, prog, b)
    key = '%s: references balanced' % nice(b)
    if o.r is None:
        rep.ob(key, UNDECIDED, where(b), RULE, (o.err, why[:2]))
        return
    if any(w[0] in ('copies', 'reinterprets') for w in why):
        rep.ob(key, UNDECIDED, where(b), RULE, why[:3])
        return
    r = o.r
    plus, minus = [], []           # (guard, identifier)
    far = lambda w, c=TRUE: (AND(c, NOT(R.inl(w))), R.id(w))
    pre = TRUE
    extra = []
    try:
        for e in o.S.events:
            if e[0] in ('incr', 'add'):
                plus.append((e[2], e[1]))
                if e[0] == 'add':
                    extra.append(e[1])
            elif e[0] == 'decr':
                minus.append((e[2], e[1]))
            elif e[0] == 'drop':
                if e[4] != BI or e[1] is None:
                    raise No('drop of %s' % e[4])
                minus.append(far(word(e[1]), e[2]))
        for i, x in enumerate(o.p):
            ty = b.local_ty(i + 1)
            s = ty['s']
            if s == BI:
                plus.append(far(word(x)))
                pre = AND(pre, R.canon(word(x)))
            elif ty['k'] == 'ref' and s.replace('&mut ', '').replace('&', '').strip() == BI:
                pre = AND(pre, R.canon(word(x)))
                if ty['m'] and b.name == 'drop' and (b.j.get('itrait') or '').endswith('Drop'):
                    plus.append(far(word(x)))          # the value ends here
                elif ty['m']:
                    plus.append(far(word(x)))
                    minus.append(far(word(final(r, b, i))))
        rt = b.local_ty(0)['s']
        if rt == BI:
            minus.append(far(word(r.ret)))
        elif BI in rt:
            raise No('returns %s' % rt)
        pre = AND(pre, NOT(panic_cond(r)))
        if any(any(x.op in ('phi', 'fin') for x in subterms(g) | subterms(i)) for g, i in plus + minus):
            raise No('loop')
        if r.loops and any(e[0] != 'get' for e in o.S.events):
            raise No('loop')
        v, d = balanced(plus, minus, pre, extra + [x for x in o.p if tyof(x) == 'bool'])
    except (No, RecursionError) as e:
        v, d = UNDECIDED, (str(e)[:120], why[:2])
    rep.ob(key, v, where(b), RULE, d)


def balanced(plus, minus, pre, extra):
    """as many taken as given, under every identifier, for every word"""
    L = Low()
    B = L.B
    P = L.b(pre)
    ev = [(1, B.AND(P, L.b(g)), L.w(i, 'usize')) for g, i in plus] + [(-1, B.AND(P, L.b(g)), L.w(i, 'usize')) for g, i in minus]
    ev = [e for e in ev if e[1] != 0]
    odd = [t for t in L.names.values() if not plain(t, extra)]
    same_id = lambda x, y: [B.NOT(B.XOR(p, q)) for p, q in zip(x, y)]
    for s0, g0, i0 in ev:
        # balance at the identifier of this event
        lits = []
        for s, g, i in ev:
            e = g
            for q in same_id(i0, i):
                e = B.AND(e, q)
            lits.append((s, B.AND(e, g0)))
        # number of + minus number of -
        cnt = {0: g0}
        for s, e in lits:
            nx = {}
            for k, f in cnt.items():
                for d, c in ((s, e), (0, B.NOT(e))):
                    h = B.AND(f, c)
                    if h:
                        nx[k + d] = B.OR(nx.get(k + d, 0), h)
            cnt = nx
        for k, f in cnt.items():
            if k != 0 and f != 0:
                if odd:
                    return UNDECIDED, 'depends on %s' % show(odd[0], 5)[:80]
                return VIOLATED, {'references taken minus given': k, 'for': L.model(f)}
    return HOLD, None
