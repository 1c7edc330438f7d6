"""P02 - conversions between primitive integers: checked / saturating / truncating are exact."""
from .common import *

RULE = ('Value-flow summary of every checked, saturating and truncating conversion between two primitive integer types, '
        'compared by interval partition and normal form with: None/clamp exactly outside the target range, the low bits for truncation.')


def clamp(f, t, v):
    lo, hi = irange(t)
    flo, fhi = irange(f)
    r = CAST(f, t, v)
    if fhi > hi:
        r = ITE(LT(mkint(hi, f), v), mkint(hi, t), r)
    if flo < lo:
        r = ITE(LT(v, mkint(lo, f)), mkint(lo, t), r)
    return r


def inrange(f, t, v):
    lo, hi = irange(t)
    flo, fhi = irange(f)
    c = TRUE
    if fhi > hi:
        c = AND(c, LE(v, mkint(hi, f)))
    if flo < lo:
        c = AND(c, GE(v, mkint(lo, f)))
    return c


def run():
    rep = Report('P02', RULE, ['64-bit target', 'core TryFrom between primitive integers is analysed from its own MIR'])
    prog = facts.load('numeric_traits')
    n = {'saturate_from': 0, 'from_checked': 0, 'truncate_from': 0}
    for b in prog.roots:
        if b.name not in n or not b.j.get('itrait') or 'iself' not in b.j:
            continue
        to = selfs(prog, b)
        ta = targs(prog, b)
        fr = ta[-1] if ta else None
        if b.argc != 1:
            continue
        key = '%s<%s> for %s' % (b.name, fr, to)
        v = Engine(prog, Models()).param(b, 1)
        if fr in WIDTH and to in WIDTH:
            if b.name == 'saturate_from':
                spec, rule = clamp(fr, to, v), 'nearest representable value'
            elif b.name == 'from_checked':
                spec, rule = ITE(inrange(fr, to, v), SOME(CAST(fr, to, v)), NONE), 'Some(value) exactly when representable'
            else:
                spec, rule = CAST(fr, to, v), 'the low bits of the value'
            check_value(rep, key, prog, b, spec, rule, panics=FALSE)
            n[b.name] += 1
        elif b.name == 'saturate_from' and (fr in ('f32', 'f64') or to in ('f32', 'f64')):
            spec = raw('fcast', fr, to, v)
            check_value(rep, key, prog, b, spec, 'nearest representable value', panics=FALSE)
            rep.count('float')
    for b in prog.roots:
        # the Into* forwarding directions
        if b.name in ('saturate', 'into_checked', 'truncate') and (b.j.get('itrait') or '').split('<')[0].split('::')[-1].startswith('Into'):
            r, err = analyse(prog, b)
            rep.saw(b.path)
            want = {'saturate': 'saturate_from', 'into_checked': 'from_checked', 'truncate': 'truncate_from'}[b.name]
            if r is None:
                rep.ob('blanket ' + b.name, UNDECIDED, where(b), 'forwards to the From direction', err)
                continue
            t = r.ret
            if t.op == 'tcall':
                t = t.a[1]
            v = Engine(prog, Models()).param(b, 1)
            ok = t.op == 'call' and t.a[0].split('::')[-1] == want and t.a[2] is v
            bad = t.op == 'call' and t.a[0].split('::')[-1] in ('saturate_from', 'from_checked', 'truncate_from') and not ok
            rep.ob('blanket ' + b.name, HOLD if ok else VIOLATED if bad else UNDECIDED, where(b), 'forwards to ' + want, show(r.ret, 6))
    rep.counts.update(n)
    rep.floor('saturating conversions', n['saturate_from'], 135)
    rep.floor('checked conversions', n['from_checked'], 144)
    rep.floor('truncating conversions', n['truncate_from'], 144)
    return rep
