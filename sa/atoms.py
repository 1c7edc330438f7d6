"""Events on atomics: every access to an atomic is recorded with its place, memory ordering, operands and path
condition; the value it returns is a fresh symbol, since other threads may have changed the place."""
from .term import *

ORDS = ('Relaxed', 'Release', 'Acquire', 'AcqRel', 'SeqCst')
ACQ, REL = {'Acquire', 'AcqRel', 'SeqCst'}, {'Release', 'AcqRel', 'SeqCst'}
RESULT = 'core::result::Result'


class Event:
    __slots__ = ('kind', 'place', 'ty', 'ords', 'args', 'res', 'ok', 'cond', 'where', 'n', 'site', 'state')

    def __repr__(self):
        return '%s %s %s(%s) %s' % (self.kind, '/'.join(self.ords), show(self.place, 4), ', '.join(show(a, 4) for a in self.args), self.where)


def order_of(t):
    if t.op == 'agg' and t.a[0].endswith('sync::atomic::Ordering'):
        return ORDS[t.a[1]]
    return '?'


def LINK(place, ty):
    """what a link holds; links only ever change from null to one node"""
    return raw('tcall', ty, raw('op', 'link', place))


class Atoms:
    def __init__(self, links=False):
        self.ev = {}
        self.links = links
        self.drops = {}

    def events(self):
        return sorted(self.ev.values(), key=lambda e: e.n)

    def hook(self, then=None):
        def f(eng, fr, s, c, args, atys, dty, cond, where):
            p = c.get('p', '')
            if 'sync::atomic::Atomic' in p and args and c.get('n') not in ('new', 'default', 'fetch_update', 'try_update', 'update', 'as_ptr', 'fmt', 'from', 'null'):
                n = p.split('::')[-1]
                kind = {'compare_exchange_weak': 'compare_exchange'}.get(n, n)
                if kind in ('load', 'store', 'swap', 'compare_exchange') or kind.startswith('fetch_'):
                    return self.record(eng, s, c, kind, args, atys, dty, cond, where)
            if 'sync::atomic::Atomic' in p and c.get('n') in ('fetch_update', 'try_update', 'update') and len(args) == 4:
                return self.update(eng, fr, s, c, args, atys, dty, cond, where)
            if then:
                return then(eng, fr, s, c, args, atys, dty, cond, where)
            return NotImplemented
        return f

    def record(self, eng, s, c, kind, args, atys, dty, cond, where):
        ty = eng.prog.tys(atys[0])
        inner = 'usize'
        if 'Atomic<*mut' in ty or 'AtomicPtr' in ty:
            i = ty.find('*mut')
            inner = ty[i:].rstrip('>') if i >= 0 else '*mut ?'
            if i >= 0:
                inner = ty[i:]
                inner = inner[:-1] if inner.endswith('>') else inner
        site = '%s@%s' % (eng.cur_frame_id(), where)
        k = 0
        while (site, k) in self.ev and self.ev[(site, k)].kind != kind:
            k += 1
        e = Event()
        e.kind, e.place, e.ty, e.cond, e.where, e.site = kind, args[0], inner, cond, where, site
        no = {'load': 1, 'store': 1, 'swap': 1, 'compare_exchange': 2}.get(kind, 1)
        e.ords = [order_of(x) for x in args[-no:]]
        e.args = list(args[1:-no])
        old = self.ev.get((site, k))
        e.n = old.n if old else len(self.ev)
        e.res = LINK(args[0], inner) if self.links and inner.startswith('*') else sym('@%s%d' % (kind, e.n), inner)
        e.ok = None
        e.state = (eng, type(s)(dict(s.m)))
        self.ev[(site, k)] = e
        if kind == 'store':
            return UNIT
        if kind == 'compare_exchange':
            e.ok = sym('@ok%d' % e.n, 'bool')
            return ITE(e.ok, AGG(RESULT, 0, e.args[0]), AGG(RESULT, 1, e.res))
        return e.res

    def update(self, eng, fr, s, c, args, atys, dty, cond, where):
        """fetch_update and relatives: one atomic change from x to f(x), or none where f declines"""
        site = '%s@%s' % (eng.cur_frame_id(), where)
        e = Event()
        e.kind, e.place, e.ty, e.cond, e.where, e.site = 'update', args[0], 'usize', cond, where, site
        e.ords = [order_of(args[1]), order_of(args[2])]
        old = self.ev.get((site, 0))
        e.n = old.n if old else len(self.ev)
        e.res = sym('@update%d' % e.n, 'usize')
        e.state = (eng, type(s)(dict(s.m)))
        new = eng.call_value(fr, s, args[3], [e.res], dty, cond, where)
        total = c.get('n') == 'update'
        e.ok = TRUE if total else INSW(DISCR(new), (1,), False)
        e.args = [e.res, new if total else FIELD(new, 1, 0)]
        self.ev[(site, 0)] = e
        return e.res if total else ITE(e.ok, AGG(RESULT, 0, e.res), AGG(RESULT, 1, e.res))

    def drop(self, eng, fr, s, t, cond, where):
        try:
            ty = eng.place_ty(fr, t[1])['s']
        except Exception:
            ty = '?'
        v = eng.load(s, eng.place_ptr(fr, s, t[1]))
        self.drops[(eng.cur_frame_id(), where, ty)] = (ty, v, cond, where)
