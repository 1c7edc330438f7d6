"""P17 - types are sent to or shared with other threads only when their content may be."""
from .common import *

RULE = ('For every type with a type parameter, the compiler\'s own Send and Sync rules are evaluated under each assumption about that parameter (neither, Send only, '
        'Sync only, both) and compared with what the fields give access to: owned content needs Send to be sent, shared content needs Sync to be sent or shared, and '
        'content that can be moved in or out through a shared reference (interior mutability behind an unsafe impl) needs Send to be shared.')
CRATES = ('numeric_utils', 'numeric_static_iter', 'numeric_bits', 'numeric_ints', 'numeric_compounds', 'numeric_reals')
VALUES = {'Interner', 'BigInt', 'U', 'I', 'Complex', 'Vector', 'Matrix', 'DynMatrix', 'BiVector', 'Rotor', 'Rat', 'Fixed', 'F', 'P'}

NO = {'v': []}


class Access:
    def __init__(self, prog):
        self.p = prog
        self.memo = {}
        self.unsafe = {}
        for i in prog.impls:
            if i['unsafe'] and (i['trait'] or '').rsplit('::', 1)[-1] in ('Send', 'Sync'):
                t = prog.ty(i['self'])
                if t['k'] == 'adt':
                    self.unsafe.setdefault(t['p'], {})[i['trait'].rsplit('::', 1)[-1]] = i['span']

    def adt(self, path):
        """{param: set of (mode, through a cell)} over the fields of a local type"""
        if path in self.memo:
            return self.memo[path]
        self.memo[path] = out = {}
        if not self.p.adts.get(path):
            for q, par, _, _, _ in self.p.assumes:
                if q == path:
                    out[par] = {('own', False)}
            return out
        fs = [self.p.ty(f['t']) for v in self.p.adts[path]['v'] for f in v['f']]
        # a raw pointer next to a marker for a shared borrow stands for that borrow
        borrow = any(t.get('p', '').endswith('PhantomData') and self.p.ty(t['a'][0])['k'] == 'ref' and not self.p.ty(t['a'][0])['m'] for t in fs)
        for _ in range(4):
            for v in self.p.adts[path]['v']:
                for f in v['f']:
                    raw = self.p.ty(f['t'])['k'] == 'ptr' or self.p.ty(f['t']).get('p', '').endswith('::NonNull')
                    self.walk(f['t'], 'shared' if borrow and raw else 'own', False, out)
        return out

    def walk(self, i, mode, cell, out):
        t = self.p.ty(i)
        k = t['k']
        if k == 'param':
            out.setdefault(t['s'], set()).add((mode, cell))
        elif k in ('ref', 'ptr'):
            mut = bool(t['m'])
            self.walk(t['e'], mode if mut else 'shared', cell, out)
        elif k == 'adt':
            last = t['p'].rsplit('::', 1)[-1]
            if last == 'PhantomData':
                return
            if t['p'].startswith('numeric_') and self.p.adts.get(t['p']) and self.p.adts[t['p']]['crate'] == self.p.crate:
                inner = self.adt(t['p'])
                gens = self.p.adts[t['p']]['gens']
                targs_ = [a for a in t['a'] if isinstance(a, int)]
                for g, a in zip(gens, targs_):
                    for (m, c) in list(inner.get(g, ())):
                        self.walk(a, 'shared' if m == 'shared' else mode, cell or c, out)
            else:
                c = cell or last in ('UnsafeCell', 'Atomic', 'Cell', 'RefCell', 'Mutex', 'RwLock', 'OnceCell')
                m = 'shared' if last in ('Arc', 'Rc') else mode
                for a in t['a']:
                    if isinstance(a, int):
                        self.walk(a, m, c, out)
        elif k in ('array', 'slice'):
            self.walk(t['e'], mode, cell, out)
        elif k == 'tuple':
            for a in t['a']:
                self.walk(a, mode, cell, out)


def run():
    rep = Report('P17', RULE, ['the fields of a type are the only content it gives access to'])
    n = 0
    for cr in CRATES:
        prog = facts.load(cr)
        acc = Access(prog)
        table = {}
        for path, par, env, sd, sy in prog.assumes:
            table.setdefault((path, par), {})[env] = (sd, sy)
        exch = set()
        for path in sorted({p for p, _ in table}):
            acc.adt(path)
        # types whose content is exchanged through a shared reference
        for path in sorted({p for p, _ in table}):
            if path in acc.unsafe and any(c for m in acc.memo[path].values() for _, c in m) or any(
                    prog.ty(f['t']).get('p', '').endswith('::UnsafeCell') for v in (prog.adts.get(path) or NO)['v'] for f in v['f']):
                exch.add(path)
        for _ in range(3):
            for path in {p for p, _ in table}:
                for v in (prog.adts.get(path) or NO)['v']:
                    for f in v['f']:
                        t = prog.ty(f['t'])
                        if t['k'] == 'adt' and t['p'] in exch:
                            exch.add(path)
        for (path, par), env in sorted(table.items()):
            short = path.rsplit('::', 1)[-1]
            modes = acc.memo[path].get(par, set())
            rep.saw(path)
            if not modes:
                continue
            n += 1
            own = any(m == 'own' for m, _ in modes)
            shared = any(m == 'shared' for m, _ in modes)
            at = acc.unsafe.get(path, {})
            where_ = '%s %s' % (path, ' '.join(at.values()))
            fl = lambda i, envs: [e for e in envs if env[e][i]]

            def ob(what, bad, rule):
                rep.ob('%s<%s>: %s' % (short, par, what), 'VIOLATED' if bad else 'HOLD', where_, rule,
                       {'holds although %s is only' % par: bad} if bad else None)
            ob('shared only if %s is Sync' % par, fl(1, ('none', 'send')), 'a type giving shared access to its content is Sync only if the content is')
            if own:
                ob('sent only if %s is Send' % par, fl(0, ('none', 'sync')), 'a type owning its content is Send only if the content is')
            if shared:
                ob('sent only if %s is Sync' % par, fl(0, ('none', 'send')), 'a type sharing its content is Send only if the content is Sync')
            if path in exch and own:
                ob('shared only if %s is Send' % par, fl(1, ('none', 'sync')), 'content moved in or out through a shared reference must be Send')
            if short in VALUES:
                rep.ob('%s<%s>: usable across threads' % (short, par), 'HOLD' if env['both'] == (True, True) else 'VIOLATED', where_,
                       'a value type is Send and Sync when its content is', None if env['both'] == (True, True) else {'Send': env['both'][0], 'Sync': env['both'][1]})
        for path, probe, sd, sy in prog.autos:
            short = path.rsplit('::', 1)[-1]
            if probe == 'plain' and short in VALUES and not any(p == path for p, _ in table):
                rep.saw(path)
                rep.ob('%s: usable across threads' % short, 'HOLD' if sd and sy else 'VIOLATED', path, 'a value type is Send and Sync', {'Send': sd, 'Sync': sy})
    rep.floor('generic types', n, 10)
    return rep
