"""irp.py <path-regex> [limb] [kind]: print the summary of instantiated numeric_bits functions"""
import sys, re, os
sys.path.insert(0, '/verif')
from props.common import *
prog = facts.load('numeric_bits')
pat, limb, kind = sys.argv[1], (sys.argv[2:3] or ['u8'])[0], (sys.argv[3:4] or [None])[0]
for b, l, k in prog.iroots:
    if re.search(pat, b.path) and l == limb and (kind is None or k == kind):
        r, err = analyse(prog, b)
        print('==', b.path, k, err or '')
        if r:
            print(' ret', show(r.ret, 14)[:700])
            for i, a in enumerate(r.engine.args):
                print('  arg', i, show(a, 3)[:80])
                try:
                    from props.bitsc import final
                    f = final(r, b, i)
                    print('    fin', show(f, 14)[:900])
                except Exception as ex:
                    pass
            for c, kd, w in r.panics:
                if c is not FALSE: print('  panic', kd, show(c, 8)[:200])
            for L in r.loops.values():
                print('  LOOP', L.id, 'trip', getattr(L, 'n', None))
                for kk, (p, i, s) in L.phis.items(): print('    phi', show(p, 2)[:60], ':=', show(i, 6)[:160], '->', show(s, 12)[:400])
                for e in L.exits: print('    exit', show(e[0], 8)[:300])
