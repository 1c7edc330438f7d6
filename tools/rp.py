"""rp.py <crate> <path-regex>: print the summary of functions"""
import sys, re
sys.path.insert(0, '/verif')
from props.common import *
prog = facts.load(sys.argv[1])
for b in prog.roots:
    if re.search(sys.argv[2], b.path):
        r, err = analyse(prog, b)
        print('==', b.path, b.j.get('itrait', ''), err or '')
        if r:
            print(' ret', show(r.ret, 14)[:900])
            for i, a in enumerate(r.engine.args):
                print('  arg', i, show(a, 3)[:80])
                from props.bitsc import final
                try:
                    print('    fin', show(final(r, b, i), 14)[:900])
                except Exception as ex:
                    pass
            for c, kd, w in r.panics:
                if c is not FALSE: print('  panic', kd, show(c, 8)[:200])
            for L in r.loops.values():
                print('  LOOP', L.id)
                for kk, (p, i, s) in L.phis.items(): print('    phi', show(p, 2)[:60], ':=', show(i, 6)[:160], '->', show(s, 12)[:400])
                for e in L.exits: print('    exit', show(e[0], 8)[:300])
            print("  calls", sorted({c[0] for c in r.calls})[:12])
