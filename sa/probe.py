import sys
from . import facts, engine, models
from .term import *
def main():
    crate, rx = sys.argv[1], sys.argv[2]
    prof = sys.argv[3] if len(sys.argv) > 3 else 'debug'
    import re
    p = facts.load(crate, prof)
    n=0
    import os
    rs = [b for b, l, k in p.iroots if l + k == os.environ['INST']] if 'INST' in os.environ else p.roots
    for b in rs:
        if re.search(rx, b.path):
            n+=1
            print('==', b.path, facts.short_span(b.span))
            e = engine.Engine(p, models.Models())
            try:
                r = e.run(b)
            except engine.Undecided as u:
                print('   UNDECIDED', u); continue
            print('   ret', r.ret)
            print('   cond', r.cond)
            for k,v in (r.state.m if r.state else {}).items():
                if k[0]=='mem': print('   mem', show(k[1]), '=', v)
            for x in r.panics: print('   panic', x)
            for x in r.unsafe_ops: print('   unsafe', x)
            for x in r.calls: print('   opaque', x[0], [show(y,4) for y in x[3]])
            for l in r.loops.values(): print('   ',l)
            if n>=int(sys.argv[4] if len(sys.argv)>4 else 10): break
main()
