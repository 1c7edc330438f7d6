#!/usr/bin/env python3
"""check.py <property id> | setup"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
import threading
threading.stack_size(512 * 1024 * 1024)


ONCE = ('P11', 'P17', 'P25', 'P26')     # P11 analyses both builds itself; the others are about types


# obligations of another property that this one rests on: (property, functions).  A big integer sum is right only if the limb sum is.
RESTS = {
    'P11': [('P04', r'Element(Add|Sub)::(add|sub)_|ElementMul::add_item'), ('P05', r'ElementMul::mul_'), ('P07', r'BitwiseDiv::(div|rem)_long_'),
            ('P09', r'Element(Shl|Shr)::(?!sh[lr] )')],
    'P14': [('P06', r'ElementCmp::')],
    'P15': [('P04', r'Element(Add::add|Sub::sub|Mul::add_item|Not::not) |::shrink'), ('P05', r'ElementMul::mul '), ('P07', r'BitwiseDiv::div_long '),
            ('P09', r'ElementSh[lr]::sh[lr] |ElementBit')],
    'P16': [('P12', r'(int_to_arr|arr_to_int):')],
}


def start_rests(what):
    import subprocess
    import tempfile
    from sa import facts
    if what not in RESTS or os.environ.get('SA_DEBUG'):
        return []
    facts.extract()                 # once, not once per process
    out = []
    for pid, pat in RESTS[what]:
        fd, f = tempfile.mkstemp(prefix='sa-pass-')
        os.close(fd)
        out.append((pid, pat, f, subprocess.Popen([sys.executable, os.path.abspath(__file__), pid, '--pass', 'debug', f],
                                                  stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
    return out


def merge_rests(rep, rests):
    import json
    import re
    for pid, pat, f, p in rests:
        try:
            p.wait(600)
            obs = [o for o in json.load(open(f)) if re.search(pat, o[0])]
        except Exception:
            p.kill()
            continue
        finally:
            os.remove(f)
        rep.count('obligations of %s this rests on' % pid, sum(o[1] == 'HOLD' for o in obs))
        for o in obs:
            if o[1] == 'VIOLATED':
                rep.ob('rests on %s: %s' % (pid, o[0]), *o[1:])


def start_second(what):
    """the same obligations over the program built without debug assertions, in a process of its own"""
    import subprocess
    import tempfile
    if what in ONCE or os.environ.get('SA_DEBUG'):
        return None
    fd, out = tempfile.mkstemp(prefix='sa-pass-')
    os.close(fd)
    return out, subprocess.Popen([sys.executable, os.path.abspath(__file__), what, '--pass', 'ndebug', out],
                                 stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def second(mod, profile, out):
    import json
    from sa import facts
    from sa.report import Report
    facts.DEFAULT = profile
    try:
        rep = mod.run()
    except Exception:
        rep = Report.last
        if rep is None:
            return 2
    with open(out, 'w') as f:
        json.dump(rep.obs, f, default=str)
    return 0


def merge(rep, other):
    if other is None:
        return
    import json
    out, p = other
    try:
        p.wait(700)
        obs = json.load(open(out))
    except Exception:
        p.kill()
        rep.ob('without debug assertions', 'UNDECIDED', '-', rep.rule, 'second pass gave no result')
        return
    finally:
        os.remove(out)
    bad = {o[0] for o in rep.obs if o[1] == 'VIOLATED'}
    rep.count('obligations decided again without debug assertions', sum(o[1] == 'HOLD' for o in obs))
    for o in obs:
        if o[1] == 'VIOLATED' and o[0] not in bad:
            rep.ob(o[0] + ' [debug assertions off]', *o[1:])


def main():
    from sa import facts
    what = sys.argv[1]
    if what == 'setup':
        facts.build_driver()
        print('driver ready')
        return 0
    mod = importlib.import_module('props.' + what.lower())
    if len(sys.argv) > 3 and sys.argv[2] == '--pass':
        return second(mod, sys.argv[3], sys.argv[4])
    try:
        rests = start_rests(what)
    except facts.FactError as e:
        print('error: %s' % e)
        return 2
    other = start_second(what)
    try:
        rep = mod.run()
        merge(rep, other)
        merge_rests(rep, rests)
        return rep.finish()
    except facts.FactError as e:
        print('error: %s' % e)
        return 2
    except Exception:
        from sa.report import Report
        if os.environ.get('SA_DEBUG') or Report.last is None:
            traceback.print_exc()
            return 2
        try:
            merge(Report.last, other)
            merge_rests(Report.last, rests)
        except Exception:
            pass
        # a construct the analysis cannot handle: what was decided until there stands, the rest is undecided
        return Report.last.abort(traceback.format_exc(limit=-3))


def bound_memory(gb=9):
    """running out of memory is an exception (undecided), not the end of the process"""
    import resource
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (gb << 30, hard))


if __name__ == '__main__':
    rc = [2]
    bound_memory()

    def go():
        rc[0] = main()
    t = threading.Thread(target=go)
    t.start()
    t.join(800)
    if t.is_alive():
        from sa.report import Report
        if Report.last is not None:
            rc[0] = Report.last.abort('out of time')
    sys.stdout.flush()
    os._exit(rc[0])
