#!/usr/bin/env python3
"""self-test of the checks: mut.py [-p Pxx] [name-substring]
applies each edit of tools/muts/*.py to a scratch copy of /repo and runs the check on it.
kind 'bug' must be reported (exit 1), kind 'ref' (behaviour-preserving) must be quiet (exit 0)."""
import glob, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
muts = []


def load():
    for f in sorted(glob.glob(os.path.join(V, 'tools', 'muts', '*.py'))):
        ns = {}
        exec(open(f).read(), ns)
        muts.extend(ns['MUTS'])


def one(m):
    pid, kind, name, edits = m
    d = '/tmp/mut/%s-%s' % (pid, name.replace(' ', '_').replace('/', '_'))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs('/tmp/mut', exist_ok=True)
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('target', '.git'))
    try:
        for f, old, new, *cnt in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if old not in s:
                return m, 'NOMATCH', f
            k = cnt[0] if cnt else 1
            if k == 0:
                s = s.replace(old, new)
            else:
                # k-th occurrence
                parts = s.split(old)
                s = old.join(parts[:k]) + new + old.join(parts[k:])
            open(p, 'w').write(s)
        env = dict(os.environ, SA_REPO=d, SA_NOKEEP='1')
        r = subprocess.run([sys.executable, os.path.join(V, 'check.py'), pid], env=env, capture_output=True, text=True, timeout=900)
        return m, r.returncode, r.stdout[-1500:] + r.stderr[-1500:]
    except subprocess.TimeoutExpired:
        return m, 'TIMEOUT', ''
    finally:
        if not os.environ.get('KEEP'):
            shutil.rmtree(d, ignore_errors=True)


def main():
    load()
    args = sys.argv[1:]
    pid = None
    if args and args[0] == '-p':
        pid = args[1]
        args = args[2:]
    sel = [m for m in muts if (pid is None or m[0] == pid) and (not args or args[0] in m[2])]
    bad = 0
    with ThreadPoolExecutor(4) as ex:
        for m, rc, out in ex.map(one, sel):
            want = 1 if m[1] == 'bug' else 0
            ok = rc == want
            bad += not ok
            print('%-4s %s %-4s %-50s rc=%s' % ('ok' if ok else 'MISS' if m[1] == 'bug' else 'ALARM', m[0], m[1], m[2], rc))
            if not ok or os.environ.get('V'):
                print('      ' + '\n      '.join(out.strip().split('\n')[:14])[:1800])
            sys.stdout.flush()
    print('%d run, %d unexpected' % (len(sel), bad))


main()
