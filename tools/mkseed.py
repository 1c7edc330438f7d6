#!/usr/bin/env python3
"""mkseed.py <spec.py>...   builds /verif/seeded/<id>/ from a spec and confirms it in a scratch copy of /repo.
A spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (main.rs text), and for a misuse the compiler must refuse BAD (bad.rs text)."""
import json, os, subprocess, sys, shutil
W = '/tmp/seedwork'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR='/tmp/seedtarget',
           CARGO_INCREMENTAL='1', CARGO_TERM_COLOR='never')
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def tests(cwd):
    o = sh('cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8', cwd=cwd, env=ENV).stdout
    ok = {l.split()[1] for l in o.splitlines() if l.startswith('test ') and l.rstrip().endswith('... ok')}
    bad = [l for l in o.splitlines() if (l.startswith('test ') and 'FAILED' in l) or l.startswith('error')]
    return ok, bad
def main(specs):
    shutil.rmtree(W, ignore_errors=True)
    sh('cp -a /repo %s' % W); shutil.rmtree(W + '/target', ignore_errors=True)
    base, _ = tests(W)
    print('baseline', len(base))
    for s in specs:
        g = {}
        exec(open(s).read(), g)
        sh('git checkout -- . && git clean -fdq -e target', cwd=W)
        for f, old, new in g['EDITS']:
            p = os.path.join(W, f); t = open(p).read()
            assert t.count(old) >= 1, (s, f, old)
            n = g.get('COUNT', 1)
            assert t.count(old) == n or n == 0, (s, f, old, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git diff', cwd=W).stdout
        d = '/verif/seeded/' + g['ID']
        tmp = '/tmp/seedout'; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        open(tmp + '/patch.diff', 'w').write(diff)
        open(tmp + '/main.rs', 'w').write(g['DEMO'])
        shutil.copy('/verif/tools/demo_reject.sh' if 'BAD' in g else '/verif/tools/demo_template.sh', tmp + '/demo.sh')
        if 'BAD' in g:
            open(tmp + '/bad.rs', 'w').write(g['BAD'])
        if g.get('RELEASE'):
            t = open(tmp + '/demo.sh').read()
            open(tmp + '/demo.sh', 'w').write(t.replace('cargo run --offline', 'cargo run --release --offline'))
        os.chmod(tmp + '/demo.sh', 0o755)
        json.dump({'property': g['PROPERTY'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(tmp + '/meta.json', 'w'), indent=1)
        ok, bad = tests(W)
        miss = base - ok
        r1 = sh('bash %s/demo.sh' % tmp, cwd=W)
        sh('git checkout -- .', cwd=W)
        r0 = sh('bash %s/demo.sh' % tmp, cwd=W)
        good = not miss and not [x for x in bad if x.startswith('error')] and r0.returncode == 0 and r1.returncode != 0
        compile_err = 'could not compile' in r1.stdout
        print(g['ID'], g['PROPERTY'], 'OK' if good and not compile_err else 'REJECTED', 'missing:', sorted(miss)[:5], 'demo', r0.returncode, r1.returncode)
        if not good or compile_err:
            print(bad[:5], r0.stdout[-1500:] if r0.returncode else '', r1.stdout[-1200:])
            continue
        print('   ', r1.stdout.strip().splitlines()[-3:])
        shutil.rmtree(d, ignore_errors=True); os.makedirs('/verif/seeded', exist_ok=True)
        shutil.move(tmp, d)
    shutil.rmtree(W, ignore_errors=True)
main(sys.argv[1:])
