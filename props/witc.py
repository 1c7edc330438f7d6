"""Compile-fail witnesses: small client programs type- and borrow-checked (never run) against the
metadata of /repo's crates.  Each comes with a control that differs only in the contested point and must
be accepted, so that a refusal is for the reason the witness is about."""
import json
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

from sa import facts
from sa.report import Report

LIBS = ['numeric_utils', 'numeric_traits', 'numeric_bits', 'numeric_ints', 'numeric_reals', 'numeric_compounds', 'numeric_static_iter']


class Wit:
    """name: key; where: anchor; rule; good: accepted program; bad: program that must be refused;
    codes: the error codes that are the refusal this witness is about ('' = an error without code)"""

    def __init__(self, name, where, rule, good, bad, codes):
        self.name, self.where, self.rule, self.good, self.bad, self.codes = name, where, rule, good, bad, set(codes.split())


def build(tmp):
    """type-check the crates and return (extern name -> rmeta, dependency directories)"""
    e = facts._env()
    e['CARGO_TARGET_DIR'] = os.path.join(tmp, 'target')
    e['CARGO_INCREMENTAL'] = '0'
    cmd = ['cargo', '+nightly', 'check', '--offline', '--all-features', '--message-format=json']
    for p in facts.PKGS:
        cmd += ['-p', p]
    r = subprocess.run(cmd, cwd=facts.REPO, env=e, capture_output=True, text=True, preexec_fn=facts.unbound_memory)
    if r.returncode:
        raise facts.FactError('cargo check failed:\n' + r.stderr[-4000:])
    ext, dirs = {}, set()
    for line in r.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get('reason') == 'compiler-artifact':
            for f in m['filenames']:
                if f.endswith(('.rmeta', '.rlib', '.so')):
                    dirs.add(os.path.dirname(f))
                if f.endswith('.rmeta') and m['target']['name'].replace('-', '_') in LIBS:
                    ext[m['target']['name'].replace('-', '_')] = f
    return ext, sorted(dirs)


def compile_(tmp, ext, deps, i, src):
    """(accepted, set of error codes, first message)"""
    f = os.path.join(tmp, 'w%d.rs' % i)
    open(f, 'w').write('#![allow(warnings)]\n' + src)
    cmd = ['rustc', '+nightly', '--edition', '2021', '--crate-type=lib', '--crate-name', 'w%d' % i, '--emit=metadata',
           '--out-dir', tmp, '--error-format=json']
    for d in deps:
        cmd += ['-L', 'dependency=' + d]
    for k, v in ext.items():
        cmd += ['--extern', '%s=%s' % (k, v)]
    cmd.append(f)
    r = subprocess.run(cmd, env=facts._env(), capture_output=True, text=True, preexec_fn=facts.unbound_memory, timeout=120)
    codes, first = set(), None
    for line in r.stderr.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get('level') == 'error' and not m['message'].startswith('aborting'):
            codes.add((m.get('code') or {}).get('code') or '-')
            first = first or m['message']
    return r.returncode == 0, codes, first


def run(pid, rule, wits, assumptions):
    rep = Report(pid, rule, assumptions)
    os.makedirs(facts.CACHE, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=facts.CACHE, prefix='tmp-wit-')
    try:
        ext, deps = build(tmp)
        jobs = []
        for w in wits:
            jobs.append(w.good)
            jobs.append(w.bad)
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda x: compile_(tmp, ext, deps, x[0], x[1]), enumerate(jobs)))
        for k, w in enumerate(wits):
            (gok, gc, gm), (bok, bc, bm) = res[2 * k], res[2 * k + 1]
            rep.saw(w.where)
            rep.count('client programs checked', 2)
            if not gok:
                rep.ob(w.name, 'UNDECIDED', w.where, w.rule, 'the control program is refused: %s' % gm)
            elif bok:
                rep.ob(w.name, 'VIOLATED', w.where, w.rule, 'this program is accepted: ' + ' '.join(w.bad.split()))
            elif bc & w.codes:
                rep.ob(w.name, 'HOLD', w.where, w.rule, 'refused: %s' % bm)
            else:
                rep.ob(w.name, 'UNDECIDED', w.where, w.rule, 'refused for another reason (%s): %s' % (' '.join(sorted(bc)), bm))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return rep
