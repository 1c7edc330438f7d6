"""Extraction of the type-checked program: builds the rustc_private driver when needed, runs it
over /repo's current working tree under `cargo +nightly check`, and loads the dumped facts."""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

from . import term

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
PKGS = ['numeric', 'numeric-utils', 'numeric-bits', 'numeric-traits', 'numeric-static-iter',
        'numeric-ints', 'numeric-reals', 'numeric-compounds']
CRATES = ['numeric_utils', 'numeric_traits', 'numeric_bits', 'numeric_ints', 'numeric_reals',
          'numeric_compounds', 'numeric_static_iter']


class FactError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    e.setdefault('HOME', '/root')
    e['CARGO_NET_OFFLINE'] = 'true'
    for k in ('RUSTC_WRAPPER', 'RUSTFLAGS', 'RUSTUP_TOOLCHAIN', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WORKSPACE_WRAPPER'):
        e.pop(k, None)
    return e


def sysroot():
    return subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], env=_env(), text=True).strip()


def unbound_memory():
    import resource
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (hard, hard))


def build_driver():
    src = os.path.join(VERIF, 'driver', 'main.rs')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(CACHE, 'driver-' + h)
    if os.path.exists(out):
        return out
    os.makedirs(CACHE, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=CACHE)
    o = os.path.join(tmp, 'drv')
    r = subprocess.run(['rustc', '+nightly', '-O', '--edition', '2021', '-Awarnings', src, '-o', o],
                       env=_env(), capture_output=True, text=True)
    if r.returncode:
        raise FactError('driver build failed:\n' + r.stderr[-4000:])
    os.replace(o, out)
    shutil.rmtree(tmp, ignore_errors=True)
    return out


def tree_hash(repo):
    h = hashlib.sha256()
    files = []
    for base, ds, fs in os.walk(repo):
        ds[:] = [d for d in ds if d not in ('.git', 'target')]
        for f in fs:
            if f.endswith(('.rs', '.toml', '.lock', '.md')):
                files.append(os.path.join(base, f))
    for f in sorted(files):
        h.update(os.path.relpath(f, repo).encode())
        h.update(b'\0')
        h.update(open(f, 'rb').read())
        h.update(b'\0')
    for f in (os.path.join(VERIF, 'driver', 'main.rs'),):
        h.update(open(f, 'rb').read())
    return h.hexdigest()[:24]


def _mtime(p):
    try:
        return os.path.getmtime(p)
    except OSError:                 # removed by a check running at the same time
        return 0.0


def extract(profile='debug', repo=None):
    """returns the directory with the per-crate fact files for the current tree"""
    repo = repo or REPO
    out = os.path.join(CACHE, 'facts-%s-%s' % (tree_hash(repo), profile))
    if os.path.exists(os.path.join(out, 'done')):
        return out
    drv = build_driver()
    os.makedirs(CACHE, exist_ok=True)
    # keep only a few fact sets
    old = sorted((os.path.join(CACHE, d) for d in os.listdir(CACHE) if d.startswith('facts-')), key=_mtime)
    for d in old[:-6]:
        shutil.rmtree(d, ignore_errors=True)
    tmp = tempfile.mkdtemp(dir=CACHE, prefix='tmp-')
    try:
        fo = os.path.join(tmp, 'facts')
        os.makedirs(fo)
        e = _env()
        e['LD_LIBRARY_PATH'] = os.path.join(sysroot(), 'lib')
        e['FACTS_OUT'] = fo
        e['RUSTC_WORKSPACE_WRAPPER'] = drv
        e['CARGO_TARGET_DIR'] = os.path.join(tmp, 'target')
        e['CARGO_INCREMENTAL'] = '0'
        cmd = ['cargo', '+nightly', 'check', '--offline', '--all-features']
        for p in PKGS:
            cmd += ['-p', p]
        if profile == 'release':
            cmd.append('--release')
        if profile == 'ndebug':     # as debug, but with debug assertions compiled out
            e['CARGO_PROFILE_DEV_DEBUG_ASSERTIONS'] = 'false'
            e['CARGO_PROFILE_DEV_OVERFLOW_CHECKS'] = 'true'
        r = subprocess.run(cmd, cwd=repo, env=e, capture_output=True, text=True, preexec_fn=unbound_memory)
        if r.returncode:
            raise FactError('cargo check under the driver failed:\n' + r.stderr[-6000:])
        for c in CRATES:
            if not os.path.exists(os.path.join(fo, c + '.json')):
                raise FactError('no facts for crate ' + c)
        open(os.path.join(fo, 'done'), 'w').write('ok')
        try:
            os.rename(fo, out)
        except OSError:
            pass
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


class Body:
    __slots__ = ('id', 'crate', 'j', 'argc', 'locals', 'names', 'blocks', 'prog', 'path', 'name',
                 'promoted', '_loops', 'spread', 'kind', '_cfg')

    def __init__(self, prog, j, promoted_of=None):
        self.prog = prog
        self.j = j
        self.id = j.get('id')
        self.argc = j['argc']
        self.locals = j['locals']
        self.names = dict((a, b) for a, b in j['names'])
        self.blocks = j['blocks']
        self.path = j.get('path') or (promoted_of.path + '::promoted' if promoted_of else '?')
        self.name = j.get('name', '')
        self.kind = j.get('kind', '')
        self.spread = j.get('spread', -1)
        self.promoted = [Body(prog, p, self) for p in j.get('promoted', [])]
        self._loops = None
        self._cfg = None

    @property
    def span(self):
        s = self.j.get('span', '?')
        return s

    def local_ty(self, i):
        return self.prog.types[self.locals[i]]

    def where(self):
        return '%s (%s)' % (self.path, short_span(self.span))


def short_span(s):
    i = s.find('crates/')
    return s[i:] if i >= 0 else s


class Prog:
    """facts of one crate (self-contained: includes instantiated callees)"""

    def __init__(self, path):
        d = json.load(open(path))
        self.crate = d['crate']
        self.types = d['types']
        self.adts = d['adts']
        for k, v in d['adts'].items():
            if v:
                term.ADTS.setdefault(k, v)
        self.impls = d['impls']
        self.autos = d['autos']
        self.assumes = d.get('assumes', [])
        self.bodies = {}
        for j in d['bodies']:
            self.bodies[j['id']] = Body(self, j)
        self.roots = [self.bodies[int(r)] for r in d['roots'] if int(r) in self.bodies]
        self.iroots = [(self.bodies[k], limb, sk) for k, limb, sk in d.get('iroots', []) if k in self.bodies]
        self.by_path = {}
        for b in self.roots:
            self.by_path.setdefault(b.path, b)

    def ty(self, i):
        return self.types[i]

    def tys(self, i):
        return self.types[i]['s']

    def roots_named(self, name, itrait=None, self_=None):
        r = []
        for b in self.roots:
            if b.name != name:
                continue
            if itrait is not None and not (b.j.get('itrait') or b.j.get('dtrait') or '').endswith(itrait):
                continue
            if self_ is not None:
                if 'iself' not in b.j or not self_match(self.tys(b.j['iself']), self_):
                    continue
            r.append(b)
        return r


def self_match(s, pat):
    if callable(pat):
        return pat(s)
    return s == pat or s.endswith('::' + pat)


_progs = {}


DEFAULT = 'debug'


def load(crate, profile=None, repo=None):
    profile = profile or DEFAULT
    k = (crate, profile, repo or REPO)
    if k not in _progs:
        d = extract(profile, repo)
        _progs[k] = Prog(os.path.join(d, crate + '.json'))
    return _progs[k]
