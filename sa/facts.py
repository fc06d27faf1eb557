"""Extraction and loading of MIR facts for the workspace in /repo."""
import glob, json, os, re, subprocess, sys, fcntl, shutil, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('TLDR_REPO', '/repo')
CACHE = os.environ.get('TLDR_SA_CACHE', os.path.join(VERIF, '.cache'))
DRIVER = os.path.join(VERIF, 'driver', 'target', 'debug', 'tldr-facts')
REQUIRED = ['treeldr_layouts', 'tldr', 'treeldr', 'treeldr_gen_rust', 'treeldr_macros', 'main']


def _env():
    env = dict(os.environ)
    sysroot = subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()
    env['LD_LIBRARY_PATH'] = sysroot + '/lib'
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET', 'RUSTUP_TOOLCHAIN', 'RUSTC'):
        env.pop(k, None)
    env['CARGO_NET_OFFLINE'] = 'true'
    env['CARGO_INCREMENTAL'] = '0'
    env['CARGO_TERM_COLOR'] = 'never'
    return env


def build_driver():
    env = _env()
    r = subprocess.run(['cargo', '+nightly', 'build', '--offline', '--locked', '-q'], cwd=os.path.join(VERIF, 'driver'), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout)
        raise SystemExit(2)


class BuildError(Exception):
    pass


def _lockfile():
    # Cargo.lock is not tracked in /repo; restore it the way the build does.
    lock = os.path.join(REPO, 'Cargo.lock')
    if not os.path.exists(lock) and os.path.exists('/opt/vp/Cargo.lock'):
        shutil.copy('/opt/vp/Cargo.lock', lock)


def _check(env, target, out, cwd, extra):
    env = dict(env)
    env['CARGO_TARGET_DIR'] = target
    env['TLDR_FACTS_DIR'] = out
    env['RUSTC_WORKSPACE_WRAPPER'] = DRIVER
    subprocess.run(['cargo', '+nightly', 'clean', '--offline', '--workspace'] , cwd=cwd, env=env,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = subprocess.run(['cargo', '+nightly', 'check', '--offline'] + extra, cwd=cwd, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r


def tree_hash():
    """Hash of everything the compiler reads: /repo's working tree (without
    .git and build output), the lock file and the driver's own source."""
    import hashlib
    h = hashlib.sha256()
    for root in (REPO, os.path.join(VERIF, 'driver'), os.path.join(VERIF, 'witness')):
        for d, ds, fl in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ('.git', 'target', 'node_modules'))
            for f in sorted(fl):
                q = os.path.join(d, f)
                if os.path.islink(q) or not os.path.isfile(q):
                    continue
                h.update(os.path.relpath(q, root).encode() + b'\0')
                with open(q, 'rb') as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def extract():
    """MIR facts of /repo's working tree: crate -> facts.  The compiler is run
    unless the very same tree (by content) was extracted just before."""
    import pickle
    os.makedirs(CACHE, exist_ok=True)
    _lockfile()
    h = tree_hash()
    pk = os.path.join(CACHE, 'facts-%s.pkl' % h)
    if os.path.exists(pk):
        try:
            with open(pk, 'rb') as f:
                return pickle.load(f)
        except Exception:
            os.unlink(pk)
    crates = compile_facts()
    if tree_hash() == h:
        for old in glob.glob(os.path.join(CACHE, 'facts-*.pkl')):
            if os.path.getmtime(old) < os.path.getmtime(CACHE) - 3600:
                os.unlink(old)
        with open(pk + '.tmp', 'wb') as f:
            pickle.dump(crates, f)
        os.rename(pk + '.tmp', pk)
    return crates


def drop_cache():
    for old in glob.glob(os.path.join(CACHE, 'facts-*.pkl')):
        os.unlink(old)


def compile_facts():
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_driver()
        _lockfile()
        env = _env()
        for attempt in range(2):
            out = os.path.join(CACHE, 'facts')
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            target = os.path.join(CACHE, 'target')
            r = _check(env, target, out, REPO, ['--workspace', '--all-features'])
            got = {os.path.basename(f).rsplit('-', 1)[0] for f in glob.glob(out + '/*.json')}
            missing = [c for c in REQUIRED if c not in got]
            if r.returncode == 0 and not missing:
                break
            if attempt == 0 and r.returncode == 0:
                shutil.rmtree(target, ignore_errors=True)   # stale cache: wrapper skipped
                continue
            raise BuildError('cargo check failed or facts missing %s\n%s' % (missing, r.stdout[-4000:]))
        crates = {}
        for f in sorted(glob.glob(out + '/*.json'), key=lambda f: -os.path.getsize(f)):
            name = os.path.basename(f).rsplit('-', 1)[0]
            if name in crates:
                continue
            with open(f) as h:
                crates[name] = json.load(h)
        shutil.rmtree(out, ignore_errors=True)
        crates.update(_witness(env, target))
        return crates


def _packages():
    """Names of the packages of the workspace, from their manifests."""
    r = set()
    for d, ds, fl in os.walk(REPO):
        ds[:] = [x for x in ds if x not in ('.git', 'target', 'node_modules')]
        if 'Cargo.toml' in fl:
            m = re.search(r'^\s*\[package\][^\[]*?^\s*name\s*=\s*"([^"]+)"', open(os.path.join(d, 'Cargo.toml')).read(), re.M | re.S)
            if m:
                r.add(m.group(1))
    return sorted(r)


def _witness(env, target):
    """Facts of the witness crate: types whose serializers and deserializers
    the repository's derive macros generate.  If the generated code does not
    compile, the facts are the compiler's errors."""
    src = os.path.join(VERIF, 'witness')
    d = os.path.join(CACHE, 'witness')
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(src, d)
    with open(os.path.join(src, 'Cargo.toml.in')) as h, open(os.path.join(d, 'Cargo.toml'), 'w') as o:
        o.write(h.read().replace('@REPO@', REPO))
    shutil.copy(os.path.join(REPO, 'Cargo.lock'), os.path.join(d, 'Cargo.lock'))
    env = dict(env)
    env['CARGO_TARGET_DIR'] = target
    subprocess.run(['cargo', '+nightly', 'clean', '--offline'] + [a for p in _packages() for a in ('-p', p)], cwd=d, env=env,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    out = os.path.join(CACHE, 'facts-witness')
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    r = _check(env, target, out, d, ['--keep-going'])
    fs = glob.glob(out + '/tldr_witness-*.json')
    if r.returncode != 0 or not fs:
        errs = re.findall(r'^error[^\n]*\n(?:[^\n]*\n){0,3}', r.stdout, re.M)
        res = {'witness_errors': errs[:8] or [r.stdout[-2000:]]}
    else:
        with open(fs[0]) as h:
            res = {'tldr_witness': json.load(h)}
    shutil.rmtree(out, ignore_errors=True)
    return res


class Fn:
    __slots__ = ('j', '_stages', 'path', 'name', 'h', 'kind', 'mir', 'crate', 'span', 'self_adt', 'trait', 'trait_ref', 'derived',
                 'promoted', 'root', 'parent', '_live', '_rpo', 'canon', 'self_ty', 'pub', 'in_trait', '_mutb', 'heads', 'counters', 'loops')

    def __init__(self, j, crate):
        self.j = j
        self.crate = crate
        self.path = j['path']
        self.name = j['name']
        self.h = j['h']
        self.kind = j['kind']
        self.mir = j['mir']
        self.span = j['span']
        self.self_adt = j.get('self_adt')
        self.self_ty = j.get('self')
        self.trait = j.get('trait')
        self.trait_ref = j.get('trait_ref')
        self.derived = j.get('derived', False)
        self.promoted = j.get('promoted', [])
        self.root = j.get('root')
        self.parent = j.get('parent')
        self.pub = j.get('pub', False)
        self.in_trait = j.get('in_trait')
        self._live = None
        self._rpo = None
        self._mutb = None

    def __repr__(self):
        return 'Fn(%s)' % self.path


def last(p):
    """Last path segment without generics."""
    p = strip_generics(p)
    return p.rsplit('::', 1)[-1]


_gen = re.compile(r'::<[^<>]*>')


def strip_generics(p):
    # remove balanced <...> groups that follow '::' or an identifier
    out = []
    depth = 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == '<':
            depth += 1
        elif c == '>' and not (i and p[i - 1] == '-'):
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    s = ''.join(out)
    while '::::' in s:
        s = s.replace('::::', '::')
    return s.rstrip(':')


class Program:
    def __init__(self, crates):
        self.crates = crates = dict(crates)
        self.witness_errors = crates.pop('witness_errors', None)
        self.by_hash = {}
        self.by_path = {}
        self.fns = []
        self.adts = {}
        self.impls = []
        self.traits = {}
        for cname, c in crates.items():
            for j in c['fns']:
                f = Fn(j, cname)
                self.fns.append(f)
                self.by_hash[f.h] = f
                self.by_path.setdefault(f.path, []).append(f)
            for a in c['adts']:
                self.adts.setdefault(a['path'], a)
            for i in c['impls']:
                i['crate'] = cname
                self.impls.append(i)
            for t in c['traits']:
                self.traits[t['path']] = t
        self.closures_of = {}
        for f in self.fns:
            if f.kind == 'closure':
                self.closures_of.setdefault(f.root, []).append(f)

    def lookup(self, ref):
        """Function body for a resolved callee reference, or None."""
        for hk, pk in (('rh', 'rpath'), ('h', 'path')):
            h = ref.get(hk)
            if h is None:
                continue
            f = self.by_hash.get(h)
            if f is not None:
                return f
            l = self.by_path.get(ref.get(pk))
            if l and len(l) == 1:
                return l[0]
        return None

    def find(self, crate=None, name=None, adt=None, trait=None, in_trait=None, path=None, kind=None):
        out = []
        for f in self.fns:
            if f.kind == 'closure' and kind != 'closure':
                continue
            if crate and f.crate != crate:
                continue
            if name and f.name != name:
                continue
            if adt and (f.self_adt is None or last(f.self_adt) != adt and f.self_adt != adt):
                continue
            if trait is not None:
                if trait is False:
                    if f.trait:
                        continue
                elif f.trait is None or (last(f.trait) != trait and f.trait != trait):
                    continue
            if in_trait and (f.in_trait is None or last(f.in_trait) != in_trait):
                continue
            if path and f.path != path and not f.path.endswith('::' + path):
                continue
            out.append(f)
        return out
