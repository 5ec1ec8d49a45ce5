"""Builds: the MIR exporter, gecs itself from /repo's working tree (per feature/profile
configuration), and witness crates against such a build. Everything is written below
/verif/.build, keyed by the contents of the sources that went in."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('GECS_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
TARGET = 'x86_64-unknown-linux-gnu'
os.environ['PATH'] = '/root/.cargo/bin:' + os.environ.get('PATH', '')
for v in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_BUILD_TARGET', 'CARGO_TARGET_DIR',
          'RUSTUP_TOOLCHAIN', 'CARGO_ENCODED_RUSTFLAGS'):
    os.environ.pop(v, None)


class BuildError(Exception):
    pass


def tree_files():
    out = []
    for top in ('src', 'macros'):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git', 'tests'))
            for f in sorted(fs):
                out.append(os.path.join(d, f))
    for f in ('Cargo.toml', 'Cargo.lock', 'README.md'):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return out


def _hash_files(paths, root):
    h = hashlib.sha256()
    for p in paths:
        h.update(os.path.relpath(p, root).encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:16]


_key = None


def repo_key():
    global _key
    if _key is None:
        _key = _hash_files(tree_files(), REPO)
    return _key


class lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, name + '.lock')

    def __enter__(self):
        self.f = open(self.p, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()
    return _sysroot


def mirdump():
    src = os.path.join(VERIF, 'mirdump')
    files = [os.path.join(src, 'Cargo.toml'), os.path.join(src, 'src/main.rs')]
    exe = os.path.join(BUILD, 'mirdump-' + _hash_files(files, src))
    with lock('mirdump'):
        if not os.path.exists(exe):
            td = os.path.join(BUILD, 'mirdump-target')
            r = subprocess.run(['cargo', '+nightly', 'build', '--offline', '--target-dir', td,
                                '--config', 'profile.dev.opt-level=1', '--config', 'profile.dev.debug=false'],
                               cwd=src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise BuildError('mirdump does not build:\n' + r.stdout[-4000:])
            shutil.copy(os.path.join(td, 'debug', 'mirdump'), exe)
    return exe


class Config:
    """A feature set and profile."""

    def __init__(self, features=(), debug=True):
        self.features = tuple(sorted(features))
        self.debug = debug

    @property
    def name(self):
        return ('+'.join(self.features) or 'none') + ('-dbg' if self.debug else '-rel')

    def __eq__(self, o):
        return self.name == o.name

    def __hash__(self):
        return hash(self.name)


class Gecs:
    pass


def gecs(cfg):
    """Builds gecs in configuration cfg; returns how to link a witness against it."""
    root = os.path.join(BUILD, 'gecs-' + repo_key())
    d = os.path.join(root, cfg.name)
    meta = os.path.join(d, 'gecs.json')
    with lock('gecs-' + repo_key()):
        if not os.path.exists(meta):
            os.makedirs(os.path.join(d, 'src'), exist_ok=True)
            with open(os.path.join(d, 'Cargo.toml'), 'w') as f:
                f.write('[package]\nname="hgecs"\nversion="0.1.0"\nedition="2021"\n[workspace]\n[dependencies]\n'
                        'gecs={path=%s, default-features=false, features=%s}\n'
                        % (json.dumps(REPO), json.dumps(list(cfg.features))))
            with open(os.path.join(d, 'src/lib.rs'), 'w') as f:
                f.write('extern crate gecs;\n')
            if os.path.exists(os.path.join(REPO, 'Cargo.lock')):
                shutil.copy(os.path.join(REPO, 'Cargo.lock'), os.path.join(d, 'Cargo.lock'))
            env = dict(os.environ)
            env['RUSTFLAGS'] = '-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings'
            dbg = 'true' if cfg.debug else 'false'
            cmd = ['cargo', '+nightly', 'build', '--offline', '--target', TARGET, '--message-format=json',
                   '--target-dir', os.path.join(root, 'target'),
                   '--config', 'profile.dev.debug-assertions=' + dbg, '--config', 'profile.dev.overflow-checks=' + dbg,
                   '--config', 'profile.dev.debug=1']
            r = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            ext, dirs, msgs = {}, set(), []
            for l in r.stdout.splitlines():
                try:
                    m = json.loads(l)
                except ValueError:
                    continue
                if m.get('reason') == 'compiler-artifact':
                    for fn in m['filenames']:
                        if fn.endswith(('.rlib', '.so', '.rmeta')):
                            dirs.add(os.path.dirname(fn))
                            ext.setdefault(m['target']['name'].replace('-', '_'), []).append(fn)
                elif m.get('reason') == 'compiler-message':
                    msgs.append(m['message'].get('rendered') or '')
            if r.returncode or 'gecs' not in ext:
                raise BuildError('gecs does not build (%s):\n%s\n%s' % (cfg.name, ''.join(msgs)[-6000:], r.stderr[-2000:]))
            with open(meta + '.tmp', 'w') as f:
                json.dump({'gecs': ext['gecs'], 'dirs': sorted(dirs)}, f)
            os.rename(meta + '.tmp', meta)
    j = json.load(open(meta))
    g = Gecs()
    g.cfg, g.rlib, g.dirs = cfg, j['gecs'], j['dirs']
    return g


def rustc_args(g, src, name, out, extra=()):
    dbg = 'on' if g.cfg.debug else 'off'
    a = [src, '--crate-name', name, '--crate-type', 'lib', '--edition', '2021', '--out-dir', out, '--target', TARGET, '-Awarnings', '-Cdebug-assertions=' + dbg, '-Coverflow-checks=' + dbg,
         '-Zmir-opt-level=0', '-Cdebuginfo=1']
    for x in g.rlib:
        a += ['--extern', 'gecs=' + x]
    for d in g.dirs:
        a += ['-L', 'dependency=' + d]
    return a + list(extra)


class Diag:
    def __init__(self, m):
        self.level = m['level']
        self.code = (m.get('code') or {}).get('code')
        self.msg = m['message']
        self.lines = []  # (file, start, end, primary) including macro call sites
        def walk(sp):
            self.lines.append((sp['file_name'], sp['line_start'], sp['line_end'], sp['is_primary']))
            e = sp.get('expansion')
            if e:
                walk(dict(e['span'], is_primary=sp['is_primary']))
        for sp in m.get('spans', []):
            walk(sp)
        self.children = [c.get('message', '') for c in m.get('children', [])]

    def __repr__(self):
        return '%s[%s] %s @%s' % (self.level, self.code, self.msg, sorted({(a, b) for _, a, b, p in self.lines if p}))


def compile_src(g, text, name, extra=(), keep=False, emit='metadata'):
    """Type-checks (and borrow-checks) a witness crate. Returns (ok, [Diag], rendered)."""
    d = os.path.join(BUILD, 'w', '%s-%s-%d' % (name, g.cfg.name, os.getpid()))
    os.makedirs(d, exist_ok=True)
    try:
        p = os.path.join(d, name + '.rs')
        with open(p, 'w') as f:
            f.write(text)
        cmd = ['rustc', '+nightly'] + rustc_args(g, p, name, d, ['--emit=' + emit, '--error-format=json'] + list(extra))
        r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        diags, rend = [], []
        for l in r.stderr.splitlines():
            if l.startswith('{'):
                m = json.loads(l)
                if m.get('$message_type', 'diagnostic') == 'diagnostic':
                    dg = Diag(m)
                    if dg.level in ('error', 'error: internal compiler error'):
                        diags.append(dg)
                        rend.append(m.get('rendered') or '')
            else:
                rend.append(l + '\n')
        return r.returncode == 0, diags, ''.join(rend)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def expand(g, text, name, extra=()):
    """Macro-expanded source of a witness crate (after cfg-stripping)."""
    d = os.path.join(BUILD, 'w', '%s-%s-%d' % (name, g.cfg.name, os.getpid()))
    os.makedirs(d, exist_ok=True)
    try:
        p = os.path.join(d, name + '.rs')
        with open(p, 'w') as f:
            f.write(text)
        cmd = ['rustc', '+nightly'] + rustc_args(g, p, name, d, ['-Zunpretty=expanded'] + list(extra))
        r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode:
            raise BuildError('witness does not expand:\n' + r.stderr[-6000:])
        return r.stdout
    finally:
        shutil.rmtree(d, ignore_errors=True)


def dump(g, text, name, stop=(), extra=()):
    """Monomorphic MIR of everything reachable from the w_* functions of a witness crate."""
    exe = mirdump()
    d = os.path.join(BUILD, 'w', '%s-%s-%d' % (name, g.cfg.name, os.getpid()))
    os.makedirs(d, exist_ok=True)
    try:
        p = os.path.join(d, name + '.rs')
        with open(p, 'w') as f:
            f.write(text)
        sp = os.path.join(d, 'stop.txt')
        with open(sp, 'w') as f:
            f.write('\n'.join(stop) + '\n')
        out = os.path.join(d, 'out.json')
        env = dict(os.environ, MIRDUMP_OUT=out, MIRDUMP_STOP=sp, LD_LIBRARY_PATH=sysroot() + '/lib')
        cmd = [exe] + rustc_args(g, p, name, d, ['--emit=metadata', '--sysroot', sysroot()] + list(extra))
        r = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode or not os.path.exists(out):
            raise BuildError('witness %s does not compile (%s):\n%s' % (name, g.cfg.name, r.stderr[-8000:]))
        with open(out) as f:
            return json.load(f)
    finally:
        shutil.rmtree(d, ignore_errors=True)
