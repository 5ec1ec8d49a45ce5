"""Helper used while planting bugs: makes seeded/<id>/ from textual edits of /repo and a demo,
and confirms it in a scratch copy (builds, existing tests pass, demo passes clean / fails patched)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = '/tmp/seedwt'
DEMO = r'''#!/bin/bash
# Builds a scratch client of the gecs in the current directory%(what)s.
R=$PWD; H=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d) || exit 9
trap 'rm -rf "$D"' EXIT
mkdir -p "$D/src"
cat > "$D/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[features]
c0 = []
c1 = []
[dependencies]
gecs = { path = "$R", default-features = false, features = [%(features)s] }
[profile.dev]
%(profile)s
EOF
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$D/"
cd "$D" || exit 9
export CARGO_TARGET_DIR="$D/target"
%(body)s
'''
RUN = 'cp "$H/main.rs" src/main.rs\ncargo run -q --offline %(flags)s'
CF = '''cp "$H/good.rs" src/main.rs
cargo check -q --offline || { echo "the sound twin does not compile"; exit 1; }
cp "$H/bad.rs" src/main.rs
if cargo check -q --offline 2>"$D/err"; then echo "the bad program compiles"; exit 1; fi
%(grep)s
exit 0'''


def make(id, prop, edits, needs, breaks, main=None, good=None, bad=None, features='', profile='', flags='', grep='', verify=True):
    d = os.path.join(V, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    subprocess.run(['rm', '-rf', WT]); shutil.copytree('/repo', WT, symlinks=True)
    for f, old, new in edits:
        p = os.path.join(WT, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', 'diff'], cwd=WT, text=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    if main is not None:
        open(os.path.join(d, 'main.rs'), 'w').write(main)
        body, what = RUN % {'flags': flags}, ' and runs it'
    else:
        open(os.path.join(d, 'good.rs'), 'w').write(good); open(os.path.join(d, 'bad.rs'), 'w').write(bad)
        body, what = CF % {'grep': grep}, ': the sound program must compile, the unsound one must not'
    with open(os.path.join(d, 'demo.sh'), 'w') as f:
        f.write(DEMO % dict(what=what, features=features, profile=profile, body=body))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    if not verify:
        return
    # confirm
    demo = os.path.join(d, 'demo.sh')
    r0 = subprocess.run(['bash', demo], cwd='/repo', capture_output=True, text=True)
    r1 = subprocess.run(['bash', demo], cwd=WT, capture_output=True, text=True)
    ok = True
    for feats in ([], ['--features', 'events']):
        t = subprocess.run(['cargo', 'test', '--workspace', '--no-fail-fast', '--offline', '-q'] + feats, cwd=WT, capture_output=True, text=True)
        if t.returncode:
            ok = False
            print("TESTS FAIL:", [l for l in t.stdout.splitlines() if "FAILED" in l or l.startswith("    test")][:5], t.stderr[-200:] if "could not compile" in t.stderr else "")
    print('%s: clean=%d patched=%d tests=%s' % (id, r0.returncode, r1.returncode, ok))
    if r0.returncode or not r1.returncode:
        print(r0.stdout[-800:], r0.stderr[-800:], '----', r1.stdout[-800:], r1.stderr[-800:])
    else:
        print('   patched says:', (r1.stdout + r1.stderr).strip()[-300:])
    return r0.returncode == 0 and r1.returncode != 0 and ok
