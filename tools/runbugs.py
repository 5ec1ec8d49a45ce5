"""Runs the registered check of each planted bug's property (or the ones named) against a scratch
copy of /repo with the bug applied, and prints whether it is caught."""
import json, os, subprocess, sys, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = '/tmp/bugwt'
sel = [a for a in sys.argv[1:] if not a.startswith('C')]
props = [a for a in sys.argv[1:] if a.startswith('C')]
for id in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', id, 'meta.json')))
    if sel and not any(s in id for s in sel):
        continue
    subprocess.run(['rm', '-rf', WT])
    os.makedirs(WT)
    subprocess.run('git -C /repo archive HEAD | tar -x -C ' + WT, shell=True, check=True)
    r = subprocess.run(['git', 'apply', os.path.join(V, 'seeded', id, 'patch.diff')], cwd=WT, capture_output=True, text=True)
    if r.returncode:
        print(id, 'DOES NOT APPLY', r.stderr[:200])
        continue
    for p in props or [m['property']]:
        t = time.time()
        r = subprocess.run([os.path.join(V, 'bin/check'), p], env=dict(os.environ, GECS_REPO=WT), capture_output=True, text=True)
        print('%-28s %s rc=%d %5.1fs %s' % (id, p, r.returncode, time.time() - t, 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=' + p in r.stdout else 'missed'), flush=True)
        for l in r.stdout.splitlines()[1:4 if r.returncode == 1 else 1]:
            print('      ', l[:220])
        if r.returncode not in (0, 1):
            print(r.stderr[-600:])
subprocess.run(['rm', '-rf', WT])
