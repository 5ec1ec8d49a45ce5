"""Entry point of every check: `check.py Cxx`. Runs the property's rules over /repo's current
working tree, writes evidence/<id>.json, prints VIOLATION/KNOWN-FINDING lines."""
import importlib, json, os, sys, time, traceback
from . import build

KNOWN = os.path.join(build.VERIF, 'known_findings.json')


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == 'thorough'
        self.obs = []          # (rule, instance, status, text)
        self.counts = {}       # measured quantities
        self.rules = {}        # rule -> description
        self.floors = []
        self.notes = []
        self.assumptions = []
        self.samples = {}

    def rule(self, name, text):
        self.rules[name] = text

    def ob(self, rule, inst, ok, text='', key=None):
        """Records one obligation: ok is True (discharged), False (violated) or None (undecided)."""
        st = 'ok' if ok is True else ('undecided' if ok is None else 'violated')
        self.obs.append((rule, inst, st, text, key or inst))
        return ok is True

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, measured, least):
        """Fails closed when fewer instances than confirmed by hand were found."""
        self.floors.append((name, measured, least))
        if measured < least:
            self.ob('floor', name, False, 'only %d instances of %s were found, at least %d are expected: '
                    'an anchor of this property has disappeared' % (measured, name, least))


def known():
    if not os.path.exists(KNOWN):
        return {'findings': [], 'fixed': []}
    return json.load(open(KNOWN))


def main(argv):
    pid = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 2:
        tier = argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    ctx = Ctx(pid, tier, seed)
    mod = importlib.import_module('vg.props.' + pid.lower())
    try:
        mod.run(ctx)
    except build.BuildError as e:
        # /repo, or a client program that the property promises to accept, no longer compiles.
        ctx.ob('builds', 'witness build', False, str(e))
    ev = os.path.join(build.VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    kn = {f['key']: f for f in known()['findings'] if f['property'] == pid}
    viol, knowns = [], []
    for rule, inst, st, text, key in ctx.obs:
        if st == 'violated':
            k = '%s:%s' % (rule, key)
            (knowns if k in kn else viol).append((rule, inst, text, k))
    per_rule = {}
    for rule, inst, st, text, key in ctx.obs:
        r = per_rule.setdefault(rule, {'obligations': 0, 'discharged': 0, 'undecided': 0, 'violated': 0})
        r['obligations'] += 1
        r[{'ok': 'discharged', 'undecided': 'undecided', 'violated': 'violated'}[st]] += 1
    for r, d in per_rule.items():
        d['rule'] = ctx.rules.get(r, r)
    und = [{'rule': r, 'instance': i, 'why': t} for r, i, s, t, k in ctx.obs if s == 'undecided']
    samples = [{'rule': r, 'instance': i, 'status': s} for r, i, s, t, k in ctx.obs]
    step = max(1, len(samples) // 25)
    cov = {
        'explanation': getattr(mod, 'EXPLAIN', ''),
        'obligations': len(ctx.obs),
        'discharged': sum(1 for o in ctx.obs if o[2] == 'ok'),
        'undecided': und[:200],
        'undecided_total': len(und),
        'rules': per_rule,
        'analysed': ctx.counts,
        'floors': [{'what': a, 'measured': b, 'least': c} for a, b, c in ctx.floors],
        'samples': samples[::step][:30],
        'checker_cmd': 'bin/check %s %s' % (pid, tier),
        'trusted_base': getattr(mod, 'TRUSTED', []),
        'notes': ctx.notes,
    }
    out = {'property': pid, 'tier': 'thorough' if tier == 'thorough' else 'quick', 'seed': seed,
           'level': getattr(mod, 'LEVEL', 'other'), 'coverage': cov, 'assumptions': ctx.assumptions,
           'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    with open(os.path.join(ev, pid + '.json'), 'w') as f:
        json.dump(out, f, indent=1)
    for rule, inst, text, k in knowns:
        print('KNOWN-FINDING: property=%s %s' % (pid, kn[k]['what']))
    print('%s: %d obligations, %d discharged, %d undecided, %d violated (%.1f s)' % (
        pid, len(ctx.obs), cov['discharged'], len(und), len(viol), time.time() - t0))
    if viol:
        rp = os.path.join(ev, pid + '.violation.txt')
        with open(rp, 'w') as f:
            for rule, inst, text, k in viol:
                f.write('rule: %s (%s)\ninstance: %s\nkey: %s\n%s\n\n' % (rule, ctx.rules.get(rule, ''), inst, k, text))
        for rule, inst, text, k in viol[:12]:
            print('  %s | %s | %s' % (rule, inst, ' '.join(text.split())[:400]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


if __name__ == '__main__':
    try:
        rc = main(sys.argv)
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
