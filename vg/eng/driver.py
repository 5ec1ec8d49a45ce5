"""Runs the abstract interpreter over the operations that concern a property, for several witness worlds and build
configurations, in parallel, and turns the results into obligations of the check."""
import multiprocessing, os, signal, time, traceback
from concurrent.futures import ThreadPoolExecutor
from .. import build
from . import worlds as W, harness as H, interp

TRUSTED = ['rustc (type checking, trait selection, MIR construction)', 'vg/eng: the abstract interpreter, its models of core/alloc '
           'functions and of the allocator', 'integer arithmetic of vg/eng/lin.py']
ASSUME = [
    'component values are opaque: Clone and Drop of a component may panic but do not reach into the world otherwise',
    'an operation starts from any state satisfying the representation invariant (checked to be established by construction and '
    'preserved, also by unwinding, by every analysed operation)',
    'the analysed programs fix the generic parameters: worlds with one to three components per archetype and one or two archetypes '
    '(16 and more in the thorough tier); other instances are covered by the uniformity of the generating macros',
    'the compiler preserves the meaning of MIR',
]


class Timeout(Exception):
    pass


def worker(i):
    prog, spec, op, cases, cfg, pid, limit = TASKS[i]
    t0 = time.time()
    T = H.Task(spec, op, cases, PROGS[prog], cfg, pid)

    def alarm(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(max(5, int(limit)))
    try:
        T.run()
    except Timeout:
        T.obs.append(('exact', T.inst, None, 'time limit', None))
    except interp.Unsupported as e:
        T.obs.append(('exact', T.inst, None, str(e)[:300], None))
    except MemoryError:
        T.obs.append(('exact', T.inst, None, 'memory', None))
    except Exception as e:
        T.obs.append(('exact', T.inst, None, 'internal: %s %s' % (type(e).__name__, ' '.join(traceback.format_exc().split())[-260:]), None))
    finally:
        signal.alarm(0)
    T.stats['secs'] = time.time() - t0
    return i, T.obs, T.stats


TASKS, PROGS = [], {}


class Plan:
    def __init__(self, world, features=(), debug=True, arch=0, wide=False, ops=None):
        self.given = ops
        self.world, self.cfg, self.arch, self.wide = world, build.Config(features, debug), arch, wide

    def ops(self, pid):
        ol = self.given(self.world) if self.given is not None else [
            o for a in ([self.arch] if isinstance(self.arch, int) else self.arch) for o in W.all_ops(self.world, a, self.cfg, self.wide)]
        return [o for o in ol if pid in o.props or pid == 'C19']


def few(w):
    """The operations that touch every column, for the widest archetypes."""
    names = ('create', 'create_within_capacity', 'destroy_t', 'contains_y', 'view_t', 'borrow_t', 'find_t', 'arch_iter', 'arch_iter_mut',
             'new', 'with_capacity', 'clone', 'drop', 'iter_one', 'view_comp', 'destroy_get', 'destroy_field', 'create_struct')
    return [o for o in W.ops(w) + W.queries(w) if o.name in names or o.name.startswith(('get_slice', 'get_all_slices', 'borrow_slice'))]


def some(w):
    """The above, the other removals, and the operations of the last archetype."""
    f = few(w)
    l = len(w.archs) - 1
    more = [o for o in W.ops(w) + W.queries(w) if o.name.startswith(('iter_destroy', 'destroy', 'iter_', 'find_borrow'))]
    last = [o for o in W.ops(w, l) if o.name in [x.name for x in f]]
    for o in last:
        o.name += '_last'
    return f + [o for o in more if o.name not in [x.name for x in f]] + last


def many(w):
    """The same without the operation whose number of paths is exponential in the number of archetypes."""
    return [o for o in some(w) if o.name != 'with_capacity']


def quick(pid):
    p = [Plan(W.W1, wide=True), Plan(W.W1, debug=False), Plan(W.W2, wide=True), Plan(W.W1, ['events']), Plan(W.W1, ['wrapping_version']),
         Plan(W.W1, arch=1), Plan(W.W2, debug=False), Plan(W.wide(16), ops=few), Plan(W.W5, ops=some), Plan(W.W4, ops=some)]
    if pid == 'C17':
        p = [Plan(W.W1, ['events']), Plan(W.W1, ['events'], debug=False), Plan(W.W2, ['events']), Plan(W.W1, ['events', 'wrapping_version']),
             Plan(W.W4, ['events'], ops=W.events), Plan(W.W3, ['events'], ops=W.events), Plan(W.W4, ['events'], debug=False, ops=W.events), Plan(W.wide(16), ['events'], ops=few), Plan(W.W5, ['events'], ops=some), Plan(W.W4, ['events'], ops=some)]
    elif pid == 'C19':
        p += [Plan(W.W1, ['32_components']), Plan(W.W1, ['events'], debug=False), Plan(W.W1, ['wrapping_version'], debug=False),
              Plan(W.W1, ['32_components', 'events', 'wrapping_version']),
              Plan(W.wide(32), ['32_components'], debug=False, ops=few)]
    return p


def thorough(pid):
    p = quick(pid)
    ev = ['events'] if pid == 'C17' else []
    p += [Plan(W.W3, ev, wide=True), Plan(W.W5, ev, wide=True), Plan(W.W5, ev, arch=1), Plan(W.W8, ev, ops=many), Plan(W.W2, ev, debug=False, wide=True), Plan(W.W1, ev, debug=False, wide=True), Plan(W.W1, ['events'], debug=False, arch=1), Plan(W.wide(16), ev),
          Plan(W.wide(17), ev + ['32_components']), Plan(W.W2, ['events', 'wrapping_version'])]
    return p


def run(ctx, pid=None, plans=None, budget=None):
    """Adds the engine's obligations for property pid to ctx."""
    global TASKS, PROGS
    pid = pid or ctx.pid
    plans = plans or (thorough(pid) if ctx.thorough else quick(pid))
    budget = budget or (2400 if ctx.thorough else 560)
    t0 = time.time()
    for r, (text, props) in H.RULES.items():
        if pid in props.split() or r == 'exact':
            ctx.rule(r, text)
    build.mirdump()

    def prep(k):
        p = plans[k]
        ol = p.ops(pid)
        if not ol:
            return k, ol, None
        g = build.gecs(p.cfg)
        return k, ol, build.dump(g, W.source(p.world, ol), 'e%d' % k)
    # gecs once per configuration, then the witnesses in parallel
    cfgs = []
    for p in plans:
        if p.cfg not in cfgs:
            cfgs.append(p.cfg)
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(build.gecs, cfgs))
    with ThreadPoolExecutor(6) as ex:
        preps = list(ex.map(prep, range(len(plans))))
    TASKS, PROGS = [], {}
    for k, ol, j in preps:
        if j is None:
            continue
        p = plans[k]
        PROGS[k] = interp.Program(j, opaque=p.world.comps)
        for o in ol:
            for c in o.cases:
                cases = ['part'] * len(p.world.archs)
                cases[o.kw.get('arch', 0)] = c
                TASKS.append((k, p.world, o, cases, p.cfg, pid, 240 if not ctx.thorough else 900))
        ctx.count('configurations (world x features x profile)')
    order = sorted(range(len(TASKS)), key=lambda i: (0 if TASKS[i][2].spec in ('clone', 'iterd', 'new') else 1, i))
    left = budget - (time.time() - t0)
    done = {}
    mp = multiprocessing.get_context('fork')
    pool = mp.Pool(min(8, os.cpu_count() or 1), maxtasksperchild=40)
    try:
        it = pool.imap_unordered(worker, order)
        for _ in order:
            try:
                i, obs, st = it.next(timeout=max(1, budget - (time.time() - t0)))
            except multiprocessing.TimeoutError:
                break
            done[i] = (obs, st)
    finally:
        pool.terminate()
        pool.join()
    funcs = 0
    for i, (k, spec, o, cases, cfg, _, _) in enumerate(TASKS):
        name = '%s.%s [%s] %s' % (spec.name, o.name, '/'.join(cases), cfg.name)
        ctx.count('operations x seed families')
        if i not in done:
            ctx.ob('exact', name, None, 'not analysed within the time budget')
            continue
        obs, st = done[i]
        ctx.count('final states judged', st['states'])
        ctx.count('abstract steps', st['steps'])
        funcs = max(funcs, st.get('fns', 0))
        n = 0
        for rule, inst, status, text, key in obs:
            ctx.ob(rule, inst, status, text, key)
    ctx.counts['most functions inlined into one operation'] = funcs
    ctx.assumptions += ASSUME
    ctx.floor('operations analysed', len(TASKS), 3)
    return len(TASKS)
