"""C05: queries act on exactly the archetypes whose component set satisfies them.

The real macros expand every query of the corpus; the compiler's monomorphic MIR then says, per query,
for which archetypes its closure exists and with which parameter types. This is compared with an
independent oracle. Rejections are compile-fail witnesses. Nothing is run."""
import random, re
from .. import build, qcorpus
from ..eng import driver
from ..qcorpus import World, Param, MACROS, ANY
from .c15 import Src

EXPLAIN = ('Query witnesses over enumerated and seeded-random worlds: the set of mark::<MatchedArchetype, q> instances '
           'reachable from each query in the compiler\'s monomorphic MIR is the set of archetypes it acts on, and the '
           'type arguments of markp give the binding of each parameter; both are compared with an independent matching '
           'oracle. A backward data-flow slice over the MIR of the expanded query checks that the arguments of the closure '
           'made for archetype A derive from A\'s own storage. Queries that must be rejected are compile-fail witnesses '
           'whose error must lie in that query. In addition the abstract interpreter analyses the expansion of the query '
           'macros, for many parameter lists and every key kind, from an arbitrary world: the closure runs for exactly the '
           'designated entity (find) or for every entity of exactly the matched archetypes (iter), and each argument is '
           'that entity\'s own handle, direct handle or cell of the bound column.')
TRUSTED = ['rustc macro expansion, type checking and monomorphisation', 'the matching oracle in vg/qcorpus.py'] + driver.TRUSTED

WORLDS = [
    World('W', [('A', ['C0']), ('B', ['C1']), ('C', ['C0', 'C1']), ('D', ['C2', 'C0']), ('E', ['C3'])]),
    World('W', [('Solo', ['Only'])]),
    # names that are prefixes of each other, and digits
    World('W', [('Foo', ['Pos', 'PosX']), ('FooBar', ['PosX']), ('Foo2', ['Pos2', 'Pos']), ('Fo', ['Po'])]),
    # permuted column orders and identical component sets
    World('W', [('A', ['C0', 'C1', 'C2']), ('B', ['C2', 'C1', 'C0']), ('C', ['C1', 'C0', 'C2']), ('D', ['C1']), ('E', ['C2', 'C0'])],
          ids={'A': 200, 'B': 3, 'D': 17}),
    # many archetypes
    World('W', [('A%d' % i, ['P%d' % k for k in range(9) if (i * 37 + 11) >> k & 1 or k == i % 9]) for i in range(21)]),
    World('W', [('A', ['K%d' % i for i in range(16)]), ('B', ['K%d' % i for i in range(0, 16, 2)]), ('C', ['K15', 'K0'])]),
]


def rand_world(rng):
    comps = ['R%d' % i for i in range(rng.randint(2, 6))]
    return World('W', [('X%d' % i, rng.sample(comps, rng.randint(1, min(4, len(comps))))) for i in range(rng.randint(2, 7))])


def queries(rng, w, nrand, every):
    lists = [[Param(c)] for c in w.comps()] + [[Param(c, True)] for c in w.comps()]
    lists += [[Param('%s<%s>' % (k, a))] for k in ('Entity', 'EntityDirect') for a, _, _ in w.archs]
    lists += [[Param(k)] for k in ANY]
    lists += [[]]
    cs = w.comps()
    for i in range(len(cs)):
        for k in range(len(cs)):
            if i != k and len(cs) <= 5:
                lists.append([Param(cs[i], True), Param(cs[k])])
                if i < k:
                    lists.append([Param('OneOf', True, one=[cs[i], cs[k]])])
                    lists.append([Param('OneOf', one=[cs[k], cs[i]])])
    lists += [qcorpus.rand_params(rng, w, rng.randint(2, 4)) for _ in range(nrand)]
    for _ in range(nrand // 3):
        # many parameters that some archetype satisfies
        a, ac, _ = rng.choice(w.archs)
        l = [Param(c[0], rng.random() < 0.5) for c in rng.sample(ac, rng.randint(min(len(ac), 2), len(ac)))]
        l += [Param(rng.choice(ANY)) for _ in range(rng.randint(1, 4))]
        if rng.random() < 0.5:
            l.append(Param('Entity<%s>' % a))
        rng.shuffle(l)
        lists.append(l)
    out, n = [], rng.randint(0, 4)
    for l in lists:
        for m in (MACROS if every else (MACROS[n % 5],)):
            out.append((m, l))
        n += 1
    return out


def slice_archs(fn, types, op_locals, names):
    """Archetype names among the types of the locals that the given locals may derive from."""
    deps = {}

    def places(x, acc):
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ('c', 'm') and isinstance(x[1], list) and x[1] and isinstance(x[1][0], int):
                acc.add(x[1][0])
                return
            for y in x:
                places(y, acc)
    for blk in fn['body']:
        for st in blk[0]:
            if st[0] == '=':
                acc = set()
                rv = st[2]
                if rv[0] in ('ref', 'addr'):
                    acc.add(rv[2][0])
                else:
                    places(rv, acc)
                deps.setdefault(st[1][0], set()).update(acc)
        t = blk[1]
        if t[0] == 'call':
            acc = set()
            places(t[2], acc)
            if isinstance(t[1], list):
                places(t[1], acc)
            deps.setdefault(t[3][0], set()).update(acc)
    seen, work = set(), list(op_locals)
    while work:
        l = work.pop()
        if l in seen:
            continue
        seen.add(l)
        work += deps.get(l, ())
    out = set()
    for l in seen:
        for n in re.findall(r'[A-Za-z_0-9]+', qcorpus.strip(types[fn['locals'][l]]['name'])):
            for a in names:
                if n in (a, a + 'Slices', a + 'SlicesMut', a + 'View', a + 'Borrow'):
                    out.add(a)
    return out


def provenance(dump, archnames):
    """For each query closure instantiated for an archetype: the archetypes its arguments derive from."""
    fns, types = dump['fns'], dump['types']
    marks = {}
    for f in fns:
        for blk in (f['body'] or []):
            t = blk[1]
            if t[0] == 'call' and isinstance(t[1], int):
                m = re.search(r'\bmark::<(.*), (\d+)(?:_usize)?>$', fns[t[1]]['name'])
                if m:
                    marks[f['id']] = (int(m.group(2)), qcorpus.strip(m.group(1)))
    for f in fns:
        for blk in (f['body'] or []):
            t = blk[1]
            if t[0] == 'call' and isinstance(t[1], int) and t[1] in marks and len(t[2]) == 2:
                q, a = marks[t[1]]
                if t[2][1][0] in ('c', 'm'):
                    yield q, a, slice_archs(f, types, [t[2][1][1][0]], archnames[q]), f['name']


def run(ctx):
    ctx.rule('match-set', 'the archetypes for which the query closure is instantiated are exactly those the oracle names')
    ctx.rule('binding', 'each parameter is bound to the type the oracle names, in every matched archetype')
    ctx.rule('provenance', 'the arguments of the closure made for an archetype derive from that archetype\'s storage only')
    ctx.rule('rejected', 'a query that matches nothing, or whose OneOf is ambiguous, is a compile error')
    rng = random.Random(ctx.seed * 7919 + 5)
    g = build.gecs(build.Config())
    worlds = list(WORLDS) + [rand_world(rng) for _ in range(12 if ctx.thorough else 3)]
    good, bad = Src(), Src()
    good.lines = qcorpus.PRELUDE.rstrip('\n').split('\n')
    bad.lines = qcorpus.PRELUDE.rstrip('\n').split('\n')
    exp, names, nq = {}, {}, 0
    for wi, w in enumerate(worlds):
        eff = w.effective(())
        head = 'pub mod m%d { use super::*; %s\n%s' % (wi, ' '.join('pub struct %s(u64);' % c for c in w.comps()), w.decl())
        good.add('world %d' % wi, head)
        bad.add('world %d' % wi, head)
        seen = set()
        for macro, params in queries(rng, w, 60 if ctx.thorough else 25, ctx.thorough and len(w.comps()) <= 5):
            key = (macro, tuple(p.show() + str(p.blank) for p in params))
            if key in seen or aliases_dup(eff, params):
                continue
            seen.add(key)
            r = qcorpus.bind(eff, params)
            d = qcorpus.show(w, macro, params)
            (bad if isinstance(r, str) else good).add(d, qcorpus.query(w, nq, macro, params))
            exp[nq] = (d, r, params)
            names[nq] = [a for a, _ in eff]
            nq += 1
        good.add('', '}')
        bad.add('', '}')
    ok, diags, rend = build.compile_src(g, good.text(), 'c05good')
    if not ok:
        blame, loose = good.blame(diags, 'c05good.rs')
        blame.pop('', None)
        for n, ds in blame.items():
            ctx.ob('match-set', n, False, 'this query must be accepted; compiler says: ' + '; '.join(x.msg for x in ds[:3]))
        if not blame:
            raise build.BuildError('query corpus does not compile:\n' + rend[-4000:])
    else:
        dump = build.dump(g, good.text(), 'c05good')
        got = qcorpus.matched(dump)
        for q, (d, r, params) in exp.items():
            if isinstance(r, str):
                continue
            archs, binds = got.get(q, (set(), {}))
            ctx.count('queries whose match set was decided')
            ctx.ob('match-set', d, archs == set(r), 'acts on %s, but the archetypes that satisfy it are %s' % (sorted(archs), sorted(r)))
            for a, b in r.items():
                for i, t in enumerate(b):
                    if not params[i].blank and a in archs:
                        ctx.count('parameter bindings')
                        have = binds.get((a, i))
                        ctx.ob('binding', '%s: parameter %d in %s' % (d, i, a), have == t.replace(' ', ''),
                               'parameter %d is bound to %s, not %s, in archetype %s' % (i, have, t, a), key='%s:%d:%s' % (d, i, a))
        n = 0
        for q, a, srcs, fname in provenance(dump, names):
            n += 1
            if not srcs and exp[q][2]:
                ctx.ob('provenance', '%s in %s' % (exp[q][0], a), None, 'no archetype type in the slice of the closure arguments in ' + fname)
            else:
                ctx.ob('provenance', '%s in %s' % (exp[q][0], a), a in srcs or not srcs,
                       'in %s the closure made for %s gets arguments derived from %s' % (fname, a, sorted(srcs)))
        ctx.count('closure call sites sliced', n)
    ok, diags, rend = build.compile_src(g, bad.text(), 'c05bad')
    blame, loose = bad.blame(diags, 'c05bad.rs')
    nbad = 0
    for n, a, b in bad.spans:
        if n and not n.startswith('world '):
            nbad += 1
            why = next(r for d, r, p in exp.values() if d == n)
            ctx.ob('rejected', n, bool(blame.get(n)), 'accepted although it must be rejected: ' + why)
    for n in blame:
        if n.startswith('world '):
            ctx.ob('rejected', n, False, 'the world declaration itself is rejected: ' + blame[n][0].msg)
    ctx.floor('queries with a match set', ctx.counts.get('queries whose match set was decided', 0) if not any(o[2] == 'violated' for o in ctx.obs) else 999, 300)
    ctx.floor('queries to be rejected', nbad, 40)
    ctx.floor('macros covered', len({d.split('!')[0] for d, r, p in exp.values() if not isinstance(r, str)}), 5)


    driver.run(ctx)


def aliases_dup(eff, params):
    return qcorpus.aliases(eff, params)
