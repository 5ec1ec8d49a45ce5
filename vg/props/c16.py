"""C16: #[cfg]-disabled archetypes, components and query parameters behave as absent.

For every truth assignment of the predicates used, the decorated declarations and queries are expanded
by the real macros under that assignment and compared with the declarations obtained by erasing, by
hand, what the predicates disable: token by token after expansion, and by type-level witnesses."""
import concurrent.futures, itertools, random, re
from .. import build, qcorpus, rusttok
from ..qcorpus import World, Param, MACROS, ANY, on
from .c15 import Src, ids

EXPLAIN = ('For each of the 8 truth assignments of three predicates, worlds and queries decorated with #[cfg(..)] (single, '
           'stacked, repeated, negated, nested predicates; on archetypes, components and query parameters) are compiled under '
           'that assignment. Rule `identical`: the macro expansion equals, token for token (after dropping the cfg-probing '
           'macro_rules and doc comments), the expansion of the declaration with the disabled items erased by hand, which '
           'makes their behaviour equal. Where it does not, the witnesses decide alone: ids as constants, exhaustive patterns '
           'over the world, capacity, components and Select types, type sizes, and the match sets and bindings of queries read '
           'off the monomorphic MIR. Erased queries that must be rejected must be rejected when decorated too.')
TRUSTED = ['rustc macro expansion, cfg evaluation, type checking, monomorphisation', 'the oracle in vg/qcorpus.py']

NAMES = ('pa', 'pb', 'feature="x"')
PREDS = ['pa', 'pb', 'feature="x"', 'not(pa)', 'not(feature="x")', 'all(pa,pb)', 'any(pb,feature="x")', 'any()', 'not(any())',
         'all(not(pb),pa)', 'all()', 'not(any(pa,not(pb)))']

WORLDS = [
    World('W', [('Aa', ['Ca', ('Cb', ('pa',))]), ('Bb', ['Ca', 'Cc'], ('pb',)), ('Dd', [('Ca', ('not(pa)',)), 'Cd']),
                ('Ee', ['Cb'], ('all(pa,pb)',))]),
    # stacked and repeated predicates, in an order that differs between declaration and use
    World('W', [('Aa', ['Ca', ('Cb', ('pb', 'pa'))], ('pa', 'pb')), ('Bb', ['Cc', ('Cb', ('pa',)), ('Ca', ('pb',))]),
                ('Dd', ['Ca'], ('not(pa)', 'pb')), ('Ee', ['Cb', ('Cc', ('pb',)), ('Ca', ('not(pa)', 'not(pb)'))])]),
    # disabled items may name types that do not exist; the first item disabled
    World('W', [('Aa', ['Nope'], ('any()',)), ('Bb', [('NopeTwo', ('any()',)), 'Ca', ('Cb', ('not(any())',))]),
                ('Dd', ['Cb', ('NopeThree', ('all(pa,not(pa))',))])]),
    # explicit ids around disabled archetypes
    World('W', [('Aa', ['Ca'], ('pa',)), ('Bb', ['Ca', 'Cb'], ('feature="x"',)), ('Dd', ['Cb']), ('Ee', ['Cc', ('Ca', ('pa',))], ('not(feature="x")',))],
          ids={'Aa': 9, 'Ee': 4}),
]


def rand_world(rng):
    names = ['Aa', 'Bb', 'Dd', 'Ee', 'Ff'][:rng.randint(2, 5)]
    comps = ['Ca', 'Cb', 'Cc', 'Cd']
    archs = []
    for i, n in enumerate(names):
        cs = rng.sample(comps, rng.randint(1, 4))
        keep = rng.randrange(len(cs))
        cs = [(c, () if k == keep or rng.random() < 0.4 else tuple(rng.sample(PREDS, rng.choice([1, 1, 2])))) for k, c in enumerate(cs)]
        archs.append((n, cs, () if i == 0 or rng.random() < 0.4 else tuple(rng.sample(PREDS, rng.choice([1, 1, 2])))))
    rng.shuffle(archs)
    return World('W', archs)


def queries(rng, w, n):
    out = []
    preset = [
        [Param('Ca'), Param('Cb', cfgs=('pa',))],
        [Param('Ca', True, cfgs=('pb',)), Param('Cb', cfgs=('pa',))],
        [Param('OneOf', True, cfgs=('pa',), one=['Ca', 'Cc']), Param('EntityAny', cfgs=('not(pa)',)), Param('Cb', cfgs=('pb', 'pa'))],
        [Param('Entity<_>', cfgs=('pb',)), Param('Nope', cfgs=('any()',)), Param('Ca', cfgs=('not(any())',))],
        [Param('Entity<Dd>', cfgs=('pa',)), Param('EntityDirect<Bb>', cfgs=('not(pa)',))],
        [Param('EntityDirectAny', cfgs=('feature="x"',)), Param('Cb', True)],
        [Param('OneOf', cfgs=('not(pa)', 'pb'), one=['Cb', 'Cc'])],
        [Param('EntityAny', cfgs=('pa',)), Param('EntityDirect<_>', cfgs=('pa',)), Param('Ca', True, cfgs=('pa',)), Param('Cc', cfgs=('pa',))],
    ]
    k = rng.randrange(5)
    for i in range(n):
        if i < len(preset):
            ps = preset[i]
        else:
            ps = qcorpus.rand_params(rng, w, rng.randint(1, 4))
            for p in ps:
                if rng.random() < 0.6:
                    p.cfgs = tuple(rng.sample(PREDS, rng.choice([1, 1, 1, 2])))
        out.append((MACROS[(k + i) % 5], ps))
    return out


def live(ps, env):
    return [p for p in ps if on(p.cfgs, env)]


def snake(n):
    return re.sub(r'(?<!^)([A-Z])', r'_\1', n).lower()


def witness(w, k, env):
    """Type-level witnesses over the decorated world."""
    eff = w.effective(env)
    s = []
    for (a, cs), v in zip(eff, ids([(w.ids.get(a), True) for a, _ in eff])):
        s.append('const _: () = assert!(<%s as Archetype>::ARCHETYPE_ID == %d);' % (a, v))
        for i, c in enumerate(cs):
            s.append('const _: () = assert!(<%s as ArchetypeHas<%s>>::COMPONENT_ID == %d);' % (a, c, i))
        s.append('fn d_%s(x: %sComponents) { let %sComponents { %s } = x; }' % (snake(a), a, a, ', '.join(snake(c) for c in cs)))
        s.append('fn c_%s(w: &mut %s, x: (%s,)) -> Entity<%s> { w.create::<%s>(x) }' % (snake(a), w.name, ', '.join(cs), a, a))
        s.append('const _: () = assert!(::std::mem::size_of::<%s>() == ::std::mem::size_of::<super::e%d::%s>());' % (a, k, a))
    fields = ', '.join(snake(a) for a, _ in eff)
    s.append('fn dw(x: %s) { let %s { %s } = x; }' % (w.name, w.name, fields))
    s.append('fn dc(x: %sCapacity) { let %sCapacity { %s } = x; }' % (w.name, w.name, fields))
    s.append('fn ds(x: SelectArchetype) { match x { %s } }' % ' '.join('SelectArchetype::%s => {}' % a for a, _ in eff))
    s.append('fn de(x: SelectEntity) { match x { %s } }' % ' '.join('SelectEntity::%s(e) => { let _: Entity<%s> = e; }' % (a, a) for a, _ in eff))
    s.append('fn dd(x: SelectEntityDirect) { match x { %s } }' % ' '.join('SelectEntityDirect::%s(e) => { let _: EntityDirect<%s> = e; }' % (a, a) for a, _ in eff))
    s.append('const _: () = assert!(<%s as World>::NUM_ARCHETYPES == %d);' % (w.name, len(eff)))
    s.append('const _: () = assert!(::std::mem::size_of::<%s>() == ::std::mem::size_of::<super::e%d::E%d>());' % (w.name, k, k))
    return '\n'.join(s)


STRUCTS = 'pub struct Ca(u64); pub struct Cb(u64, u64); pub struct Cc([u64; 3]); pub struct Cd([u64; 5]);'


def sections(text):
    """Expanded source -> {(module, function): normalised tokens}."""
    t = [(k, x) for k, x, l in rusttok.tokens(text)]
    out, i, n = [], 0, len(t)

    def skip_group(i):
        d = 0
        while i < n:
            if t[i][1] in ('(', '[', '{') and t[i][0] == 'p':
                d += 1
            elif t[i][1] in (')', ']', '}') and t[i][0] == 'p':
                d -= 1
                if d == 0:
                    return i + 1
            i += 1
        return n
    w = [x for _, x in t]
    while i < n:
        if w[i] == '#' and i + 1 < n and w[i + 1] == '[' and i + 2 < n and w[i + 2] == 'doc':
            i = skip_group(i + 1)
        elif w[i] == 'macro_rules' and i + 2 < n and w[i + 2].startswith('__cfg_ecs'):
            i = skip_group(i + 3)
        elif w[i] == 'mod' and i + 1 < n and w[i + 1] == '__ecs_cfg_macros':
            i = skip_group(i + 2)
        else:
            out.append(re.sub(r'\d{20,}', 'HASH', w[i]))
            i += 1
    sec, cur, mod = {}, None, None
    for j, x in enumerate(out):
        if x == 'mod' and j + 1 < len(out) and re.fullmatch(r'[me]\d+', out[j + 1]):
            mod = out[j + 1]
            cur = (mod, 'world')
        elif x == 'fn' and j + 1 < len(out) and re.fullmatch(r'w_q\d+', out[j + 1]):
            cur = (mod, out[j + 1])
        sec.setdefault(cur, []).append(x)
    return sec


def one_env(g, env, worlds, qs):
    """All obligations of one truth assignment, as tuples (rule, instance, ok, text, key)."""
    obs, counts = [], {}
    flags = []
    for x in env:
        flags += ['--cfg', x]
    tag = 'c16_' + ''.join('1' if x in env else '0' for x in NAMES)
    good, bad, dec, era = Src(), Src(), Src(), Src()
    for s in (good, bad, dec, era):
        s.lines = qcorpus.PRELUDE.rstrip('\n').split('\n')
    exp = {}
    for k, w in enumerate(worlds):
        eff = w.effective(env)
        wd = 'world %d {%s}: %s' % (k, ','.join(env), ' '.join(w.decl().split()))
        head = 'pub mod %s%d { use super::*; %s\n%s'
        good.add('', head % ('e', k, STRUCTS, w.decl(env).replace('ecs_name!(%s)' % w.name, 'ecs_name!(E%d)' % k)) + '}')
        good.add(wd, head % ('m', k, STRUCTS, w.decl()) + '\n' + witness(w, k, env))
        bad.add('', head % ('m', k, STRUCTS, w.decl()))
        dec.add('', head % ('m', k, STRUCTS, w.decl()))
        era.add('', head % ('m', k, STRUCTS, w.decl(env)))
        exp[('m%d' % k, 'world')] = (wd, None, None)
        for q, macro, ps in qs[k]:
            lp = live(ps, env)
            if qcorpus.aliases(eff, lp):
                continue
            r = qcorpus.bind(eff, lp)
            d = qcorpus.show(w, macro, ps, env)
            if isinstance(r, str):
                bad.add(d, qcorpus.query(w, q, macro, ps))
            else:
                good.add(d, qcorpus.query(w, q, macro, ps))
                dec.add(d, qcorpus.query(w, q, macro, ps))
                era.add(d, qcorpus.query(w, q, macro, ps, env))
            exp[('m%d' % k, 'w_q%d' % q)] = (d, r, ps)
        for s in (good, bad, dec, era):
            s.add('', '}')
    ok, diags, rend = build.compile_src(g, good.text(), tag + 'g', flags)
    if not ok:
        blame, loose = good.blame(diags, tag + 'g.rs')
        blame.pop('', None)
        for n, ds in blame.items():
            obs.append(('erased', n, False, 'decorated items do not compile as the erased ones do: ' + '; '.join(x.msg for x in ds[:3]), n))
        if not blame:
            obs.append(('erased', 'assignment {%s}' % ','.join(env), False, 'corpus does not compile: ' + rend[-3000:], None))
        return obs, counts
    for key, (d, r, ps) in exp.items():
        if r is None:
            obs.append(('erased', d, True, '', d))
            counts['world declarations'] = counts.get('world declarations', 0) + 1
    dump = build.dump(g, dec.text(), tag + 'd', extra=flags)
    got = qcorpus.matched(dump)
    for (m, f), (d, r, ps) in exp.items():
        if isinstance(r, dict):
            archs, binds = got.get(int(f[3:]), (set(), {}))
            text = '' if archs == set(r) else 'acts on %s, erased by hand it acts on %s' % (sorted(archs), sorted(r))
            idx = [i for i, p in enumerate(ps) if on(p.cfgs, env)]
            for a, b in r.items():
                for i, t in zip(idx, b):
                    if not text and not ps[i].blank and binds.get((a, i)) != t.replace(' ', ''):
                        text = 'parameter %d is bound to %s in %s, not to %s' % (i, binds.get((a, i)), a, t)
            for (a, i) in binds:
                if i not in idx:
                    text = text or 'disabled parameter %d is bound in %s' % (i, a)
            obs.append(('match-set', d, not text, text, d))
            counts['queries'] = counts.get('queries', 0) + 1
    ok, diags, rend = build.compile_src(g, bad.text(), tag + 'b', flags)
    blame, loose = bad.blame(diags, tag + 'b.rs')
    for n, a, b in bad.spans:
        if n:
            r = next(r for d, r, p in exp.values() if d == n)
            obs.append(('rejected', n, bool(blame.get(n)), 'accepted, although with the disabled items erased it must be rejected: %s' % r, n))
            counts['rejected queries'] = counts.get('rejected queries', 0) + 1
    sd = sections(build.expand(g, dec.text(), tag + 'x', flags))
    se = sections(build.expand(g, era.text(), tag + 'x', flags))
    for key, (d, r, ps) in exp.items():
        if r is None or isinstance(r, dict):
            same = sd.get(key) == se.get(key) and sd.get(key) is not None
            # the expansion differing is not by itself a violation: the witnesses above decide
            obs.append(('identical', d, True if same else None, 'the expansions differ', d))
            if same:
                counts['expansions identical to the erased one'] = counts.get('expansions identical to the erased one', 0) + 1
    return obs, counts


def run(ctx):
    ctx.rule('erased', 'the decorated declaration has the ids, types, fields and sizes of the erased one')
    ctx.rule('match-set', 'a decorated query acts on the archetypes, and binds the types, of the erased query on the erased world')
    ctx.rule('rejected', 'a decorated query is rejected where the erased one must be')
    ctx.rule('identical', 'the decorated item expands to exactly the tokens of the erased item')
    rng = random.Random(ctx.seed * 104729 + 16)
    g = build.gecs(build.Config())
    worlds = WORLDS + [rand_world(rng) for _ in range(16 if ctx.thorough else 5)]
    for k, w in enumerate(worlds):
        w.name = 'W%d' % k
    qs, n = [], 0
    for w in worlds:
        l = []
        for macro, ps in queries(rng, w, 40 if ctx.thorough else 14):
            l.append((n, macro, ps))
            n += 1
        qs.append(l)
    envs = [tuple(x for x, b in zip(NAMES, bits) if b) for bits in itertools.product((False, True), repeat=3)]
    build.mirdump()
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda e: one_env(g, e, worlds, qs), envs))
    for obs, counts in res:
        for rule, inst, ok, text, key in obs:
            ctx.ob(rule, inst, ok, text, key)
        for k, v in counts.items():
            ctx.count(k, v)
    ctx.count('truth assignments', len(envs))
    if not any(o[2] == 'violated' for o in ctx.obs):
        ctx.floor('decorated queries with a match set', ctx.counts.get('queries', 0), 300)
        ctx.floor('decorated queries to be rejected', ctx.counts.get('rejected queries', 0), 60)
