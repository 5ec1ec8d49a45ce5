"""C15: archetype and component ids follow the discriminant rule and are unique.

Type-level witnesses: every generated declaration is expanded by gecs' own macros and checked by the
compiler's constant evaluator; nothing is run. The oracle is the fold in `ids()`."""
import itertools, random
from .. import build

EXPLAIN = ('Corpus of ecs_world! declarations, enumerated over explicit/implicit id patterns and cfg-disabled items; '
           'each id is pinned by a constant assertion that the compiler evaluates, each illegal declaration must '
           'produce a compile error located in that declaration. The expected ids come from an independent fold.')
TRUSTED = ['rustc macro expansion and constant evaluation', 'the id oracle in vg/props/c15.py']

IDS = [None, 0, 1, 2, 254, 255]


def ids(items):
    """items: [(explicit id or None, enabled)] -> list of ids, or None when illegal."""
    last, used, out = None, set(), []
    for ex, en in items:
        if not en:
            out.append(None)
            continue
        v = ex if ex is not None else (0 if last is None else last + 1)
        if v > 255 or v in used:
            return None
        used.add(v)
        last = v
        out.append(v)
    return out


def corpus(rng, n3, n5):
    lists = []
    for n in (1, 2, 3):
        lists += [[(x, True) for x in t] for t in itertools.product(IDS, repeat=n)] if n < 3 else \
            [[(x, True) for x in t] for t in rng.sample(list(itertools.product(IDS, repeat=3)), n3)]
    # explicit ids around implicit runs, and disabled items that must not consume an id
    for pat in ([5, None, 3, None, None], [None, 7, None, 1, None], [3, None, 2, None], [2, 1, 0], [0, 255, 1, None],
                [253, None, None, None], [254, None], [254, None, None], [255, None], [10, None, 10], [1, None, 0, None],
                [None, None, 1], [None, 1, None, 0], [128, None, 127, None], [9, 8, None], [200, None, None, 199, None]):
        lists.append([(x, True) for x in pat])
    for _ in range(n5):
        lists.append([(rng.choice(IDS + [3, 4, 5]), rng.random() < 0.65) for _ in range(rng.randint(3, 6))])
    for pat in ([(None, False), (None, True)], [(None, True), (5, False), (None, True)], [(0, False), (0, True)],
                [(None, True), (0, False), (None, True)], [(255, False), (None, True)], [(255, True), (None, False)],
                [(254, True), (None, True), (None, False), (0, True)]):
        lists.append(pat)
    seen, out = set(), []
    for l in lists:
        if any(e for _, e in l) and tuple(l) not in seen:
            seen.add(tuple(l))
            out.append(l)
    return out


def attr(kind, ex, en, rng):
    a = []
    if ex is not None:
        a.append('#[%s(%d)]' % (kind, ex))
    if not en:
        a.append(rng.choice(['#[cfg(any())]', '#[cfg(not(all()))]']))
    elif rng.random() < 0.2:
        a.append('#[cfg(all())]')
    rng.shuffle(a)
    return ' '.join(a) + (' ' if a else '')


class Src:
    def __init__(self):
        self.lines = ['#![allow(dead_code, unused_imports, unused_variables)]', 'use gecs::prelude::*;']
        self.spans = []

    def add(self, name, text):
        a = len(self.lines) + 1
        self.lines += text.split('\n')
        self.spans.append((name, a, len(self.lines)))

    def text(self):
        return '\n'.join(self.lines) + '\n'

    def blame(self, diags, fname):
        """name -> diagnostics whose spans fall into its lines."""
        out, loose = {}, []
        for d in diags:
            hit = set()
            for f, a, b, prim in d.lines:
                if f.endswith(fname):
                    for n, x, y in self.spans:
                        if x <= a <= y:
                            hit.add(n)
            if not hit and not d.msg.startswith('aborting due'):
                loose.append(d)
            for n in hit:
                out.setdefault(n, []).append(d)
        return out, loose


def arch_world(k, items, rng):
    s = ['pub mod m%d { use super::*; pub struct C;' % k, 'ecs_world! {', 'ecs_name!(W%d);' % k]
    for i, (ex, en) in enumerate(items):
        s.append('%secs_archetype!(A%d, C);' % (attr('archetype_id', ex, en, rng), i))
    s.append('}')
    exp = ids(items)
    if exp is not None:
        for i, v in enumerate(exp):
            if v is not None:
                s.append('const _: () = assert!(<A%d as Archetype>::ARCHETYPE_ID == %d);' % (i, v))
        s.append('const _: () = assert!(<W%d as World>::NUM_ARCHETYPES == %d);' % (k, sum(v is not None for v in exp)))
    s.append('}')
    return '\n'.join(s)


def comp_world(k, items, rng):
    s = ['pub mod m%d { use super::*;' % k] + ['pub struct C%d;' % i for i in range(len(items))] + ['pub struct Z;']
    s += ['ecs_world! {', 'ecs_name!(W%d);' % k]
    body = ', '.join('%sC%d' % (attr('component_id', ex, en, rng), i) for i, (ex, en) in enumerate(items))
    s.append('#[archetype_id(7)] ecs_archetype!(First, Z);')
    s.append('ecs_archetype!(Arch, %s);' % body)
    s.append('}')
    exp = ids(items)
    if exp is not None:
        s.append('const _: () = assert!(<First as ArchetypeHas<Z>>::COMPONENT_ID == 0);')
        s.append('const _: () = assert!(<Arch as Archetype>::ARCHETYPE_ID == 8);')
        for i, v in enumerate(exp):
            if v is not None:
                s.append('const _: () = assert!(<Arch as ArchetypeHas<C%d>>::COMPONENT_ID == %d);' % (i, v))
                s.append('const _: () = assert!(ecs_component_id!(C%d, Arch) == %d);' % (i, v))
                s.append('fn q%d(w: &W%d) { ecs_iter_borrow!(w, |c: &C%d| { const K: u8 = ecs_component_id!(C%d); '
                         'const _: () = assert!(K == %d); }) }' % (i, k, i, i, v))
    s.append('}')
    return '\n'.join(s)


def run(ctx):
    ctx.rule('id-const', 'each ARCHETYPE_ID/COMPONENT_ID/ecs_component_id! constant equals the id given by the fold')
    ctx.rule('id-illegal', 'a declaration that duplicates an id or counts past 255 is a compile error')
    rng = random.Random(ctx.seed)
    g = build.gecs(build.Config())
    n3, n5 = (216, 300) if ctx.thorough else (50, 40)
    for kind, mk in (('archetype', arch_world), ('component', comp_world)):
        good, bad = Src(), Src()
        desc = {}
        for k, items in enumerate(corpus(rng, n3, n5)):
            t = mk(k, items, rng)
            legal = ids(items) is not None
            name = '%s ids %s' % (kind, ' '.join(('' if en else 'off:') + ('_' if ex is None else str(ex)) for ex, en in items))
            (good if legal else bad).add(name, t)
            desc[name] = (ids(items), t)
        ok, diags, rend = build.compile_src(g, good.text(), 'good')
        blame, loose = good.blame(diags, 'good.rs')
        for n, a, b in good.spans:
            ctx.count(kind + ' declarations with pinned ids')
            ds = blame.get(n, [])
            ctx.ob('id-const', n, not ds, 'expected ids %s; compiler says: %s\n%s' % (
                desc[n][0], '; '.join(d.msg for d in ds[:3]), desc[n][1]))
        if not ok and not blame:
            ctx.ob('id-const', kind + ' corpus', False, 'the corpus of legal declarations does not compile: ' + rend[-3000:])
        ok, diags, rend = build.compile_src(g, bad.text(), 'bad')
        blame, loose = bad.blame(diags, 'bad.rs')
        for n, a, b in bad.spans:
            ctx.count(kind + ' declarations that must be rejected')
            ctx.ob('id-illegal', n, bool(blame.get(n)), 'this declaration duplicates an id or counts past 255 '
                   'but is accepted\n%s' % desc[n][1])
        ctx.floor(kind + ' legal declarations', len(good.spans), 40)
        ctx.floor(kind + ' illegal declarations', len(bad.spans), 25)
    # literals that do not fit an id
    s = Src()
    for i, (a, b) in enumerate((('archetype_id(256)', 'C'), ('archetype_id(0)', '#[component_id(256)] C'))):
        s.add('literal %s %s' % (a, b), 'pub mod l%d { use super::*; pub struct C;\necs_world! { ecs_name!(L%d); #[%s] ecs_archetype!(A, %s); }\n}' % (i, i, a, b))
    ok, diags, rend = build.compile_src(g, s.text(), 'lit')
    blame, loose = s.blame(diags, 'lit.rs')
    for n, a, b in s.spans:
        ctx.ob('id-illegal', n, bool(blame.get(n)), 'an id above 255 is accepted')
