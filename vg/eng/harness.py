"""Runs operations of a witness world through the abstract interpreter and checks the resulting states against the
specifications of the properties (obligations)."""
from . import lin, loops, storage as S
from .lin import Lin, K, new_atom
from .values import *
from .interp import Interp, Program, State, Unsupported, UBError, Split
from .models import Models
from .storage import Bad, Live, Free, forall, need, gen, lookup_seed, lookup_post, View, MAXCAP, VMAX

# rule -> (text, properties it supports)
RULES = {
    'no-ub': ('no path reaches an undefined operation (out-of-bounds, dangling, uninitialised, double free/drop, misaligned, overflowing unchecked arithmetic)',
              'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C17 C19'),
    'ri-counts': ('len <= capacity <= 2^24 after the operation', 'C12 C10 C19 C13'),
    'ri-blocks': ('every array owns a block of exactly capacity elements', 'C02 C03 C12 C13 C10 C19'),
    'ri-dense': ('for every dense position, the slot of its handle points back to it with the same generation', 'C01 C02 C03 C06 C07 C09 C10 C13 C19'),
    'ri-sparse': ('every live slot points to a dense position that holds its handle', 'C01 C02 C03 C06 C07 C09 C10 C13 C19'),
    'ri-cols': ('every column cell below len holds a live value', 'C02 C03 C04 C06 C07 C10 C13 C19'),
    'ri-free': ('the free list holds exactly the capacity - len free slots, each once', 'C01 C12 C10 C13 C03 C19'),
    'map': ('an arbitrary handle resolves afterwards exactly as the operation specifies', 'C01 C07 C10 C13 C19'),
    'values': ('every surviving entity keeps its component values in every column', 'C02 C07 C10 C13 C19'),
    'gen': ('generations never decrease, and a slot that loses its entity gets a larger one', 'C01 C08 C07 C19'),
    'fresh': ('the returned handle names a slot that was free (or new) with its current generation, and the right archetype id', 'C08 C01 C14 C19'),
    'ret': ('the operation returns what it specifies', 'C01 C02 C03 C04 C05 C09 C12 C19'),
    'removed': ('destroy hands out the removed entity\'s own values', 'C02 C04 C19'),
    'version': ('the archetype version grows with every removal and never falls; while it is unchanged no entity moves', 'C09 C07 C19'),
    'stable': ('an operation that changes no structure leaves the archetype version alone', 'C09'),
    'direct': ('a direct handle is minted as (current dense position, current archetype version) of the entity and accepted exactly while the version matches', 'C09 C03 C07 C14 C19'),
    'len': ('len and capacity change exactly as specified', 'C12 C07 C19'),
    'panic': ('no panic other than the documented ones', 'C12 C01 C03 C11 C10 C06 C07 C19 C08'),
    'drops': ('component values are dropped or handed out exactly once', 'C04 C07 C10 C13 C19'),
    'heap': ('blocks are freed exactly when their owner goes away', 'C04 C19'),
    'observe': ('what the closure/caller is shown is the designated entity: its handle, index, direct handle', 'C01 C05 C06 C07 C09 C19'),
    'observe-values': ('what the closure/caller is shown are the entity\'s own current values', 'C02 C05 C06 C07 C19'),
    'write': ('what is written through a mutable access is what the entity holds afterwards, and nothing else changes', 'C02 C06 C07 C10'),
    'visits': ('each live entity of each matched archetype is visited exactly once unless the closure breaks', 'C06 C05 C07 C19'),
    'flags': ('borrow flags are as before once the access has ended, also by unwinding', 'C11 C10 C19'),
    'granted': ('an access is granted exactly when no conflicting borrow of that column exists, and is recorded while it lasts', 'C11 C19'),
    'others': ('other archetypes of the world are untouched', 'C01 C02 C13'),
    'unwind-map': ('after unwinding each entity is fully present or fully absent as before or after the operation', 'C10'),
    'clone': ('a clone has equal len, capacity, version, slots, handles, free list and cloned components', 'C13 C04 C02 C01 C19'),
    'disjoint': ('a clone shares no block with its original', 'C13 C04'),
    'source': ('cloning does not change the original', 'C13 C02 C01'),
    'conv': ('a conversion gives back exactly the handle it was given, succeeds exactly when the archetype id (or raw generation) permits it, and selects the variant of that id', 'C14'),
    'eqhash': ('handles are equal exactly when key and generation are; what is hashed is a function of key and generation alone', 'C14'),
    'clone-log': ('a clone has the same pending events', 'C13 C17 C19'),
    'log': ('the event logs gain exactly the specified handle', 'C17 C19 C07'),
    'exact': ('the operation is understood completely (no unsupported construct)', ''),
}


class Task:
    """One operation from one family of seeds."""

    def __init__(self, world, op, cases, P, cfg, pid):
        self.world, self.op, self.cases, self.P, self.cfg, self.pid = world, op, cases, P, cfg, pid
        self.obs = []       # (rule, instance, status, text, key)
        self.stats = {'states': 0, 'steps': 0, 'obligations': 0}
        self.events = 'events' in cfg.features
        self.wrapping = 'wrapping_version' in cfg.features

    @property
    def inst(self):
        return '%s.%s [%s] %s' % (self.world.name, self.op.name, '/'.join(self.cases), self.cfg.name)

    # -- reporting -------------------------------------------------------------
    def wants(self, rule):
        return self.pid is None or self.pid in RULES[rule][1].split()

    def ob(self, rule, st, f, what=''):
        """Obligation on state st: f raises Bad (via need) on the paths where it fails."""
        if not self.wants(rule):
            return
        self.stats['obligations'] += 1
        try:
            bad = forall(self.I, st, f)
        except Unsupported as e:
            self.und(rule, st, str(e), what)
            return
        self.report(rule, st, bad, what)

    def report(self, rule, st, bad, what=''):
        inst = self.inst + (' ' + what if what else '')
        if isinstance(bad, Exception):
            return self.und(rule, st, str(bad), what)
        real = None
        for t, r in bad:
            if inexact(t) or st.inexact:
                self.und(rule, st, r + ' (on an over-approximated path)', what)
                continue
            m = model(t)
            if m is None:
                self.und(rule, st, r + ' (no concrete instance found)', what)
                continue
            real = (t, r, m)
            break
        if real:
            t, r, m = real
            self.obs.append((rule, inst, False, describe(self.I, st, t, r, m), '%s.%s' % (self.world.name, self.op.name)))
        elif not bad:
            self.obs.append((rule, inst + ' #%d' % len(self.obs), True, '', None))

    def und(self, rule, st, why, what=''):
        self.obs.append((rule, self.inst + (' ' + what if what else '') + ' #%d' % len(self.obs), None, why[:300], None))

    def fail(self, rule, st, why, what=''):
        """A definite failure of a whole state."""
        if not self.wants(rule):
            return
        self.stats['obligations'] += 1
        self.report(rule, st, [(st, why)], what)

    def ok(self, rule):
        if self.wants(rule):
            self.stats['obligations'] += 1
            self.obs.append((rule, self.inst + ' #%d' % len(self.obs), True, '', None))

    # -- running ----------------------------------------------------------------
    def run(self):
        self.once()
        if self.op.spec != 'iterd' and any(o[2] is None and o[3] != 'time limit' for o in self.obs) and not any(o[2] is False for o in self.obs):
            # what is left undecided may still be wrong in the first iterations of loops
            obs, self.obs = self.obs, []
            try:
                self.once(unroll=True)
            except Unsupported:
                pass
            self.obs = obs + [o for o in self.obs if o[2] is False]

    def once(self, unroll=False):
        lin.reset()
        w, P = self.world, self.P
        clones = w.clone
        M = Models(comp=w.comps)
        self.H = S.Hooks(self.cfg.debug, self.wrapping)
        self.I = I = Interp(P, M, self.H)
        W = [i for i, t in enumerate(P.types) if t['k'] == 'struct' and t['name'].split('::')[-1] == 'W' and '::W' in t['name']]
        I.unroll = unroll
        self.W = W[0]
        self.stos = []
        S.find_storages(P, self.W, self.stos)
        if len(self.stos) != len(w.archs):
            raise Unsupported('found %d storages for %d archetypes' % (len(self.stos), len(w.archs)))
        self.sh = [S.Shape(P, ty) for _, ty in self.stos]
        self.ids = w.ids()
        from . import specs
        specs.run(self)


def inexact(st):
    from .lin import ATOMS
    for p in st.conds:
        for a in p.l.atoms():
            if not ATOMS[a].exact:
                return True
    return False


def model(st, budget=400):
    """A concrete integer instance of the facts of st (None: none found)."""
    from .lin import ATOMS
    f = st.facts
    if f.bad or f.infeasible():
        return None
    n = [0]
    atoms = sorted(fact_atoms(f))

    def go(f, i, acc):
        n[0] += 1
        if n[0] > budget:
            return None
        while i < len(atoms):
            l = f.n(Lin(0, ((atoms[i], 1),)))
            if not l.const:
                break
            acc = dict(acc)
            acc[atoms[i]] = l.c
            i += 1
        if i == len(atoms):
            return acc
        a = Lin(0, ((atoms[i], 1),))
        lo, hi = f.bounds(atoms[i]) if hasattr(f, 'bounds') else (0, 1 << 32)
        cand = []
        for v in (lo, lo + 1 if lo is not None else None, lo + 2 if lo is not None else None, hi, hi - 1 if hi is not None else None,
                  0, 1, 2, 3, 5, 8):
            if v is not None and v not in cand and (lo is None or v >= lo) and (hi is None or v <= hi):
                cand.append(v)
        for v in cand:
            g = f.add_eq(a - v)
            if g.bad or g.infeasible():
                continue
            r = go(g, i + 1, acc)
            if r is not None:
                return r
            if n[0] > budget:
                return None
        return None
    return go(f, 0, {})


def fact_atoms(f):
    s = set()
    for l in f.ges:
        s.update(l.atoms())
    for l in f.nes:
        s.update(l.atoms())
    for a, l in f.eqs.items():
        s.add(a)
        s.update(l.atoms())
    return s


def describe(I, st, t, r, m):
    from .lin import ATOMS
    s = [r]
    if st.status:
        s.append('after: %s%s' % (st.status, (' (%s)' % (st.panic,)) if st.panic else ''))
    s.append('path: ' + '; '.join('%s %s' % (a, b) for a, b in t.note[-14:]))
    s.append('for example: ' + ', '.join('%s=%d' % (ATOMS[a].name, v) for a, v in sorted(m.items()) if ATOMS[a].name[0] != '_')[:600])
    return '\n'.join(s)
