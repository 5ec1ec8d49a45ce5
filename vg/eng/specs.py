"""Specifications of the operations, evaluated on every final state of the abstract interpretation.

The seed is an arbitrary world satisfying the representation invariant; a final state is judged through probes:
an arbitrary handle (slot, generation), an arbitrary slot, an arbitrary dense position. A handle's meaning before the
operation is read from the seed's ghost entries, its meaning afterwards from the resulting storage."""
from . import storage as S
from .lin import Lin, K, new_atom
from .values import *
from .interp import State, Unsupported, UBError, Split, MISSING
from .models import Models
from .conv import Conv
from .storage import Bad, Live, Free, forall, need, gen, lookup_seed, lookup_post, View, MAXCAP, VMAX, FREE

CLIENT = ('component drop', 'component clone', 'client closure')
RI_RULES = {
    'len <= capacity <= 2^24': 'ri-counts',
    'slots block has capacity cells': 'ri-blocks', 'entities block has capacity cells': 'ri-blocks',
    'column block has capacity cells': 'ri-blocks',
    'dense -> sparse': 'ri-dense', 'sparse -> dense': 'ri-sparse', 'columns are initialised up to len': 'ri-cols',
    'free list has capacity - len slots': 'ri-free',
}


def run(T):
    R = Run(T)
    R.go()


def norm(s, v):
    """v with all linear terms reduced by the facts of s."""
    if isinstance(v, Lin):
        return s.n(v)
    if isinstance(v, Agg):
        return Agg([norm(s, x) for x in v.f])
    if isinstance(v, En):
        return En(v.v, [norm(s, x) for x in v.f])
    if isinstance(v, Opq):
        return Opq(v.tag, [norm(s, x) for x in v.a])
    if isinstance(v, Dropped):
        return Dropped(norm(s, v.v))
    if isinstance(v, Ptr):
        return Ptr(v.obj, tuple(('x', s.n(p[1])) if p[0] == 'x' else p for p in v.path), norm(s, v.meta), norm(s, v.addr))
    if isinstance(v, tuple):
        return tuple(norm(s, x) for x in v)
    return v


def eqv(s, a, b):
    """Equality of two values in s, splitting when undecided."""
    if a is b or a == b:
        return True
    if isinstance(a, Lin) and isinstance(b, Lin):
        return s.same(a, b)
    if isinstance(b, Opq) and b.tag == 'evt' and isinstance(a, Agg):
        a, b = b, a
    if isinstance(a, Opq) and a.tag == 'evt' and isinstance(b, Agg):
        a = s.ghost['hooks'].evt_expand(s, a)
    if type(a) is not type(b):
        return False
    if isinstance(a, (Agg, En)):
        return (isinstance(a, Agg) or a.v == b.v) and len(a.f) == len(b.f) and all(eqv(s, x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, Opq):
        return a.tag == b.tag and len(a.a) == len(b.a) and all(eqv(s, x, y) for x, y in zip(a.a, b.a))
    if isinstance(a, Ptr):
        return a.obj == b.obj and len(a.path) == len(b.path) and all(
            (p == q) or (p[0] == q[0] == 'x' and s.same(p[1], q[1])) for p, q in zip(a.path, b.path))
    return False


class H:
    """The handle passed to an operation."""

    def __init__(self, kind, n, id, ver):
        self.kind, self.n, self.id, self.ver = kind, n, id, ver
        self.direct = kind in 'dz'


class Run(Conv):
    def __init__(self, T):
        self.T, self.I, self.P, self.op = T, T.I, T.P, T.op
        self.N = len(T.stos)
        self.names = [a[0] for a in T.world.archs]

    # -- seeding -----------------------------------------------------------------
    def seed(self):
        T, I, P = self.T, self.I, self.P
        st = State()
        self.flags0 = []
        vals = {}
        for i, (path, ty) in enumerate(T.stos):
            sh = T.sh[i]
            fl = None
            if self.op.kw.get('flags'):
                fl = []
                for k in range(len(sh.cols)):
                    fl.append(self.seed_flag(st, i, k))
            self.flags0.append(fl or [K(0)] * len(sh.cols))
            vals[path] = S.seed_storage(I, st, sh, i, self.names[i], T.ids[i], T.cases[i], fl)
        st.mem['world'] = S.seed_value(I, st, T.W, (), vals)
        self.vw0 = [View(I, st, sh, 'world', path) for sh, (path, _) in zip(T.sh, T.stos)]
        self.heap0 = st.ghost.get('heap', ())
        return st

    def seed_flag(self, st, i, k):
        return new_atom('%s.flag%d' % (self.names[i], k), -(1 << 32), 1 << 32)

    def view(self, s, i, obj='world'):
        return View(self.I, s, self.T.sh[i], obj, self.T.stos[i][0])

    def handle_ty(self, name):
        for i, t in enumerate(self.P.types):
            if t['k'] == 'struct' and t['name'].split('::')[-1] == name and t['adt'].startswith('gecs::'):
                return i
        raise Unsupported('no type ' + name)

    def build_args(self, st, fn):
        I, P, T = self.I, self.P, self.T
        args = []
        self.h = None
        self.ns = []
        self.comps = None
        if self.op.spec == 'conv':
            return self.conv_args(st, fn)
        for j, a in enumerate(self.op.args):
            ty = fn['locals'][j + 1]
            if a == 'W':
                args.append(Ptr('world', ()))
            elif a == 'Wv':
                args.append(st.mem['world'])
            elif a == 'n':
                n = new_atom('n%d' % j, 0, (1 << 64) - 1)
                self.ns.append(n)
                args.append(n)
            elif a == 'comps':
                fs = P.fields(ty)
                vs = [Opq('zst', (P.tname(f),)) if P.zst(f) else Opq('in', (K(k),)) for k, f in enumerate(fs)]
                self.comps = vs
                args.append(self.build(ty, vs))
            elif a in 'tydz':
                n = new_atom('h.index', 0, MAXCAP - 1)
                i = new_atom('h.id', 0, 255)
                v = new_atom('h.gen', 1, VMAX)
                self.h = H(a, n, i, v)
                args.append(T.sh[0].mkpair(ty, n.scale(256) + i, v))
            else:
                raise Unsupported('argument ' + a)
        return args

    def build(self, ty, vs):
        P = self.P
        if P.zst(ty):
            return UNIT
        c = P.collapse(ty)
        if c is not None:
            return vs[c]
        return Agg(vs)

    def parts(self, ty, v):
        """Fields of a struct/tuple value (components as Opq, also zero-sized ones)."""
        P = self.P
        fs = P.fields(ty)
        c = P.collapse(ty)
        out = []
        for k, f in enumerate(fs):
            if P.zst(f):
                out.append(Opq('zst', (P.tname(f),)))
            elif c is not None:
                out.append(v)
            else:
                out.append(v.f[k])
        return out

    # -- running --------------------------------------------------------------------
    def go(self):
        T, I, P = self.T, self.I, self.P
        st = self.seed()
        self.H = I.hooks
        fnid = P.entries['w_' + self.op.name]
        fn = P.fns[fnid]
        self.fn = fn
        self.rty = fn['locals'][0]
        args = self.build_args(st, fn)
        if self.op.args and self.op.args[0] == 'Wv':
            del st.mem['world']
        if self.op.kw.get('flags'):
            I.hooks.watch = self.watch
            if self.op.spec == 'clone':
                I.hooks.cloning = self.cloning
        self.extra = []
        self.vw_init = self.vw0
        if self.op.spec == 'iterd':
            I.hooks.loophook = self.iterd_loop
            I.hooks.nopeel = True
        I.phases = bool(self.op.kw.get('phases'))
        I.enter(st, fnid, args)
        st.frames[-1].unwind = -1
        res = I.explore(st, 1)
        T.stats['steps'] += I.steps
        final = []
        for s in res:
            if s.status in ('lback', 'back'):
                continue
            if s.facts.infeasible():
                continue
            final.append(s)
        T.stats['states'] += len(final)
        T.stats['fns'] = len(I.visited_fns)
        T.stats['states'] += len(self.extra)
        for s in final + self.extra:
            self.final(s)
        return final

    def watch(self, I, st):
        """Borrow flags at the time of a client call."""
        fl = []
        for i in range(self.N):
            fl.append(tuple(self.view(st, i).flags))
        st.event('flags', tuple(fl))

    def cloning(self, I, st, obj):
        """The borrow flag of the column whose value is shown to the client's Clone."""
        if obj is None:
            return
        for i in range(self.N):
            vw = self.view(st, i)
            for k, p in enumerate(vw.cols):
                if isinstance(p, Ptr) and p.obj == obj:
                    st.event('cflag', i, k, vw.flags[k])

    def clone_flags(self, s):
        def f(s):
            for e in s.events:
                for x in ([e] if e[0] == 'cflag' else [y for a in e[3] for y in a if y[0] == 'cflag'] if e[0] == 'loop' else ()):
                    if not isinstance(x[3], Lin) or e[0] == 'loop' and e[1] in x[3].atoms():
                        raise Unsupported('borrow flag %r in a loop' % (x[3],))
                    need(s, Pred('ge', x[3] - 1), 'column %d of %s is not marked as borrowed while Clone of its values runs' % (x[2], self.names[x[1]]))
        self.T.ob('granted', s, f, 'during Clone')

    def final(self, s):
        T = self.T
        self.vw0 = s.ghost.get('vw0', self.vw_init)
        if s.status == 'unsup':
            T.und('exact', s, s.why)
            return
        if s.status == 'ub':
            T.fail('no-ub', s, s.why)
            return
        T.ok('no-ub')
        if s.status == 'abort':
            if s.why == 'out of memory' or (s.panic and s.panic[0] in CLIENT) or s.why.startswith('panic in a cleanup') and self.client_abort(s):
                return
            T.fail('panic', s, 'the process aborts: %s' % s.why)
            return
        f = getattr(self, 'spec_' + self.op.spec)
        try:
            f(s)
        except Unsupported as e:
            T.und('exact', s, str(e))

    def client_abort(self, s):
        return True

    # -- common obligations ------------------------------------------------------------
    def ri(self, s, obj='world', which=None):
        T = self.T
        for i in range(self.N):
            if which is not None and i not in which:
                continue
            vw = self.view(s, i, obj)

            def rep(rule, bad, i=i):
                r = RI_RULES[rule]
                if T.wants(r):
                    T.stats['obligations'] += 1
                    T.report(r, s, bad, self.names[i])
            if which is None and obj == 'world' and self.untouched(s, i):
                continue
            S.check_ri(self.I, s, vw, T.ids[i], rep)

    def untouched(self, s, i):
        """Archetype i has the very same value and arrays as in the seed (its invariant holds by assumption)."""
        vw, v0 = self.view(s, i), self.vw0[i]
        if vw.v != v0.v:
            return False
        for oid in self.heap0:
            if oid.startswith(self.names[i] + '.'):
                a = s.mem.get(oid)
                if not isinstance(a, Arr) or a.log or a.base[0] in ('keep', 'uninit'):
                    return False
        return True

    def target(self, s, archs=None):
        """(archetype, live entry) that the operation's handle designates in the seed, or None."""
        h = self.h
        if archs is None:
            archs = range(self.N) if self.op.kw.get('world') and not self.op.kw.get('find') else [self.op.kw['arch']]
            m = self.op.kw.get('archs')
            if m is not None:
                archs = [i for i in (m if self.op.kw.get('world') else archs) if i in m]
        for i in archs:
            if s.decide(Pred('eq', h.id - self.T.ids[i])):
                return self.target_in(s, i)
        return None

    def target_in(self, s, i):
        h, v0 = self.h, self.vw0[i]
        if not h.direct:
            e = lookup_seed(self.I, s, i, h.n, h.ver)
            return None if e is None else (i, e)
        if not s.decide(Pred('eq', v0.ver - h.ver)):
            return None
        if not s.decide(Pred('ge', v0.len - h.n - 1)):
            return None
        e = self.H.dense_entry(s, i, s.n(h.n))
        return None if e is None else (i, self.by_id(s, i, e.id))

    def by_id(self, s, i, eid):
        for e in s.ghost[('sto', i)].live:
            if e.id == eid:
                return e
        raise Unsupported('lost entry')

    def own(self, s):
        """The handle may have been issued by this world: such handles must be answered without a panic."""
        h = self.h
        archs = range(self.N) if self.op.kw.get('world') else [self.op.kw['arch']]
        for i in archs:
            if s.decide(Pred('eq', h.id - self.T.ids[i])):
                v0 = self.vw0[i]
                if h.direct:
                    if s.decide(Pred('ge', v0.ver - h.ver - 1)):
                        return s.decide(Pred('ge', K(MAXCAP - 1) - h.n))
                    return s.decide(Pred('eq', v0.ver - h.ver)) and s.decide(Pred('ge', v0.len - h.n - 1))
                if not s.decide(Pred('ge', v0.cap - h.n - 1)):
                    return False
                e = self.H.slot_entry(s, i, s.n(h.n))
                return s.decide(Pred('ge', e.ver - h.ver))
        return False

    def probe(self, s):
        return gen(s, 'x', 0, MAXCAP - 1), gen(s, 'y', 1, VMAX)

    def seed_col(self, i, k, e):
        t = self.T.sh[i].cols[k][1]
        if self.P.zst(t):
            return Opq('zst', (self.P.tname(t),))
        return Opq('col', (i, k, e.id))

    def same(self, s, what='', only=None, removed=None, created=None, over=None, obj='world', wrap=None, rules=('map', 'values')):
        """For an arbitrary handle: it designates the same entity with the same values as before.
        removed(s) -> (arch, entry) that must be gone; created = (arch, slot, ver, values) that must have appeared;
        over(s, arch, entry) -> {column: value} written to it; wrap: what a value has become (clone)."""
        T = self.T
        for i in range(self.N):
            if only is not None and i not in only:
                continue
            if obj == 'world' and removed is None and created is None and over is None and self.untouched(s, i):
                continue
            vw = self.view(s, i, obj)

            def f(s, i=i, vw=vw, vals=False):
                x, y = self.probe(s)
                rm = removed(s) if removed else None
                if created is not None and created[0] == i and s.same(x, created[1]) and s.same(y, created[2]):
                    p = lookup_post(self.I, s, vw, x, y)
                    if p is None:
                        raise Bad('the handle just returned does not resolve')
                    if vals:
                        for k in range(len(vw.cols)):
                            v = vw.col(s, k, p)
                            if not eqv(s, v, created[3][k]):
                                raise Bad('the new entity holds %r in column %d, not its argument' % (v, k))
                    return
                e = lookup_seed(self.I, s, i, x, y)
                p = lookup_post(self.I, s, vw, x, y)
                if e is not None and rm is not None and rm[0] == i and rm[1].id == e.id:
                    if p is not None:
                        raise Bad('the destroyed entity still resolves')
                    return
                if e is None:
                    if p is not None:
                        raise Bad('a handle that designated no entity (slot %r, generation %r) now resolves' % (s.n(x), s.n(y)))
                    return
                if p is None:
                    raise Bad('the live entity in slot %r no longer resolves' % (s.n(x),))
                if vals:
                    ov = over(s, i, e) if over else {}
                    for k in range(len(vw.cols)):
                        want = ov.get(k)
                        if want is None:
                            want = self.seed_col(i, k, e)
                            if wrap and want.tag != 'zst':
                                want = wrap(want)
                        v = vw.col(s, k, p)
                        if not eqv(s, v, want):
                            raise Bad('entity in slot %r (dense position %r before, %r now) holds %r in column %d, expected %r' % (
                                s.n(x), s.n(e.dense), s.n(p), v, k, want))
            T.ob(rules[0], s, f, what + ' ' + self.names[i])
            T.ob(rules[1], s, lambda s, f=f: f(s, vals=True), what + ' ' + self.names[i])

    def gens(self, s, obj='world'):
        """Generations of slots never fall; a slot that lost its entity has a larger one."""
        T = self.T
        for i in range(self.N):
            if obj == 'world' and self.untouched(s, i):
                continue
            vw = self.view(s, i, obj)

            def f(s, i=i, vw=vw):
                g = s.ghost[('sto', i)]
                need(s, Pred('ge', vw.cap - g.cap), 'capacity falls')
                if s.decide(Pred('eq', g.cap)):
                    return
                x = gen(s, 'x', 0, MAXCAP - 1, lambda a: g.cap - a - 1)
                e = self.H.slot_entry(s, i, s.n(x))
                c = vw.sh.unpair(vw.sh.slot_ty, vw.slot(s, x))
                if c is None:
                    raise Bad('slot %r is uninitialised' % (s.n(x),))
                if T.wrapping and s.decide(Pred('eq', e.ver - VMAX)):
                    return
                need(s, Pred('ge', c[1] - e.ver), 'the generation of slot %r falls from %r to %r' % (s.n(x), s.n(e.ver), s.n(c[1])))
                if isinstance(e, Live) and lookup_post(self.I, s, vw, x, e.ver) is None:
                    need(s, Pred('ge', c[1] - e.ver - 1), 'slot %r loses its entity but keeps generation %r' % (s.n(x), s.n(e.ver)))
            T.ob('gen', s, f, self.names[i])

    def versions(self, s, removal=None, structural=True):
        """removal(s) -> archetype that lost an entity."""
        T = self.T
        for i in range(self.N):
            if self.untouched(s, i) and removal is None:
                continue
            vw, v0 = self.view(s, i), self.vw0[i]

            def f(s, i=i, vw=vw, v0=v0):
                rm = removal(s) if removal else None
                if T.wrapping and s.decide(Pred('eq', v0.ver - VMAX)):
                    if rm == i and s.decide(Pred('eq', vw.ver - v0.ver)):
                        raise Bad('a removal leaves the archetype version at its maximum')
                    return
                need(s, Pred('ge', vw.ver - v0.ver), 'the archetype version falls')
                if rm == i:
                    need(s, Pred('ge', vw.ver - v0.ver - 1), 'a removal leaves the archetype version at %r' % (s.n(v0.ver),))
                    return
                if s.decide(Pred('eq', vw.ver - v0.ver)):
                    # direct handles issued before stay valid: no entity may have moved or gone
                    d = gen(s, 'd', 0, MAXCAP - 1, lambda a: v0.len - a - 1)
                    e = self.H.dense_entry(s, i, s.n(d))
                    p = lookup_post(self.I, s, vw, e.slot, e.ver)
                    if p is None:
                        raise Bad('an entity disappears without a version change')
                    need(s, Pred('eq', p - d), 'an entity moves from dense position %r to %r without a version change' % (s.n(d), s.n(p)))
                    need(s, Pred('ge', vw.len - p - 1), 'dense position beyond len')
            T.ob('version', s, f, self.names[i])
            if not structural:
                T.ob('stable', s, lambda s, vw=vw, v0=v0: need(s, Pred('eq', vw.ver - v0.ver), 'the archetype version changes although nothing is added or removed'), self.names[i])

    def lens(self, s, delta=None, capsame=True):
        """delta(s) -> {archetype: change of len}."""
        T = self.T
        for i in range(self.N):
            vw, v0 = self.view(s, i), self.vw0[i]

            def f(s, i=i, vw=vw, v0=v0):
                d = (delta(s) if delta else {}).get(i, 0)
                need(s, Pred('eq', vw.len - v0.len - d), 'len goes from %r to %r' % (s.n(v0.len), s.n(vw.len)))
                if capsame or d == 0:
                    need(s, Pred('eq', vw.cap - v0.cap), 'capacity goes from %r to %r' % (s.n(v0.cap), s.n(vw.cap)))
                else:
                    if not s.decide(Pred('ge', v0.len - v0.cap)):
                        need(s, Pred('eq', vw.cap - v0.cap), 'capacity goes from %r to %r although a position was free' % (s.n(v0.cap), s.n(vw.cap)))
                        for a, b, w in [(vw.slots, v0.slots, 'slots'), (vw.ents, v0.ents, 'entities')] + list(
                                (a, b, 'column') for a, b in zip(vw.cols, v0.cols)):
                            if isinstance(a, Ptr) and a.obj != b.obj:
                                raise Bad('%s are reallocated although a position was free' % w)
                    need(s, Pred('ge', vw.cap - v0.cap), 'capacity falls')
            T.ob('len', s, f, self.names[i])

    def flags_same(self, s, obj='world'):
        for i in range(self.N):
            vw, v0 = self.view(s, i, obj), self.vw0[i]

            def f(s, vw=vw, v0=v0):
                for k, (a, b) in enumerate(zip(vw.flags, v0.flags)):
                    need(s, Pred('eq', a - b), 'the borrow flag of column %d goes from %r to %r' % (k, s.n(b), s.n(a)))
            self.T.ob('flags', s, f, self.names[i])

    def heap(self, s, roots):
        """Every block still allocated is owned by one of the roots."""
        T = self.T
        if not T.wants('heap'):
            return
        own = set()
        for obj in roots:
            for i in range(self.N):
                vw = self.view(s, i, obj)
                for p in [vw.slots, vw.ents] + vw.cols:
                    if isinstance(p, Ptr) and p.obj is not None:
                        own.add(p.obj)
                for v in (vw.created, vw.destroyed):
                    if isinstance(v, VecV):
                        own.add(v.obj)
        for oid in s.ghost.get('heap', ()):
            if self.op.spec in ('new', 'newarch') and oid in self.heap0:
                continue
            a = s.mem.get(oid)
            if not isinstance(a, Freed) and a is not None and oid not in own:
                T.fail('heap', s, 'block %s is neither freed nor owned by the world' % oid)
                return
            if isinstance(a, Freed) and oid in own:
                T.fail('heap', s, 'block %s is freed while the world owns it' % oid)
                return
        T.ok('heap')

    def drops(self, s, want):
        """The component values dropped are exactly those of want(s) (list of values, once each)."""
        T = self.T

        def f(s):
            w = list(want(s)) if want else []
            for e in s.events:
                if e[0] == 'drop':
                    v = e[1]
                    for k, x in enumerate(w):
                        if eqv(s, x, v):
                            del w[k]
                            break
                    else:
                        raise Bad('%r is dropped although it was handed out or is still owned by the world' % (v,))
                elif e[0] == 'zdrop':
                    for k, x in enumerate(w):
                        if x.tag == 'zst' and x.a[0].split('::')[-1] == e[1]:
                            del w[k]
                            break
                    else:
                        raise Bad('a zero-sized %s is dropped although it was handed out or is still owned' % e[1])
                elif e[0] == 'loop':
                    for alt in e[3]:
                        for t in alt:
                            if t[0] in ('drop', 'zdrop'):
                                if s.decide(Pred('ge', e[2] - 1)):
                                    raise Bad('component values are dropped in a loop')
            if w:
                raise Bad('%r is never dropped' % (w[0],))
        T.ob('drops', s, f)

    def logs(self, s, created=None, destroyed=None, obj='world', skip=(), rule='log'):
        """The event logs gain exactly the given handles: created/destroyed(s) -> (arch, key, ver) or None."""
        T = self.T
        if not T.events or not T.wants(rule):
            return
        for i in range(self.N):
            if i in skip:
                continue
            vw, v0 = self.view(s, i, obj), self.vw0[i]
            for w, fn in (('created', created), ('destroyed', destroyed)):
                a, b = getattr(vw, w), getattr(v0, w)

                def f(s, i=i, a=a, b=b, fn=fn, w=w, vw=vw):
                    if not isinstance(a, VecV):
                        raise Bad('the %s log is not a live Vec' % w)
                    h = fn(s) if fn else None
                    add = 1 if h is not None and h[0] == i else 0
                    need(s, Pred('eq', a.len - b.len - add), 'the %s log of %s grows by %r, expected %d' % (w, self.names[i], s.n(a.len - b.len), add))
                    arr = s.mem.get(a.obj)
                    if isinstance(arr, Freed):
                        raise Bad('the %s log was freed' % w)
                    if s.decide(Pred('ge', b.len - 1)):
                        q = gen(s, 'q', 0, 1 << 40, lambda q: b.len - q - 1)
                        v = self.I.arr_cell(s, arr, s.n(q))
                        if not eqv(s, v, Opq('evt', (i, w, s.n(q)))):
                            raise Bad('an earlier entry of the %s log changes to %r' % (w, v))
                    if add:
                        v = vw.sh.unpair(vw.sh.ent_ty, self.I.arr_cell(s, arr, s.n(b.len)))
                        if v is None or not (s.same(v[0], h[1]) and s.same(v[1], h[2])):
                            raise Bad('the %s log records %r, not the handle (%r, %r)' % (w, v, s.n(h[1]), s.n(h[2])))
                T.ob(rule, s, f, self.names[i])

    def panics(self, s, allowed):
        """A panic of the library itself is allowed only under the documented condition."""
        if s.panic is None or s.panic[0] in CLIENT:
            return
        def f(s):
            if not allowed(s):
                raise Bad('panic "%s" at %s' % s.panic)
        self.T.ob('panic', s, f)

    def key(self, i, n):
        return n.scale(256) + self.T.ids[i]

    # -- creation -------------------------------------------------------------------
    def spec_create(self, s):
        i = self.op.kw['arch']
        if s.status == 'ret':
            self.created(s, i, s.ret, True)
        else:
            self.create_panic(s, i)

    def created(self, s, i, h, grow):
        T = self.T
        sh = T.sh[i]
        c = sh.unpair(sh.ent_ty, h)
        if c is None:
            T.fail('ret', s, 'create returns an uninitialised handle')
            return
        key, ver = s.n(c[0]), c[1]
        q = key - T.ids[i]
        slot = None
        if q.c % 256 == 0 and all(k % 256 == 0 for _, k in q.t):
            slot = Lin(q.c // 256, tuple((a, k // 256) for a, k in q.t))
        if slot is None:
            s2 = s.copy()
            z = new_atom('q', 0, MAXCAP - 1)
            s2.eq(q - z.scale(256))
            if s2.facts.infeasible():
                T.fail('fresh', s, 'create in %s (archetype id %d) returns key %r' % (self.names[i], T.ids[i], key))
            else:
                T.und('fresh', s, 'key %r' % (key,))
            return
        self.ri(s)
        self.same(s, created=(i, slot, ver, self.comps))
        self.gens(s)

        def fresh(s):
            g = s.ghost[('sto', i)]
            vw = self.view(s, i)
            need(s, Pred('ge', slot), 'negative slot')
            need(s, Pred('ge', vw.cap - slot - 1), 'the new slot %r is beyond capacity' % (s.n(slot),))
            if s.decide(Pred('ge', slot - g.cap)):
                need(s, Pred('ge', ver - 1), 'generation 0')
                return
            e = self.H.slot_entry(s, i, s.n(slot))
            if isinstance(e, Live):
                raise Bad('create returns slot %r, which is in use' % (s.n(slot),))
            need(s, Pred('ge', ver - e.ver), 'create returns generation %r for slot %r, which is already at %r' % (s.n(ver), s.n(slot), s.n(e.ver)))
        T.ob('fresh', s, fresh)
        self.versions(s)
        self.lens(s, lambda s: {i: 1}, capsame=not grow)
        self.flags_same(s)
        self.drops(s, None)
        self.heap(s, ['world'])
        self.logs(s, created=lambda s: (i, self.key(i, slot), ver))

    def create_panic(self, s, i):
        v0 = self.vw0[i]
        self.panics(s, lambda s: s.decide(Pred('ge', v0.len - MAXCAP)))
        self.ri(s)
        self.same(s, rules=('unwind-map', 'unwind-map'))
        self.gens(s)
        self.versions(s)
        self.lens(s)
        self.flags_same(s)
        self.drops(s, lambda s: [v for (_, t), v in zip(self.T.sh[i].cols, self.comps) if self.P.ty(t)['drop']])
        self.heap(s, ['world'])
        self.logs(s)

    def spec_cwc(self, s):
        i = self.op.kw['arch']
        v0 = self.vw0[i]
        T = self.T
        if s.status != 'ret':
            self.panics(s, lambda s: False)
            return
        r = s.ret
        if not isinstance(r, En):
            raise Unsupported('result %r' % (r,))
        if r.v == 0:
            T.ob('ret', s, lambda s: need(s, Pred('ge', v0.cap - v0.len - 1), 'create_within_capacity succeeds although len == capacity'))
            self.created(s, i, r.f[0], False)
        else:
            T.ob('ret', s, lambda s: need(s, Pred('ge', v0.len - v0.cap), 'create_within_capacity fails although len < capacity'))
            got = self.parts(self.P.fields(self.rty, 1)[0], r.f[0])

            def back(s):
                for k, (a, b) in enumerate(zip(got, self.comps)):
                    if not eqv(s, a, b):
                        raise Bad('the failed creation returns %r as component %d' % (a, k))
            T.ob('ret', s, back, 'arguments')
            self.unchanged(s)

    def unchanged(self, s, over=None, drops=None):
        """Nothing observable of the world changed (apart from written components)."""
        self.ri(s)
        self.same(s, over=over)
        self.gens(s)
        self.versions(s, structural=False)
        self.lens(s)
        self.flags_same(s)
        self.drops(s, drops)
        self.heap(s, ['world'])
        self.logs(s)

    # -- destruction ------------------------------------------------------------------
    def spec_destroy(self, s):
        T = self.T
        if s.status == 'ret':
            r = s.ret
            if not isinstance(r, En):
                raise Unsupported('result %r' % (r,))
            some = r.v == 1
            self.accept(s, some)
            if not some:
                self.unchanged(s)
                return

            def removed(s):
                t = self.target(s)
                if t is None:
                    raise Bad('an entity is removed for a handle that designates none')
                return t
            if self.op.kw.get('ret') == 'tuple':
                got = self.parts(self.P.fields(self.rty, 1)[0], r.f[0])

                def vals(s):
                    i, e = removed(s)
                    for k, v in enumerate(got):
                        w = self.seed_col(i, k, e)
                        if not eqv(s, v, w):
                            raise Bad('destroy returns %r as component %d, expected the entity\'s own %r' % (v, k, w))
                T.ob('removed', s, vals)
                self.drops(s, None)
            else:
                self.drops(s, lambda s: self.all_cols(*removed(s)))
            self.after_removal(s, removed)
            return
        # unwinding
        def allowed(s):
            if not self.own(s):
                return True
            t = self.target(s)
            if t is None or T.wrapping:
                return False
            i, e = t
            return s.decide(Pred('eq', e.ver - VMAX)) or s.decide(Pred('eq', self.vw0[i].ver - VMAX))
        self.panics(s, allowed)
        # the entity is gone exactly when its slot no longer designates it
        def gone(s):
            t = self.target(s)
            if t is None:
                return None
            i, e = t
            p = lookup_post(self.I, s, self.view(s, i), e.slot, e.ver)
            return t if p is None else None
        self.after_removal(s, gone, unwinding=True)
        self.drops(s, lambda s: (lambda t: self.all_cols(*t) if t else [])(gone(s)))

    def all_cols(self, i, e):
        """Values with destructors of an entity."""
        return [self.seed_col(i, k, e) for k in range(len(self.T.sh[i].cols)) if self.P.ty(self.T.sh[i].cols[k][1])['drop']]

    def after_removal(self, s, removed, unwinding=False):
        self.ri(s)
        self.same(s, removed=removed, rules=('unwind-map', 'unwind-map') if unwinding else ('map', 'values'))
        self.gens(s)
        arch = lambda s: (lambda t: t[0] if t else None)(removed(s))
        self.versions(s, removal=arch)
        self.lens(s, lambda s: (lambda i: {} if i is None else {i: -1})(arch(s)))
        self.flags_same(s)
        self.heap(s, ['world'])
        self.logs(s, destroyed=lambda s: (lambda t: (t[0], self.key(t[0], t[1].slot), t[1].ver) if t else None)(removed(s)))

    def accept(self, s, some, rule='ret'):
        """The handle is accepted exactly when it designates a live entity."""
        def f(s):
            t = self.target(s)
            if some and t is None:
                raise Bad('a handle that designates no live entity is accepted')
            if not some and t is not None:
                raise Bad('the handle of a live entity is rejected')
        self.T.ob(rule, s, f)
        if self.h.direct:
            self.T.ob('direct', s, f)

    def ro_panic(self, s):
        """Panics of lookups: only for handles this world cannot have issued."""
        self.panics(s, lambda s: not self.own(s))

    # -- lookups ----------------------------------------------------------------------
    def lookup(self, s):
        if s.status != 'ret':
            self.ro_panic(s)
            self.unchanged(s)
            return False
        self.unchanged(s)
        return True

    def as_bool(self, s, v):
        if isinstance(v, Pred):
            return s.decide(v)
        if isinstance(v, bool):
            return v
        raise Unsupported('boolean %r' % (v,))

    def spec_contains(self, s):
        if not self.lookup(s):
            return

        def f(s):
            got = self.as_bool(s, s.ret)
            t = self.target(s)
            if got and t is None:
                raise Bad('contains is true for a handle that designates no live entity')
            if not got and t is not None:
                raise Bad('contains is false for the handle of a live entity')
        self.T.ob('ret', s, f)
        if self.h.direct:
            self.T.ob('direct', s, f)

    def spec_resolve(self, s):
        if not self.lookup(s):
            return
        r = s.ret
        self.accept(s, r.v == 1)
        if r.v == 1:
            def f(s):
                t = self.target(s)
                if t is not None:
                    need(s, Pred('eq', r.f[0] - t[1].dense), 'resolve returns dense position %r, the entity is at %r' % (s.n(r.f[0]), s.n(t[1].dense)))
            self.T.ob('observe', s, f)

    def spec_direct(self, s):
        if not self.lookup(s):
            return
        r = s.ret
        self.accept(s, r.v == 1)
        if r.v == 1:
            ty = self.P.fields(self.rty, 1)[0]
            c = self.T.sh[0].unpair(ty, r.f[0])

            def f(s):
                t = self.target(s)
                if t is not None:
                    self.need_direct(s, t, c)
            self.T.ob('direct', s, f)

    def need_direct(self, s, t, c):
        i, e = t
        if c is None:
            raise Bad('an uninitialised direct handle')
        need(s, Pred('eq', c[0] - self.key(i, e.dense)), 'the direct handle carries key %r, the entity is at dense position %r of %s' % (s.n(c[0]), s.n(e.dense), self.names[i]))
        need(s, Pred('eq', c[1] - self.vw0[i].ver), 'the direct handle carries version %r, the archetype is at %r' % (s.n(c[1]), s.n(self.vw0[i].ver)))

    def need_entity(self, s, t, c):
        i, e = t
        if c is None:
            raise Bad('an uninitialised handle')
        need(s, Pred('eq', c[0] - self.key(i, e.slot)), 'the handle shown carries key %r, expected slot %r of %s' % (s.n(c[0]), s.n(e.slot), self.names[i]))
        need(s, Pred('eq', c[1] - e.ver), 'the handle shown carries generation %r, expected %r' % (s.n(c[1]), s.n(e.ver)))

    # -- single-entity access (views, borrows, finds) --------------------------------------
    def calls(self, s):
        return [e for e in s.events if e[0] == 'call']

    def role_col(self, i, role):
        """Column number of a role in archetype i (None: not a component role or absent)."""
        if role[0] in 'mr' and role[1:].isdigit():
            return int(role[1:])
        if role[0] in 'MR' and len(role) > 1:
            for k, (_, t) in enumerate(self.T.sh[i].cols):
                if self.P.tname(t).split('::')[-1] in role[1:].split('|'):
                    return k
            raise Unsupported('column of ' + role)
        return None

    def shown(self, s, t, ev, values):
        """The arguments of a client call are those of entity t."""
        i, e = t
        sh = self.T.sh[i]
        vw = self.vw0[i]
        for a, snap, role in zip(ev[2], ev[3], self.op.kw['obs']):
            k = self.role_col(i, role)
            if role == 'ix':
                if not values:
                    need(s, Pred('eq', a - e.dense), 'the index shown is %r, the entity is at %r' % (s.n(a), s.n(e.dense)))
            elif role in ('h', 'y'):
                if not values:
                    self.need_entity(s, t, sh.unpair(sh.ent_ty, snap))
            elif role in ('d', 'z'):
                if not values:
                    self.need_direct(s, t, sh.unpair(sh.ent_ty, snap))
            elif k is not None and values:
                w = self.seed_col(i, k, e)
                if not eqv(s, snap, w):
                    raise Bad('parameter %s shows %r, expected the entity\'s own %r' % (role, snap, w))
                if w.tag != 'zst':
                    if a.obj != vw.cols[k].obj or len(a.path) != 1 or not s.same(a.path[0][1], e.dense):
                        raise Bad('parameter %s points to %r, not to the entity\'s cell' % (role, a))

    def writes(self, i, ev):
        """column -> value written by a client call on an entity of archetype i."""
        out = {}
        j = 0
        for role in self.op.kw['obs']:
            k = self.role_col(i, role)
            if role[0] in 'mM' and k is not None:
                if ev[4][j] is not None:
                    out[k] = ev[4][j]
                j += 1
        return out

    def conflict(self, s, i, roles=None):
        """Some column needed by the access is borrowed in a conflicting way."""
        for role in roles or self.op.kw['obs']:
            try:
                k = self.role_col(i, role)
            except Unsupported:
                continue
            if k is None:
                continue
            f = self.flags0[i][k]
            if role[0] in 'mM':
                if not s.decide(Pred('eq', f)):
                    return role
            elif s.decide(Pred('ge', -f - 1)):
                return role
        return None

    def granted(self, s, arch_of):
        """Each client call happens without a conflicting borrow, and with its own borrows recorded."""
        T = self.T
        if not self.op.kw.get('flags') or not T.wants('granted'):
            return

        def f(s):
            last = None
            for e in s.events:
                if e[0] == 'flags':
                    last = e[1]
                elif e[0] == 'call':
                    i = arch_of(s, e)
                    if i is None or last is None:
                        continue
                    self.grant_one(s, i, last)
        T.ob('granted', s, f)

    def grant_one(self, s, i, fl):
        c = self.conflict(s, i)
        if c is not None:
            raise Bad('access %s to %s is granted although the column is borrowed in a conflicting way' % (c, self.names[i]))
        modes = {}
        for role in self.op.kw['obs']:
            k = self.role_col(i, role)
            if k is not None:
                modes[k] = role[0].lower()
        for j in range(self.N):
            for k, x in enumerate(fl[j]):
                if j == i and k in modes:
                    if modes[k] == 'm':
                        need(s, Pred('ge', -x - 1), 'column %d of %s is not marked as mutably borrowed during the access' % (k, self.names[j]))
                    else:
                        need(s, Pred('ge', x - 1), 'column %d of %s is not marked as borrowed during the access' % (k, self.names[j]))
                else:
                    need(s, Pred('eq', x - self.flags0[j][k]), 'column %d of %s, which the access does not name, changes its borrow flag' % (k, self.names[j]))

    def spec_observe(self, s):
        T = self.T
        calls = self.calls(s)
        if any(e[0] == 'loop' for e in s.events):
            T.und('observe', s, 'client call in a loop')
            return
        if len(calls) > 1:
            T.fail('observe', s, 'the closure runs %d times' % len(calls))
            return

        def tgt(s):
            return self.target(s)

        def over(s, i, e):
            if not calls:
                return {}
            t = tgt(s)
            if t is None or t[0] != i or t[1].id != e.id:
                return {}
            return self.writes(i, calls[0])
        if calls:
            ev = calls[0]

            def one(s, values):
                t = tgt(s)
                if t is None:
                    raise Bad('access is granted for a handle that designates no live entity')
                self.shown(s, t, ev, values)
            T.ob('observe', s, lambda s: one(s, False))
            T.ob('observe-values', s, lambda s: one(s, True))
            self.granted(s, lambda s, e: (lambda t: t[0] if t else None)(tgt(s)))
        if s.status == 'ret':
            self.accept(s, bool(calls))
            if self.op.kw.get('ret') == 'bool':
                def rv(s):
                    if self.as_bool(s, s.ret) != bool(calls):
                        raise Bad('the result says %s' % (not bool(calls)))
                T.ob('ret', s, rv)
            elif self.op.kw.get('ret') == 'optbool':
                got = [e[1] for e in s.events if e[0] == 'cret']

                def rv(s):
                    r = s.ret
                    if not isinstance(r, En):
                        raise Unsupported('result %r' % (r,))
                    if (r.v == 1) != bool(calls):
                        raise Bad('the query returns %s' % ('Some, but the closure did not run' if r.v == 1 else 'None although the closure ran'))
                    if r.v == 1 and self.as_bool(s, r.f[0]) != (got[-1] == 'true'):
                        raise Bad('the query does not return what its closure returned')
                T.ob('ret', s, rv)
        else:
            def allowed(s):
                if not self.own(s):
                    return True
                t = tgt(s)
                return t is not None and bool(self.op.kw.get('flags')) and self.conflict(s, t[0]) is not None
            self.panics(s, allowed)
        if calls and any(r[0] in 'mM' for r in self.op.kw['obs']):
            self.ri(s)
            self.same(s, over=over, rules=('map', 'write'))
            self.same_rest(s)
        else:
            self.unchanged(s)

    def same_rest(self, s):
        self.gens(s)
        self.versions(s, structural=False)
        self.lens(s)
        self.flags_same(s)
        self.drops(s, None)
        self.heap(s, ['world'])
        self.logs(s)

    def spec_pick(self, s):
        """nth(k) and last() of an archetype's iterator."""
        T, i = self.T, self.op.kw['arch']
        if any(e[0] == 'loop' for e in s.events) or len(self.calls(s)) > 1:
            T.und('observe', s, 'several client calls')
            return
        calls = self.calls(s)
        ln = self.vw0[i].len
        at = self.ns[0] if self.ns else ln - 1

        def have(s):
            return s.decide(Pred('ge', ln - 1)) and s.decide(Pred('ge', ln - at - 1))
        if calls:
            def one(s, values):
                if not have(s):
                    raise Bad('%s shows an entity although there is none at %r (len is %r)' % (self.op.kw['which'], s.n(at), s.n(ln)))
                e = self.by_id(s, i, self.H.dense_entry(s, i, s.n(at)).id)
                self.shown(s, (i, e), calls[0], values)
            T.ob('observe', s, lambda s: one(s, False))
            T.ob('observe-values', s, lambda s: one(s, True))
        if s.status == 'ret':
            def some(s):
                if have(s) != bool(calls):
                    raise Bad('%s yields %s for position %r of %r' % (self.op.kw['which'], 'an item' if calls else 'nothing', s.n(at), s.n(ln)))
            T.ob('visits', s, some)
        else:
            self.panics(s, lambda s: False)

        def over(s, j, e):
            if calls and j == i and have(s) and s.decide(Pred('eq', e.dense - at)):
                return self.writes(i, calls[0])
            return {}
        self.ri(s)
        self.same(s, over=over, rules=('map', 'write'))
        self.same_rest(s)

    def spec_hint(self, s):
        """A lower bound of at most len, an upper bound of at least len."""
        if s.status != 'ret':
            self.panics(s, lambda s: False)
            return
        self.unchanged(s)
        ln = self.vw0[self.op.kw['arch']].len
        lo, some, hi = s.ret.f

        def f(s):
            need(s, Pred('ge', ln - lo), 'size_hint() promises at least %r items, there are %r' % (s.n(lo), s.n(ln)))
            if self.as_bool(s, some):
                need(s, Pred('ge', hi - ln), 'size_hint() promises at most %r items, there are %r' % (s.n(hi), s.n(ln)))
        self.T.ob('visits', s, f)

    # -- accessors -----------------------------------------------------------------------
    def value_is(self, s, want, what):
        if s.status != 'ret':
            self.panics(s, lambda s: False)
            return
        self.unchanged(s)
        self.T.ob('ret', s, lambda s: need(s, Pred('eq', s.ret - want), '%s returns %r, expected %r' % (what, s.n(s.ret), s.n(want))))
        self.T.ob('len', s, lambda s: need(s, Pred('eq', s.ret - want), '%s returns %r, expected %r' % (what, s.n(s.ret), s.n(want))))

    def spec_len(self, s):
        self.value_is(s, self.vw0[self.op.kw['arch']].len, 'len()')

    def spec_capacity(self, s):
        self.value_is(s, self.vw0[self.op.kw['arch']].cap, 'capacity()')

    def spec_version(self, s):
        self.value_is(s, self.vw0[self.op.kw['arch']].ver, 'version()')

    def spec_is_empty(self, s):
        if s.status != 'ret':
            self.panics(s, lambda s: False)
            return
        self.unchanged(s)
        ln = self.vw0[self.op.kw['arch']].len

        def f(s):
            if self.as_bool(s, s.ret) != s.decide(Pred('eq', ln)):
                raise Bad('is_empty() disagrees with len() == %r' % (s.n(ln),))
        self.T.ob('len', s, f)

    def slice_ok(self, s, p, i, what):
        v0 = self.vw0[i]
        if not isinstance(p, Ptr) or p.meta is None:
            raise Unsupported('slice %r' % (p,))
        need(s, Pred('eq', p.meta - v0.len), 'the slice has %r elements, len() is %r' % (s.n(p.meta), s.n(v0.len)))
        if s.decide(Pred('eq', v0.len)):
            return
        b = v0.ents if what == 'h' else v0.cols[what]
        if b.obj is None:
            return
        if p.obj != b.obj or len(p.path) != 1 or not s.same(p.path[0][1], K(0)):
            raise Bad('the slice starts at %r, not at the beginning of %s' % (p, b.obj))

    def spec_slice(self, s):
        if s.status != 'ret':
            self.panics(s, lambda s: False)
            return
        self.unchanged(s)
        for r in ('visits', 'observe-values'):
            self.T.ob(r, s, lambda s: self.slice_ok(s, s.ret, self.op.kw['arch'], self.op.kw['what']))

    def spec_bslice(self, s):
        i = self.op.kw['arch']
        calls = self.calls(s)
        if s.status == 'ret' and len(calls) != 1:
            self.T.fail('visits', s, 'no slice is returned')
        for e in calls:
            for r in ('visits', 'observe-values'):
                self.T.ob(r, s, lambda s, e=e: self.slice_ok(s, e[2][0], i, self.op.kw['what']))
        self.granted(s, lambda s, e: i)
        if s.status == 'unwind':
            self.panics(s, lambda s: self.conflict(s, i) is not None)
        self.unchanged(s)

    # -- construction and destruction of worlds ---------------------------------------------
    def put(self, s, obj, v):
        s.mem[obj] = v

    def spec_new(self, s):
        T = self.T
        if s.status != 'ret':
            self.panics(s, lambda s: any(s.decide(Pred('ge', n - MAXCAP - 1)) for n in self.ns))
            self.heap_after(s)
            return
        self.put(s, 'world', s.ret)
        self.ri(s, which=range(self.N))
        for i in range(self.N):
            vw = self.view(s, i)
            T.ob('len', s, lambda s, vw=vw: need(s, Pred('eq', vw.len), 'a new world has len %r' % (s.n(vw.len),)), self.names[i])
            if self.ns:
                T.ob('len', s, lambda s, vw=vw, i=i: need(s, Pred('ge', vw.cap - self.ns[i]), 'with_capacity(%r) yields capacity %r' % (self.ns[i], s.n(vw.cap))), self.names[i] + ' capacity')
            T.ob('flags', s, lambda s, vw=vw: [need(s, Pred('eq', f), 'a new world has a borrowed column') for f in vw.flags] and None, self.names[i])
            if T.events and T.wants('log'):
                for w in ('created', 'destroyed'):
                    v = getattr(vw, w)
                    T.ob('log', s, lambda s, v=v, w=w: need(s, Pred('eq', v.len), 'a new world has a non-empty %s log' % w), self.names[i])
        self.drops(s, None)
        self.heap(s, ['world'])

    def heap_after(self, s):
        """Nothing may stay allocated."""
        T = self.T
        if not T.wants('heap'):
            return
        for oid in s.ghost.get('heap', ()):
            if oid in self.heap0:
                continue
            a = s.mem.get(oid)
            if not isinstance(a, Freed) and a is not None:
                T.fail('heap', s, 'block %s is never freed' % oid)
                return
        T.ok('heap')

    def spec_newarch(self, s):
        T = self.T
        i = self.op.kw['arch']
        if s.status != 'ret':
            self.panics(s, lambda s: bool(self.ns) and s.decide(Pred('ge', self.ns[0] - MAXCAP - 1)))
            self.heap_after(s)
            return
        # the archetype value is the storage itself or wraps it
        path = [p for p, t in self.sub_storages(self.rty)]
        self.put(s, 'arch', s.ret)
        vw = View(self.I, s, T.sh[i], 'arch', path[0])

        def rep(rule, bad):
            r = RI_RULES[rule]
            if T.wants(r):
                T.report(r, s, bad, self.names[i])
        S.check_ri(self.I, s, vw, T.ids[i], rep)
        T.ob('len', s, lambda s: need(s, Pred('eq', vw.len), 'a new archetype has len %r' % (s.n(vw.len),)))
        if self.ns:
            T.ob('len', s, lambda s: need(s, Pred('ge', vw.cap - self.ns[0]), 'with_capacity(%r) yields capacity %r' % (self.ns[0], s.n(vw.cap))))

    def sub_storages(self, ty):
        out = []
        S.find_storages(self.P, ty, out)
        return out

    def each_once(self, s, tag, i, k, what):
        """In the events of s, the value in column k of the entity at an arbitrary dense position of archetype i occurs
        exactly once under the given tag."""
        v0 = self.vw0[i]

        def f(s):
            d = gen(s, 'd', 0, MAXCAP - 1, lambda a: v0.len - a - 1)
            e = self.H.dense_entry(s, i, s.n(d))
            want = self.seed_col(i, k, e)
            n = 0
            for ev in s.events:
                if ev[0] == tag and eqv(s, ev[1], want):
                    n += 1
                elif ev[0] == 'loop':
                    n += self.in_loop(s, ev, tag, i, k, d)
            if n != 1:
                raise Bad('the value in column %d at dense position %r of %s is %s %d times' % (k, s.n(d), self.names[i], what, n))
        return f

    def in_loop(self, s, ev, tag, i, k, d):
        from .loops import Read
        pid, n, alts = ev[1], ev[2], ev[3]
        if len(alts) > 1 and len({tuple(t for t in alt if t[0] == tag) for alt in alts}) > 1:
            raise Unsupported('iterations with different effects')
        cnt = 0
        base = ('col', i, k)
        for t in alts[0]:
            if t[0] == 'loop':
                raise Unsupported('nested loop')
            if t[0] != tag:
                continue
            r = t[1]
            if isinstance(r, Opq) and r.tag == 'zst':
                continue
            if not isinstance(r, Read):
                raise Unsupported('%s of %r in a loop' % (tag, r))
            b = r.arr.base
            if b[0] != 'col' or (b[0], b[1], b[2]) != base:
                continue
            c = r.ix.coeff(pid)
            if c not in (1, -1):
                raise Unsupported('stride')
            a = r.ix.subst({pid: K(0)})
            m = (d - a).scale(c)
            if s.decide(Pred('ge', m)) and s.decide(Pred('ge', n - m - 1)):
                cnt += 1
        return cnt

    def spec_drop(self, s):
        T = self.T
        if s.status != 'ret':
            self.panics(s, lambda s: False)
            return
        for i in range(self.N):
            for k, (_, t) in enumerate(T.sh[i].cols):
                if self.P.zst(t):
                    self.zst_once(s, i, k)
                elif self.P.ty(t)['drop']:
                    T.ob('drops', s, self.each_once(s, 'drop', i, k, 'dropped'), '%s column %d' % (self.names[i], k))

        if T.wants('heap'):
            for oid in s.ghost.get('heap', ()):
                a = s.mem.get(oid)
                if not isinstance(a, Freed):
                    T.fail('heap', s, 'block %s is never freed' % oid)
                    return
            T.ok('heap')

    def zst_once(self, s, i, k, tag='zdrop', rule='drops'):
        """Zero-sized values have no identity: the number of drops (clones) must be the number of entities over all archetypes."""
        T = self.T
        t = T.sh[i].cols[k][1]
        if tag == 'zdrop' and not self.P.ty(t)['drop']:
            return
        name = self.P.tname(t).split('::')[-1]

        def hit(x):
            if tag == 'zdrop':
                return x[0] == 'zdrop' and x[1] == name
            return x[0] == tag and isinstance(x[1], Opq) and x[1].tag == 'zst' and x[1].a[0].split('::')[-1] == name

        def f(s):
            total = K(0)
            for j in range(self.N):
                for _, u in T.sh[j].cols:
                    if u == t:
                        total = total + self.vw0[j].len
            got = K(0)
            for e in s.events:
                if hit(e):
                    got = got + 1
                elif e[0] == 'loop':
                    c = {sum(1 for x in alt if hit(x)) for alt in e[3]}
                    if len(c) != 1:
                        raise Unsupported('iterations with different effects')
                    got = got + e[2].scale(c.pop())
            need(s, Pred('eq', got - total), '%r values of the zero-sized %s are %s, %r entities had one' % (s.n(got), name, tag, s.n(total)))
        T.ob(rule, s, f, name)

    # -- clone ---------------------------------------------------------------------------
    def spec_clone(self, s):
        T = self.T
        borrowed = lambda s: any(s.decide(Pred('ge', -f - 1)) for fl in self.flags0 for f in fl)
        self.clone_flags(s)
        if s.status != 'ret':
            self.panics(s, borrowed)
            # the original is untouched
            self.source(s)
            return

        def nb(s):
            if borrowed(s):
                raise Bad('clone succeeds although a column is mutably borrowed')
        T.ob('granted', s, nb)
        self.put(s, 'clone', s.ret)
        self.ri(s, 'clone', which=range(self.N))
        seedobjs = set(self.heap0)
        for i in range(self.N):
            vw, v0 = self.view(s, i, 'clone'), self.vw0[i]

            def same(s, vw=vw, v0=v0):
                for n in ('len', 'cap', 'ver'):
                    need(s, Pred('eq', getattr(vw, n) - getattr(v0, n)), '%s of the clone is %r, of the original %r' % (n, s.n(getattr(vw, n)), s.n(getattr(v0, n))))
            T.ob('clone', s, same, self.names[i])

            def dense(s, vw=vw, v0=v0, i=i):
                d = gen(s, 'd', 0, MAXCAP - 1, lambda a: v0.len - a - 1)
                e = self.H.dense_entry(s, i, s.n(d))
                h = vw.sh.unpair(vw.sh.ent_ty, vw.ent(s, d))
                self.need_entity(s, (i, e), h)
            T.ob('clone', s, dense, self.names[i] + ' positions')

            def disj(s, vw=vw):
                for p in [vw.slots, vw.ents] + vw.cols:
                    if isinstance(p, Ptr) and p.obj is not None and p.obj in seedobjs:
                        raise Bad('the clone shares block %s with its original' % p.obj)
                for v in (vw.created, vw.destroyed):
                    if isinstance(v, VecV) and v.obj in seedobjs:
                        raise Bad('the clone shares log %s with its original' % v.obj)
            T.ob('disjoint', s, disj, self.names[i])
            T.ob('flags', s, lambda s, vw=vw: [need(s, Pred('eq', f), 'a column of the clone is borrowed') for f in vw.flags] and None, self.names[i])
            for k, (_, t) in enumerate(T.sh[i].cols):
                if self.P.zst(t):
                    self.zst_once(s, i, k, 'clone', 'clone')
                else:
                    T.ob('clone', s, self.each_once(s, 'clone', i, k, 'cloned'), '%s column %d' % (self.names[i], k))
        self.same(s, 'in the clone', obj='clone', wrap=lambda v: Opq('clone', (v,)), rules=('clone', 'clone'))
        self.gens(s, 'clone')
        self.logs(s, obj='clone', rule='clone-log')
        self.drops(s, None)
        self.heap(s, ['world', 'clone'])
        self.source(s)

    def source(self, s):
        T = self.T
        if not T.wants('source'):
            self.flags_same(s)
            return
        for i in range(self.N):
            vw, v0 = self.view(s, i), self.vw0[i]
            if self.untouched(s, i):
                T.ok('source')
                continue

            def f(s, vw=vw, v0=v0):
                for n in ('len', 'cap', 'ver'):
                    need(s, Pred('eq', getattr(vw, n) - getattr(v0, n)), 'cloning changes %s of the original' % n)
            T.ob('source', s, f, self.names[i])
        self.same(s, 'in the original', rules=('source', 'source'))
        self.flags_same(s)

    # -- iteration ---------------------------------------------------------------------------
    def visits(self, s):
        """The client calls of s as visits [(event or template, pid, n, flags)]; pid is None for a single call."""
        from .loops import Read
        out = []
        last = None

        def calls_of(evs):
            r, fl = [], None
            for e in evs:
                if e[0] == 'flags':
                    fl = e[1]
                elif e[0] == 'call':
                    r.append((e, fl))
                elif e[0] == 'loop':
                    raise Unsupported('nested loops of client calls')
            return r
        for e in s.events:
            if e[0] == 'flags':
                last = e[1]
            elif e[0] == 'call':
                out.append((e, None, None, last))
            elif e[0] == 'loop':
                alts = [calls_of(a) for a in e[3]]
                if any(a != alts[0] for a in alts[1:]):
                    raise Unsupported('iterations with different client calls')
                for ev, fl in alts[0]:
                    out.append((ev, e[1], e[2], fl))
        return out

    def where(self, s, ev, pid):
        """(archetype, dense position) of the entity a client call shows, the position affine in pid."""
        from .loops import Read
        for a, snap, role in zip(ev[2], ev[3], self.op.kw['obs']):
            for i in range(self.N):
                vw = self.vw0[i]
                try:
                    k = self.role_col(i, role)
                except Unsupported:
                    continue
                if k is not None:
                    if self.P.zst(vw.sh.cols[k][1]):
                        continue
                    if isinstance(a, Ptr) and a.obj == vw.cols[k].obj:
                        if not a.path:
                            return i, K(0)
                        if len(a.path) == 1 and a.path[0][0] == 'x':
                            return i, a.path[0][1]
                elif role in ('h', 'y'):
                    if isinstance(snap, Read) and snap.arr.name == vw.ents.obj:
                        return i, snap.ix
                    if pid is None and not isinstance(snap, Read):
                        c = vw.sh.unpair(vw.sh.ent_ty, snap)
                        for e in s.ghost[('sto', i)].live:
                            if c is not None and s.n(c[0] - self.key(i, e.slot)) == K(0):
                                return i, e.dense
                elif role in ('d', 'z'):
                    c = vw.sh.unpair(vw.sh.ent_ty, snap)
                    if isinstance(c, tuple) and isinstance(c[0], Lin):
                        q = c[0] - self.T.ids[i]
                        if q.c % 256 == 0 and all(x % 256 == 0 for _, x in q.t):
                            return i, Lin(q.c // 256, tuple((x, y // 256) for x, y in q.t))
        raise Unsupported('the entity shown is not identified')

    def matched(self):
        m = self.op.kw.get('archs')
        if m is not None:
            return m
        if not self.op.kw.get('query'):
            return [self.op.kw['arch']]
        out = []
        for i in range(self.N):
            try:
                for r in self.op.kw['obs']:
                    self.role_col(i, r)
                out.append(i)
            except Unsupported:
                pass
        return out

    def spec_iterate(self, s):
        from .loops import instantiate
        T, I = self.T, self.I
        vis = []
        for ev, pid, n, fl in self.visits(s):
            i, d = self.where(s, ev, pid)
            vis.append((ev, pid, n, fl, i, d))
        matched = self.matched()
        # what each visit shows
        for ev, pid, n, fl, i, d in vis:
            def one(s, values=False, grant=False, ev=ev, pid=pid, n=n, fl=fl, i=i, d=d):
                e2, f2, d2 = ev, fl, d
                if pid is not None:
                    m = gen(s, 'm', 0, 1 << 40, lambda a: n - a - 1)
                    e2 = instantiate(I, s, ev, pid, m)
                    f2 = instantiate(I, s, fl, pid, m) if fl is not None else None
                    d2 = d.subst({pid: m})
                    if pid in [a for x in atoms_in(e2) for a in x.atoms()]:
                        raise Unsupported('template')
                if i not in matched:
                    raise Bad('an entity of %s, which the query does not match, is visited' % self.names[i])
                need(s, Pred('ge', d2), 'negative dense position')
                need(s, Pred('ge', self.vw0[i].len - d2 - 1), 'the closure runs for dense position %r of %s, whose len is %r' % (s.n(d2), self.names[i], s.n(self.vw0[i].len)))
                if grant:
                    self.grant_one(s, i, f2)
                    return
                e = self.by_id(s, i, self.H.dense_entry(s, i, s.n(d2)).id)
                self.shown(s, (i, e), e2, values)
            T.ob('observe', s, one)
            T.ob('observe-values', s, lambda s, one=one: one(s, values=True))
            if fl is not None and self.op.kw.get('flags'):
                T.ob('granted', s, lambda s, one=one: one(s, grant=True))

        def covering(s, i, d, count=False):
            """The visits of dense position d of archetype i."""
            out = []
            for ev, pid, n, fl, j, p in vis:
                if j != i:
                    continue
                if pid is None:
                    if s.same(p, d):
                        out.append((ev, None, None))
                    continue
                c = p.coeff(pid)
                a = p.subst({pid: K(0)})
                if c == 0:
                    if s.decide(Pred('eq', d - a)):
                        k = s.decide(Pred('ge', n - 2))
                        if s.decide(Pred('ge', n - 1)):
                            out.extend([(ev, pid, K(0))] * (2 if k else 1))
                    continue
                if c not in (1, -1):
                    raise Unsupported('stride %d' % c)
                m = (d - a).scale(c)
                if s.decide(Pred('ge', m)) and s.decide(Pred('ge', n - m - 1)):
                    out.append((ev, pid, m))
            return out

        # the run ends early only by Break or by a panic
        broke = s.events and s.events[-1][0] == 'cret' and s.events[-1][1] == 'Break'
        early = broke or s.status != 'ret'

        def after(s):
            for k, e in enumerate(s.events[:-1]):
                if e[0] == 'cret' and e[1] == 'Break':
                    rest = [x for x in s.events[k + 1:] if x[0] in ('call', 'loop')]
                    for x in rest:
                        if x[0] == 'call' or s.decide(Pred('ge', x[2] - 1)):
                            raise Bad('the closure runs again after it returned Break')
                if e[0] == 'loop':
                    for alt in e[3]:
                        if ('cret', 'Break') in [tuple(x[:2]) for x in alt] and s.decide(Pred('ge', e[2] - 1)):
                            rest = [x for x in s.events[k + 1:] if x[0] in ('call', 'loop')]
                            if s.decide(Pred('ge', e[2] - 2)) or rest:
                                raise Bad('the loop goes on after the closure returned Break')
        if self.op.kw.get('step'):
            T.ob('visits', s, after, 'after Break')
        for i in range(self.N):
            def tile(s, i=i):
                v0 = self.vw0[i]
                if s.decide(Pred('eq', v0.len)):
                    return
                d = gen(s, 'd', 0, MAXCAP - 1, lambda a: v0.len - a - 1)
                c = len(covering(s, i, d))
                if i not in matched:
                    want = (0,)
                elif early:
                    want = (0, 1)
                else:
                    want = (1,)
                if c not in want:
                    raise Bad('the entity at dense position %r of %s (len %r) is visited %s' % (
                        s.n(d), self.names[i], s.n(v0.len), 'again' if c > 1 else 'never' if c == 0 else 'although the query does not match it'))
            T.ob('visits', s, tile, self.names[i])
        if s.status != 'ret':
            def allowed(s):
                return bool(self.op.kw.get('flags')) and any(self.conflict(s, i) is not None for i in matched)
            self.panics(s, allowed)

        def over(s, i, e):
            out = {}
            for ev, pid, m in covering(s, i, e.dense):
                if pid is not None:
                    ev = instantiate(I, s, ev, pid, m)
                out.update(self.writes(i, ev))
            return out
        if any(r[0] in 'mM' for r in self.op.kw['obs']):
            self.ri(s)
            self.same(s, over=over, rules=('map', 'write'))
            self.same_rest(s)
        else:
            self.unchanged(s)


    # -- event logs ------------------------------------------------------------------------------
    def spec_events(self, s):
        """Walking the logs yields every entry once; what remains is known exactly before every step."""
        from .loops import instantiate
        T, I = self.T, self.I
        lg, archs = self.op.kw['log'], self.op.kw['archs']
        logs = [getattr(v, lg) for v in self.vw0]
        if s.status != 'ret':
            self.panics(s, lambda s: False)
            return
        total = K(0)
        for i in archs:
            total = total + logs[i].len
        seen = K(0)             # entries yielded so far
        yields = []             # (event or template, pid, n)

        def hint(s, ev, before):
            a = ev[2]
            need(s, Pred('eq', a[0] - (total - before)), 'size_hint says at least %r although %r of %r entries remain' % (s.n(a[0]), s.n(total - before), s.n(total)))
            if not self.as_bool(s, a[1]):
                raise Bad('size_hint gives no upper bound')
            need(s, Pred('eq', a[2] - (total - before)), 'size_hint says at most %r although %r of %r entries remain' % (s.n(a[2]), s.n(total - before), s.n(total)))
        for e in s.events:
            if e[0] == 'call':
                if '_h_' in e[1]:
                    T.ob('log', s, lambda s, e=e, seen=seen: hint(s, e, seen))
                else:
                    yields.append((e, None, None))
                    seen = seen + 1
            elif e[0] == 'loop':
                if len(e[3]) != 1:
                    raise Unsupported('iterations with different client calls')
                ys = [x for x in e[3][0] if x[0] == 'call' and '_h_' not in x[1]]
                k = 0
                for x in e[3][0]:
                    if x[0] == 'loop':
                        raise Unsupported('nested loops of client calls')
                    if x[0] != 'call':
                        continue
                    if '_h_' in x[1]:
                        def each(s, x=x, pid=e[1], n=e[2], seen=seen, k=k, c=len(ys)):
                            m = gen(s, 'm', 0, 1 << 40, lambda a: n - a - 1)
                            hint(s, instantiate(I, s, x, pid, m), seen + m.scale(c) + k)
                        T.ob('log', s, each)
                    else:
                        yields.append((x, e[1], e[2]))
                        k += 1
                seen = seen + e[2].scale(len(ys))
        cov = []
        for ev, pid, n in yields:
            p = ev[2][0]
            for i in archs:
                if isinstance(p, Ptr) and p.obj == logs[i].obj:
                    ix = p.path[0][1] if p.path else K(0)
                    if not isinstance(ix, Lin):
                        raise Unsupported('position of an event')
                    cov.append((ev, pid, n, i, ix))
                    break
            else:
                if True:
                    def other(s, p=p, pid=pid, n=n):
                        if pid is not None and not s.decide(Pred('ge', n - 1)):
                            return
                        raise Bad('what is yielded, %r, is no entry of the %s log' % (p, lg))
                    T.ob('log', s, other)

        for ev, pid, n, i, ix in cov:
            def one(s, ev=ev, pid=pid, n=n, i=i, ix=ix):
                if pid is not None:
                    m = gen(s, 'm', 0, 1 << 40, lambda a: n - a - 1)
                    ev = instantiate(I, s, ev, pid, m)
                    ix = ix.subst({pid: m})
                need(s, Pred('ge', ix), 'negative position')
                need(s, Pred('ge', logs[i].len - ix - 1), 'position %r of a log with %r entries is yielded' % (s.n(ix), s.n(logs[i].len)))
                if not eqv(s, ev[3][0], Opq('evt', (i, lg, s.n(ix)))):
                    raise Bad('the entry yielded for position %r reads %r' % (s.n(ix), ev[3][0]))
            T.ob('log', s, one)
        for i in archs:
            def tile(s, i=i):
                if s.decide(Pred('eq', logs[i].len)):
                    return
                d = gen(s, 'd', 0, 1 << 40, lambda a: logs[i].len - a - 1)
                c = 0
                for ev, pid, n, j, p in cov:
                    if j != i:
                        continue
                    if pid is None:
                        if s.same(p, d):
                            c += 1
                        continue
                    k = p.coeff(pid)
                    if k not in (1, -1):
                        raise Unsupported('stride %d' % k)
                    m = (d - p.subst({pid: K(0)})).scale(k)
                    if s.decide(Pred('ge', m)) and s.decide(Pred('ge', n - m - 1)):
                        c += 1
                if c != 1:
                    raise Bad('entry %r of the %s log of %s (which has %r) is yielded %s' % (s.n(d), lg, self.names[i], s.n(logs[i].len), 'never' if not c else '%d times' % c))
            T.ob('log', s, tile, self.names[i])
        self.unchanged(s)

    def spec_evclear(self, s):
        T = self.T
        if s.status != 'ret':
            self.panics(s, lambda s: False)
            return
        for i in range(self.N):
            vw = self.view(s, i)
            for w in ('created', 'destroyed'):
                def f(s, v=getattr(vw, w), w=w, i=i):
                    if not isinstance(v, VecV):
                        raise Bad('the %s log is not a live Vec' % w)
                    need(s, Pred('eq', v.len), 'after clearing, the %s log of %s has %r entries' % (w, self.names[i], s.n(v.len)))
                if i in self.op.kw['archs']:
                    T.ob('log', s, f, self.names[i])
        self.ri(s)
        self.same(s, rules=('log', 'log'))
        self.gens(s)
        self.versions(s, structural=False)
        self.lens(s)
        self.flags_same(s)
        self.drops(s, None)
        self.heap(s, ['world'])
        self.logs(s, skip=self.op.kw['archs'])

    # -- iteration with removal ---------------------------------------------------------------
    """A loop that may remove entities is analysed modularly: at its head the archetype's storage is replaced by an
    arbitrary one satisfying the invariant that still holds at least as many entities as remain to be visited, the loop's
    counters by their value after n iterations. One iteration from there must show the entity at the last position still
    to be visited, remove it exactly when told to, leave every position below it alone, and go on exactly when told to."""

    def iterd_loop(self, I, cur, header, body, depth, fid, lstop, backs):
        from .loops import generalise, getleaf, rebuild, probe, clean_header, Mismatch
        ev = None
        for b in backs:
            for e in b.events[len(cur.events):]:
                if e[0] == 'call':
                    ev = ev or e
        if ev is None:
            return None
        b0 = [b for b in backs if any(e is ev for e in b.events)][0]
        self.vw0 = b0.ghost.get('vw0', self.vw_init)
        j, _ = self.where(b0, ev, None)
        name = self.names[j]
        x = cur.copy()
        x.status = 'exit'
        x.ghost['next'] = j
        self.extra.append(x)
        cv = self.view(cur, j)
        own = [name + '.slots', name + '.ents'] + ['%s.c%d' % (name, k) for k in range(len(cv.cols))]
        for p, o in zip([cv.slots, cv.ents] + cv.cols, own):
            if not isinstance(p, Ptr) or p.obj not in (o, None):
                raise Unsupported('the storage was reallocated before the loop')
        plan = {}

        def delta(a, b):
            out = {}
            for obj, v in b.mem.items():
                o = a.mem.get(obj, MISSING)
                if o is v or o is MISSING:
                    continue
                if not (isinstance(obj, tuple) and isinstance(obj[0], int)):
                    continue
                try:
                    q = {}
                    generalise(I, b, o, v, None, (), q)
                except Mismatch as e:
                    raise Unsupported('loop-carried value: %s' % e)
                for k, d in q.items():
                    out[(obj, k)] = d
            return out
        for b in backs:
            for k, d in delta(cur, b).items():
                if d[0] != 'lin' or plan.get(k, d) != d:
                    raise Unsupported('loop-carried value')
                plan[k] = d
        n = new_atom('n', 0, 1 << 40, keep=True)
        rem = cv.len - n
        gens = []
        for case in ('full', 'part'):
            g = cur.copy()
            for (obj, path), d in plan.items():
                v = g.mem[obj]
                leaf = getleaf(v, path)
                g.mem[obj] = rebuild(v, path, 0, lambda _, nv=leaf + n.scale(d[1]): nv)
            g.events = ()
            drop = tuple(own) + (name + '.created', name + '.destroyed')
            g.ghost['heap'] = tuple(o for o in g.ghost.get('heap', ()) if o not in drop)
            val = S.seed_storage(I, g, self.T.sh[j], j, name, self.T.ids[j], case, list(cv.flags))
            I.store(g, 'world', self.T.stos[j][0], val)
            vw = list(self.vw0)
            vw[j] = self.view(g, j)
            g.ghost['vw0'] = vw
            g.ge(rem)
            g.ge(vw[j].len - rem)
            g.ghost['loop'] = (j, rem)
            g.ghost['entered'] = g.ghost.get('entered', ()) + (j,)
            g.loopctx = g.loopctx + (n,)
            if g.facts.infeasible():
                continue
            for s in probe(I, g, depth, lstop):
                if s.status != 'back':
                    continue
                clean_header(I, s, s.frames[depth - 1], header)
                d = delta(g, s)
                if d != plan:
                    raise Unsupported('loop-carried values change irregularly')
                self.extra.append(s)
            gens.append(g)
        return gens

    def spec_iterd(self, s):
        T = self.T
        calls = self.calls(s)
        crets = [e[1] for e in s.events if e[0] == 'cret']
        matched = self.matched()
        loop = s.ghost.get('loop')
        if any(e[0] == 'loop' for e in s.events):
            raise Unsupported('client calls in a summarised loop')
        if len(calls) > 1:
            T.fail('visits', s, 'the closure runs twice for one position')
            return
        if s.status == 'exit' and loop is None and not calls:
            return          # the first archetype's loop begins
        ev = calls[0] if calls else None
        ret = crets[-1] if crets else 'Continue'
        if s.status == 'unwind' and not crets and ev is not None and s.panic and s.panic[0] == 'client closure':
            ret = 'panic'
        destroy = ev is not None and ret.endswith('Destroy')
        t = None
        if ev is not None:
            if loop is None:
                raise Unsupported('the closure runs outside the loop that was recognised')
            j, rem = loop
            i, d = self.where(s, ev, None)

            def ent(s, i=i, d=d):
                need(s, Pred('ge', d), 'negative dense position')
                need(s, Pred('ge', self.vw0[i].len - d - 1), 'the closure runs for dense position %r of %s, whose len is %r' % (s.n(d), self.names[i], s.n(self.vw0[i].len)))
                return i, self.by_id(s, i, self.H.dense_entry(s, i, s.n(d)).id)
            T.ob('observe', s, lambda s: self.shown(s, ent(s), ev, False))
            T.ob('observe-values', s, lambda s: self.shown(s, ent(s), ev, True))

            def order(s):
                if i != j or i not in matched:
                    raise Bad('an entity of %s is visited in the loop over %s' % (self.names[i], self.names[j]))
                need(s, Pred('eq', d - rem + 1), 'iteration %r visits dense position %r instead of the last unvisited one, %r' % (s.n(s.loopctx[-1]), s.n(d), s.n(rem - 1)))
            T.ob('visits', s, order)
        # control
        if s.status == 'back':
            def cont(s):
                j, rem = loop
                if ev is None:
                    raise Bad('an iteration does not run the closure')
                if ret.startswith('Break'):
                    raise Bad('the loop goes on after the closure returned %s' % ret)
                need(s, Pred('ge', rem - 1), 'the loop runs past position 0')
            T.ob('visits', s, cont, 'continuation')

            def below(s):
                j, rem = loop
                vw = self.view(s, j)
                need(s, Pred('ge', vw.len - rem + 1), 'fewer entities are left than remain to be visited')
                if s.decide(Pred('eq', rem - 1)):
                    return
                x = gen(s, 'd', 0, MAXCAP - 1, lambda a: rem - 2 - a)
                e = self.H.dense_entry(s, j, s.n(x))
                p = lookup_post(self.I, s, vw, e.slot, e.ver)
                if p is None:
                    raise Bad('an entity that has not been visited yet is gone')
                need(s, Pred('eq', p - x), 'the entity at dense position %r, which has not been visited yet, moves to %r' % (s.n(x), s.n(p)))
            T.ob('visits', s, below, 'unvisited positions')
            vw, v0 = self.view(s, loop[0]), self.vw0[loop[0]]
            for a, b in zip([vw.slots, vw.ents] + vw.cols, [v0.slots, v0.ents] + v0.cols):
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj != b.obj:
                    raise Unsupported('the storage is reallocated in the loop')
        elif s.status in ('ret', 'exit'):
            def done(s):
                if ev is not None:
                    if not ret.startswith('Break'):
                        raise Bad('the query ends although the closure returned %s' % ret)
                    if s.status == 'exit':
                        raise Bad('%s is visited although the closure returned %s' % (self.names[s.ghost['next']], ret))
                    return
                if loop is not None:
                    need(s, Pred('eq', loop[1]), 'the loop over %s ends with %r entities not visited' % (self.names[loop[0]], s.n(loop[1])))
                if s.status == 'exit' and s.ghost['next'] in s.ghost.get('entered', ()):
                    raise Bad('%s is visited twice' % self.names[s.ghost['next']])
                if s.status == 'ret':
                    for k in matched:
                        if k not in s.ghost.get('entered', ()):
                            need(s, Pred('eq', self.vw0[k].len), '%s is never visited' % self.names[k])
            T.ob('visits', s, done, 'completion')
        # effects
        def over(s, i, e):
            if ev is None:
                return {}
            k, t = ent(s)
            if k != i or t.id != e.id:
                return {}
            return self.writes(i, ev)
        if s.status == 'unwind':
            def allowed(s):
                if not destroy or T.wrapping:
                    return False
                k, e = ent(s)
                return s.decide(Pred('eq', e.ver - VMAX)) or s.decide(Pred('eq', self.vw0[k].ver - VMAX))
            self.panics(s, allowed)

        def removed(s):
            if not destroy:
                return None
            t = ent(s)
            if s.status == 'unwind' and lookup_post(self.I, s, self.view(s, t[0]), t[1].slot, t[1].ver) is not None:
                return None     # a library panic before the removal
            return t

        def dropped(s):
            t = removed(s)
            if t is None:
                return []
            w = self.writes(t[0], ev)
            return [w.get(k, self.seed_col(t[0], k, t[1])) for k in range(len(T.sh[t[0]].cols)) if self.P.ty(T.sh[t[0]].cols[k][1])['drop']]
        self.ri(s)
        r = ('unwind-map', 'unwind-map') if s.status == 'unwind' else ('map', 'values')
        self.same(s, removed=removed, over=over, rules=r)
        self.gens(s)
        arch = lambda s: (lambda t: t[0] if t else None)(removed(s))
        self.versions(s, removal=arch)
        self.lens(s, lambda s: (lambda i: {} if i is None else {i: -1})(arch(s)))
        self.flags_same(s)
        self.drops(s, dropped)
        self.heap(s, ['world'])
        self.logs(s, destroyed=lambda s: (lambda t: (t[0], self.key(t[0], t[1].slot), t[1].ver) if t else None)(removed(s)))


def atoms_in(v):
    out = []
    if isinstance(v, Lin):
        out.append(v)
    elif isinstance(v, (tuple, list)):
        for x in v:
            out.extend(atoms_in(x))
    elif isinstance(v, (Agg, En)):
        for x in v.f:
            out.extend(atoms_in(x))
    return out
