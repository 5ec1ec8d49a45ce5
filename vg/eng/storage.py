"""Abstraction of gecs' storage: the representation invariant as a lazily materialised symbolic state (seeds), its
re-verification on resulting states, and the abstract map handle -> component values used by the specifications.

Seed entries (ghost state): live entries relate a slot, a dense position and a generation; free entries relate a
slot, a position in the free list and a generation. They are created on first access to a cell, so every fact that
the interpreter learns about a cell is about an arbitrary element of the structure."""
from collections import namedtuple
from .lin import Lin, K, new_atom
from .values import *
from .interp import Unsupported, UBError, Split, MISSING, State, is_vec
from .models import nonzero_wrapped

FREE = 1 << 31
END = (1 << 32) - 1
MAXCAP = 1 << 24
VMAX = (1 << 32) - 1

Live = namedtuple('Live', 'id slot dense ver')
Free = namedtuple('Free', 'id slot pos ver next')


class Sto:
    __slots__ = ('sid', 'name', 'ver', 'len', 'cap', 'head', 'arch', 'case', 'live', 'free', 'comps', 'ev')

    def __init__(self, **kw):
        for k in self.__slots__:
            setattr(self, k, kw.get(k))

    def with_(self, **kw):
        d = {k: getattr(self, k) for k in self.__slots__}
        d.update(kw)
        return Sto(**d)


class Shape:
    """Roles of a storage type's fields, found by their types (len/capacity and created/destroyed by name)."""

    def __init__(self, P, ty):
        self.P, self.ty = P, ty
        d = P.ty(ty)
        self.roles = {}
        self.cols = []
        self.extra = []         # fields without a role: nothing is known about their values
        usz, vecs = [], []
        for i, (n, ft) in enumerate(zip(P.fnames(ty), P.fields(ty))):
            fd = P.ty(ft)
            adt = (fd.get('adt') or '').split('::')[-1]
            if adt == 'ArchetypeVersion':
                self.put('ver', i)
            elif adt == 'SlotIndex':
                self.put('head', i)
            elif adt == 'DataPtr':
                el = self.elem(ft)
                if (P.ty(el).get('adt') or '').split('::')[-1] == 'Slot':
                    self.put('slots', i)
                    self.slot_ty = el
                else:
                    self.put('ents', i)
                    self.ent_ty = el
            elif adt == 'RefCell':
                inner = P.fields(ft)
                k = [j for j, x in enumerate(inner) if P.size(x)]
                val = [j for j in k if P.ty(P.inner(inner[j]))['k'] in ('ref', 'ptr')]
                flag = [j for j in k if j not in val]
                if len(val) != 1 or len(flag) != 1:
                    raise Unsupported('layout of RefCell')
                self.cell = (val[0], flag[0], len(inner))
                self.cols.append((i, self.elem(inner[val[0]])))
            elif is_vec(fd):
                vecs.append((n, i))
            elif fd['k'] == 'uint' and n in ('len', 'capacity', 'cap'):
                self.put('len' if n == 'len' else 'cap', i)
            elif fd['k'] == 'uint':
                usz.append((n, i))
            elif not P.zst(ft):
                self.extra.append(i)
        for n, i in usz:
            if 'cap' in n and 'cap' not in self.roles:
                self.put('cap', i)
            elif ('len' in n or 'count' in n or 'size' in n) and 'len' not in self.roles:
                self.put('len', i)
            else:
                self.extra.append(i)
        for n, i in vecs:
            if 'creat' in n:
                self.put('created', i)
            elif 'destr' in n or 'remov' in n:
                self.put('destroyed', i)
            else:
                raise Unsupported('storage field ' + n)
        for r in ('ver', 'head', 'slots', 'ents', 'len', 'cap'):
            if r not in self.roles:
                raise Unsupported('storage without ' + r)
        self.n = len(P.fields(ty))

    def put(self, r, i):
        if r in self.roles:
            raise Unsupported('two storage fields for ' + r)
        self.roles[r] = i

    def elem(self, t):
        P = self.P
        t = P.inner(t)
        d = P.ty(t)
        t = d['t']
        while (P.ty(t).get('adt') or '').split('::')[-1] in ('MaybeUninit', 'ManuallyDrop'):
            d = P.ty(t)
            c = [f for f in P.fields(t) if P.size(f)] or P.fields(t)[-1:]
            if P.size(t) == 0:
                # the component type of a zero-sized cell is the argument of MaybeUninit
                fs = P.fields(t)
                c = [f for f in fs if P.ty(f)['k'] != 'tuple'] or fs
            t = c[0]
        return t

    def pair(self, ty):
        """Positions (integer, generation) in a two-field struct such as Slot or EntityAny."""
        P = self.P
        t = P.inner(ty)
        fs = P.fields(t)
        nz = [i for i, f in enumerate(fs) if nonzero_wrapped(P, f)]
        ot = [i for i, f in enumerate(fs) if i not in nz and P.size(f)]
        if len(nz) != 1 or len(ot) != 1 or len(fs) != 2:
            raise Unsupported('layout of ' + P.tname(ty))
        return ot[0], nz[0]

    def mkpair(self, ty, n, ver):
        a, b = self.pair(ty)
        r = [None, None]
        r[a], r[b] = n, ver
        return Agg(r)

    def unpair(self, ty, v):
        if not isinstance(v, Agg):
            return None
        a, b = self.pair(ty)
        x, y = v.f[a], v.f[b]
        if not isinstance(x, Lin) or not isinstance(y, Lin):
            return None
        return x, y


def find_storages(P, ty, out, path=()):
    """Storage structs inside a world type: [(path, storage type)]."""
    d = P.ty(ty)
    if d['k'] == 'struct' and d['adt'].split('::')[-1].startswith('Storage') and d['adt'].startswith('gecs::'):
        out.append((path, ty))
        return
    if d['k'] in ('struct', 'tuple'):
        c = P.collapse(ty)
        fs = P.fields(ty)
        for i, f in enumerate(fs):
            if c is not None:
                if i == c:
                    find_storages(P, f, out, path)
            else:
                find_storages(P, f, out, path + (('f', i, len(fs)),))


class Hooks:
    """The interpreter's callbacks: base cells of seeded storages, and configuration constants."""

    def __init__(self, overflow_checks, wrapping=False):
        self.overflow_checks, self.wrapping = overflow_checks, wrapping
        self.shapes = {}        # sid -> Shape
        self.loophook = None
        self.watch = None
        self.cloning = None

    def loop(self, I, cur, header, body, depth, fid, lstop, backs):
        if self.loophook is not None:
            return self.loophook(I, cur, header, body, depth, fid, lstop, backs)
        return None

    # -- lazily materialised cells ------------------------------------------------
    def base_read(self, I, st, base, ix):
        kind, sid = base[0], base[1]
        if kind == 'evt':
            return Opq('evt', (sid, base[2], st.n(ix)))
        if kind == 'seq':
            return Opq('elem', (base[1], st.n(ix)))
        ix = st.n(ix)
        sh = self.shapes[sid]
        if kind == 'slots':
            e = self.slot_entry(st, sid, ix)
            return self.slot_cell(st, sid, sh, e)
        e = self.dense_entry(st, sid, ix)
        if e is None:
            return UN
        if kind == 'ents':
            g = st.ghost[('sto', sid)]
            return sh.mkpair(sh.ent_ty, handle_key(g, e.slot), e.ver)
        return Opq('col', (sid, base[2], e.id))

    def evt_expand(self, st, v):
        """The handle of an arbitrary entry of an event log: an entity that was created (destroyed) since the last clear.
        Its slot exists, and unless versions wrap, its generation is not newer (is older) than the slot's."""
        sid, which, ix = v.a
        sh = self.shapes[sid]
        key = ('evts', sid)
        es = st.ghost.get(key, ())
        hit = None
        for e in es:
            if e[0] == which and st.same(ix, e[1]):
                hit = e
                break
        g = st.ghost[('sto', sid)]
        if hit is None:
            def mk(s):
                n = len(es)
                slot = new_atom('%s.%s%d.slot' % (g.name, which, n), 0, MAXCAP - 1)
                ver = new_atom('%s.%s%d.gen' % (g.name, which, n), 1, VMAX)
                s.ge(g.cap - slot - 1)
                s.ghost[key] = es + ((which, ix, slot, ver),)
            raise Split([('an entry of the %s log' % which, mk)])
        which, ix, slot, ver = hit
        e = self.slot_entry(st, sid, slot)
        if not self.wrapping:
            st.ge(e.ver - ver - (0 if which == 'created' and isinstance(e, Live) else 1))
        for o in es:
            # within one log, no two entries are the same entity
            if o is not hit and o[0] == which and not self.wrapping and st.same(o[2], slot):
                st.ne(o[3] - ver)
        g = st.ghost[('sto', sid)]
        return sh.mkpair(sh.ent_ty, handle_key(g, slot), ver)

    def slot_cell(self, st, sid, sh, e):
        if isinstance(e, Live):
            return sh.mkpair(sh.slot_ty, e.dense, e.ver)
        if e.next is None:
            e = self.resolve_next(st, sid, e)
        return sh.mkpair(sh.slot_ty, e.next, e.ver)

    def slot_entry(self, st, sid, ix):
        g = st.ghost[('sto', sid)]
        for e in g.live:
            if st.same(ix, e.slot):
                return e
        for e in g.free:
            if st.same(ix, e.slot):
                return e
        # a slot seen for the first time
        can_live = not (st.facts.implies_ge(-g.len))
        can_free = not (st.facts.implies_ge(g.len - g.cap))
        alts = []
        if can_live:
            alts.append(('slot %r is live' % ix, lambda s: self.add_live(s, sid, ix, None)))
        if can_free:
            alts.append(('slot %r is free' % ix, lambda s: self.add_free(s, sid, ix, None)))
        if not alts:
            raise Unsupported('slot of an empty storage')
        raise Split(alts)

    def dense_entry(self, st, sid, ix):
        g = st.ghost[('sto', sid)]
        for e in g.live:
            if st.same(ix, e.dense):
                return e
        if not st.decide(Pred('ge', g.len - ix - 1)):
            return None
        if not st.decide(Pred('ge', ix)):
            return None
        self.add_live(st, sid, None, ix)
        return st.ghost[('sto', sid)].live[-1]

    def add_live(self, st, sid, slot, dense):
        g = st.ghost[('sto', sid)]
        n = len(g.live)
        if slot is None:
            slot = new_atom('%s.slot%d' % (g.name, n), 0, MAXCAP - 1)
            st.ge(g.cap - slot - 1)
        if dense is None:
            dense = new_atom('%s.dense%d' % (g.name, n), 0, MAXCAP - 1)
            st.ge(g.len - dense - 1)
        ver = new_atom('%s.gen%d' % (g.name, n), 1, VMAX)
        for e in g.live:
            st.ne(slot - e.slot)
            st.ne(dense - e.dense)
        for e in g.free:
            st.ne(slot - e.slot)
        e = Live('%s%d' % (g.name, n), st.n(slot), st.n(dense), ver)
        st.ghost[('sto', sid)] = g.with_(live=g.live + (e,))
        return e

    def add_free(self, st, sid, slot, pos):
        g = st.ghost[('sto', sid)]
        n = len(g.free)
        if slot is None:
            slot = new_atom('%s.fslot%d' % (g.name, n), 0, MAXCAP - 1)
            st.ge(g.cap - slot - 1)
        fresh = pos is None
        if fresh:
            pos = new_atom('%s.fpos%d' % (g.name, n), 0, MAXCAP - 1)
            st.ge(g.cap - g.len - pos - 1)
        ver = new_atom('%s.fgen%d' % (g.name, n), 1, VMAX)
        for e in g.live:
            st.ne(slot - e.slot)
        for e in g.free:
            st.ne(slot - e.slot)
            st.ne(pos - e.pos)
            if e.next is not None and fresh:
                # its successor is known already, and it is another slot
                st.ne(pos - e.pos - 1)
        e = Free('%sf%d' % (g.name, n), st.n(slot), st.n(pos), ver, None)
        st.ghost[('sto', sid)] = g.with_(free=g.free + (e,))
        return e

    def resolve_next(self, st, sid, e):
        g = st.ghost[('sto', sid)]
        if st.decide(Pred('eq', g.cap - g.len - 1 - e.pos)):
            nx = K(END)
        else:
            nxt = None
            for f in g.free:
                if f.id != e.id and st.same(f.pos, e.pos + 1):
                    nxt = f
                    break
            if nxt is None:
                nxt = self.add_free(st, sid, None, e.pos + 1)
                g = st.ghost[('sto', sid)]
            nx = nxt.slot + FREE
        e2 = e._replace(next=nx)
        st.ghost[('sto', sid)] = g.with_(free=tuple(e2 if f.id == e.id else f for f in g.free))
        return e2

    def sync(self, st, sid):
        return st.ghost[('sto', sid)]


def handle_key(g, slot):
    return slot.scale(256) + g.arch


# -- seeding -------------------------------------------------------------------------

CASES = ('zero', 'full', 'part')


def seed_storage(I, st, sh, sid, name, arch, case, flags=None, nevents=None):
    """Puts an arbitrary storage satisfying the representation invariant into st and returns its value."""
    P = I.P
    I.hooks.shapes[sid] = sh
    st.ghost['hooks'] = I.hooks
    if case == 'zero':
        cap = ln = K(0)
    else:
        cap = new_atom(name + '.cap', 1, MAXCAP)
        if case == 'full':
            ln = cap
        else:
            ln = new_atom(name + '.len', 0, MAXCAP - 1)
            st.ge(cap - ln - 1)
    ver = new_atom(name + '.ver', 1, VMAX)
    g = Sto(sid=sid, name=name, ver=ver, len=ln, cap=cap, arch=K(arch), case=case, live=(), free=(), head=None,
            comps=[P.tname(t) for _, t in sh.cols])
    st.ghost[('sto', sid)] = g
    if case == 'part':
        e = I.hooks.add_free(st, sid, None, K(0))
        head = e.slot + FREE
        g = st.ghost[('sto', sid)]
    else:
        head = K(END)
    st.ghost[('sto', sid)] = g.with_(head=head)
    f = [None] * sh.n
    r = sh.roles
    f[r['ver']], f[r['len']], f[r['cap']], f[r['head']] = ver, ln, cap, head

    def block(nm, elem, base):
        sz = P.size(elem)
        if case == 'zero' or sz == 0:
            return Ptr(None, (), None, K(P.ty(elem)['lay']['align']))
        oid = '%s.%s' % (name, nm)
        st.mem[oid] = Arr(oid, elem, cap, base, (), cap.scale(sz), P.ty(elem)['lay']['align'])
        st.ghost['heap'] = st.ghost.get('heap', ()) + (oid,)
        return Ptr(oid, ())
    f[r['slots']] = block('slots', sh.slot_ty, ('slots', sid))
    f[r['ents']] = block('ents', sh.ent_ty, ('ents', sid))
    val, flag, n = sh.cell
    for k, (i, t) in enumerate(sh.cols):
        c = [UNIT] * n
        c[val] = block('c%d' % k, t, ('col', sid, k))
        c[flag] = flags[k] if flags is not None else K(0)
        f[i] = Agg(c)
    for w in ('created', 'destroyed'):
        if w in r:
            oid = '%s.%s' % (name, w)
            ln_ = new_atom(oid + '.len', 0, 1 << 40)
            st.mem[oid] = Arr(oid, sh.ent_ty, None, ('evt', sid, w))
            st.ghost['heap'] = st.ghost.get('heap', ()) + (oid,)
            f[r[w]] = VecV(oid, ln_)
    for i, ft in enumerate(P.fields(sh.ty)):
        if i in sh.extra:
            f[i] = unknown(I, st, ft, '%s.%s' % (name, P.fnames(sh.ty)[i]))
        elif f[i] is None:
            f[i] = UNIT
    return Agg(f)


def unknown(I, st, ty, tag):
    """Any value of the type; inexact, because not every value need be reachable: nothing about it grounds an alarm."""
    from .models import fresh
    return fresh(I, st, ty, tag, False)


def seed_value(I, st, ty, path, storages):
    """Value of a world/archetype type whose storages (by path) are given."""
    P = I.P
    if path in storages:
        return storages[path]
    c = P.collapse(ty)
    fs = P.fields(ty)
    if c is not None:
        return seed_value(I, st, fs[c], path, storages)
    if P.ty(P.inner(ty))['k'] not in ('struct', 'tuple') or not any(p[:len(path)] == path for p in storages):
        return unknown(I, st, ty, 'field')
    return Agg([I.zst_value(f) if P.zst(f) else seed_value(I, st, f, path + (('f', i, len(fs)),), storages) for i, f in enumerate(fs)])


# -- reading a resulting storage -------------------------------------------------------

class View:
    """The storage found at (obj, path) in a state."""

    def __init__(self, I, st, sh, obj, path):
        self.I, self.sh, self.obj, self.path = I, sh, obj, path
        v = I.load(st, obj, path)
        self.v = v
        r = sh.roles
        if not isinstance(v, Agg):
            raise Unsupported('storage value %r' % (v,))
        self.ver, self.len, self.cap, self.head = [v.f[r[x]] for x in ('ver', 'len', 'cap', 'head')]
        self.slots, self.ents = v.f[r['slots']], v.f[r['ents']]
        val, flag, n = sh.cell
        self.cols = [v.f[i].f[val] for i, _ in sh.cols]
        self.flags = [v.f[i].f[flag] for i, _ in sh.cols]
        self.created = v.f[r['created']] if 'created' in r else None
        self.destroyed = v.f[r['destroyed']] if 'destroyed' in r else None

    def arr(self, st, p):
        """The array object behind a DataPtr; None when dangling."""
        if not isinstance(p, Ptr) or p.obj is None:
            return None
        return st.mem.get(p.obj)

    def cell(self, st, p, ix, elem):
        if p.obj is None:
            raise Bad('a cell of a dangling array is in use')
        obj, path = self.I.typed(st, p.obj, p.path, elem)
        a = st.mem[obj]
        if isinstance(a, Freed):
            raise Bad('the array has been freed')
        i = st.n(path[0][1] + ix)
        return self.I.arr_cell(st, a, i)

    def slot(self, st, ix):
        return self.cell(st, self.slots, ix, self.sh.slot_ty)

    def ent(self, st, ix):
        return self.cell(st, self.ents, ix, self.sh.ent_ty)

    def col(self, st, k, ix):
        t = self.sh.cols[k][1]
        if self.I.P.zst(t):
            return Opq('zst', (self.I.P.tname(t),))
        return self.cell(st, self.cols[k], ix, t)


class Bad(Exception):
    """The obligation fails on this path."""


def gen(st, name, lo, hi, *ges):
    """The arbitrary element that an obligation quantifies over (the same one when its evaluation is resumed)."""
    key = ('gen', name)
    a = st.ghost.get(key)
    if a is None:
        a = new_atom(name, lo, hi)
        st.ghost[key] = a
        for g in ges:
            st.ge(g(a))
    return a


def forall(I, st, f, limit=400):
    """Evaluates f on a copy of st, partitioning on undecided conditions. f returns None or raises Bad.
    Returns the failing [(state, reason)]; Unsupported propagates."""
    work = [st.copy()]
    out = []
    n = 0
    while work:
        s = work.pop()
        n += 1
        if n > limit:
            raise Unsupported('too many cases in an obligation')
        try:
            t = s.copy()
            f(t)
        except Split as sp:
            # keep entries materialised before the split
            for label, g in sp.alts:
                c = t.copy()
                g(c)
                if not c.facts.bad and not c.facts.infeasible():
                    c.note = c.note + (('', label),)
                    work.append(c)
        except Bad as e:
            if not t.facts.infeasible():
                out.append((t, str(e)))
        except UBError as e:
            if not t.facts.infeasible():
                out.append((t, str(e)))
    return out


def need(st, p, what):
    """Obligation: p holds in st."""
    if st.test(p) is True:
        return
    if not st.decide(p):
        raise Bad(what)


def lookup_seed(I, st, sid, slot, ver):
    """The live seed entry that the handle (slot, ver) of this archetype designates, or None."""
    g = st.ghost[('sto', sid)]
    if not st.decide(Pred('ge', g.cap - slot - 1)):
        return None
    e = I.hooks.slot_entry(st, sid, st.n(slot))
    if isinstance(e, Free):
        return None
    if not st.decide(Pred('eq', e.ver - ver)):
        return None
    return e


def lookup_post(I, st, vw, slot, ver):
    """The dense position that the handle (slot, ver) designates in the resulting storage, or None."""
    if not st.decide(Pred('ge', vw.cap - slot - 1)):
        return None
    c = vw.sh.unpair(vw.sh.slot_ty, vw.slot(st, slot))
    if c is None:
        raise Bad('slot %r is uninitialised' % (slot,))
    ix, v = c
    if not st.decide(Pred('ge', K(FREE - 1) - ix)):
        return None
    if not st.decide(Pred('eq', v - ver)):
        return None
    return ix


# -- the representation invariant on a resulting storage -----------------------------------

def check_ri(I, st, vw, arch, report):
    """report(rule, failures): failures is a list of (state, reason) or an Unsupported instance."""
    def run(rule, f):
        try:
            report(rule, forall(I, st, f))
        except Unsupported as e:
            report(rule, e)

    def counts(s):
        need(s, Pred('ge', vw.len), 'len is negative')
        need(s, Pred('ge', vw.cap - vw.len), 'len exceeds capacity')
        need(s, Pred('ge', K(MAXCAP) - vw.cap), 'capacity exceeds 2^24')
    run('len <= capacity <= 2^24', counts)

    def block(p, elem, what):
        def f(s):
            sz = I.P.size(elem)
            if sz == 0:
                return
            if s.decide(Pred('eq', vw.cap)):
                return
            if not isinstance(p, Ptr) or p.obj is None:
                raise Bad('%s is dangling although capacity is not 0' % what)
            a = s.mem.get(p.obj)
            if isinstance(a, Freed) or a is None:
                raise Bad('%s has been freed' % what)
            size = a.size if isinstance(a, Raw) else a.heap
            if size is None:
                raise Unsupported('block of ' + what)
            if p.path and p.path[-1][0] == 'x':
                need(s, Pred('eq', p.path[-1][1]), '%s does not point to the start of its block' % what)
            need(s, Pred('eq', size - vw.cap.scale(sz)), '%s holds %r bytes, capacity needs %r' % (what, s.n(size), s.n(vw.cap.scale(sz))))
        return f
    run('slots block has capacity cells', block(vw.slots, vw.sh.slot_ty, 'the slot array'))
    run('entities block has capacity cells', block(vw.ents, vw.sh.ent_ty, 'the handle array'))
    for k, (i, t) in enumerate(vw.sh.cols):
        run('column block has capacity cells', block(vw.cols[k], t, 'column %d' % k))

    def dense(s):
        d = gen(s, 'd', 0, MAXCAP - 1, lambda a: vw.len - a - 1)
        dense_ok(I, s, vw, arch, d)
    run('dense -> sparse', dense)
    for k in range(len(vw.sh.cols)):
        def col(s, k=k):
            d = gen(s, 'd', 0, MAXCAP - 1, lambda a: vw.len - a - 1)
            v = vw.col(s, k, d)
            if v is UN:
                raise Bad('column %d is uninitialised at a live position (%r)' % (k, s.n(d)))
            if isinstance(v, Dropped):
                raise Bad('column %d holds a dropped value at a live position (%r)' % (k, s.n(d)))
        run('columns are initialised up to len', col)

    def sparse(s):
        x = gen(s, 's', 0, MAXCAP - 1, lambda a: vw.cap - a - 1)
        c = vw.sh.unpair(vw.sh.slot_ty, vw.slot(s, x))
        if c is None:
            raise Bad('slot %r is uninitialised' % (s.n(x),))
        ix, v = c
        if not s.decide(Pred('ge', K(FREE - 1) - ix)):
            return      # free; the free-list rule counts it
        need(s, Pred('ge', vw.len - ix - 1), 'slot %r is live with dense index %r beyond len' % (s.n(x), s.n(ix)))
        h = vw.sh.unpair(vw.sh.ent_ty, vw.ent(s, ix))
        if h is None:
            raise Bad('the handle at dense position %r is uninitialised' % (s.n(ix),))
        need(s, Pred('eq', h[0] - x.scale(256) - arch), 'slot %r points to dense position %r, whose handle is of another slot' % (s.n(x), s.n(ix)))
        need(s, Pred('eq', h[1] - v), 'slot %r and the handle at its dense position %r disagree on the generation' % (s.n(x), s.n(ix)))
    run('sparse -> dense', sparse)
    run('free list has capacity - len slots', lambda s: walk_free(I, s, vw))


def dense_ok(I, s, vw, arch, d):
    h = vw.sh.unpair(vw.sh.ent_ty, vw.ent(s, d))
    if h is None:
        raise Bad('the handle at dense position %r is uninitialised' % (s.n(d),))
    key, ver = s.n(h[0]), h[1]
    k = key - arch
    sl = None
    if all(c % 256 == 0 for _, c in k.t) and k.c % 256 == 0:
        sl = Lin(k.c // 256, tuple((a, c // 256) for a, c in k.t))
    else:
        # another encoding of the key: decide it
        s2 = s.copy()
        q = new_atom('q', 0, MAXCAP - 1)
        s2.eq(k - q.scale(256))
        if s2.facts.infeasible():
            raise Bad('the handle at dense position %r carries key %r' % (s.n(d), key))
        raise Unsupported('handle key %r' % (key,))
    need(s, Pred('ge', sl), 'negative slot')
    need(s, Pred('ge', vw.cap - sl - 1), 'the handle at dense position %r has slot %r beyond capacity' % (s.n(d), s.n(sl)))
    c = vw.sh.unpair(vw.sh.slot_ty, vw.slot(s, sl))
    if c is None:
        raise Bad('slot %r of the handle at dense position %r is uninitialised' % (s.n(sl), s.n(d)))
    need(s, Pred('eq', c[0] - d), 'the slot of the entity at dense position %r points to %r' % (s.n(d), s.n(c[0])))
    need(s, Pred('eq', c[1] - ver), 'slot and handle of the entity at dense position %r disagree on the generation' % (s.n(d),))


def walk_free(I, s, vw):
    rem = vw.cap - vw.len
    cur = vw.head
    hooks = I.hooks
    for step in range(40):
        cur = s.n(cur)
        if s.decide(Pred('eq', cur - END)):
            need(s, Pred('eq', rem), 'the free list ends %r positions early' % (s.n(rem),))
            return
        sl = s.n(cur - FREE)
        need(s, Pred('ge', sl), 'the free list continues at a live index')
        need(s, Pred('ge', vw.cap - sl - 1), 'the free list reaches slot %r beyond capacity' % (sl,))
        a = vw.arr(s, vw.slots)
        if a is None or isinstance(a, Freed):
            raise Bad('free list without a slot array')
        r = free_step(I, s, vw, a, sl)
        if r[0] == 'one':
            c = vw.sh.unpair(vw.sh.slot_ty, r[1])
            if c is None:
                raise Bad('free slot %r is uninitialised' % (sl,))
            cur = c[0]
            rem = rem - 1
        elif r[0] == 'run':
            cur, rem = r[1], rem - r[2]
        elif r[0] == 'end':
            need(s, Pred('eq', rem - r[1]), 'the free list holds %r slots, capacity - len leaves %r' % (s.n(vw.cap - vw.len - rem + r[1]), s.n(vw.cap - vw.len)))
            return
        need(s, Pred('ge', rem), 'the free list is longer than capacity - len')
    raise Unsupported('free list walk')


def free_step(I, s, vw, a, sl):
    """What happens at slot sl of array a (with its write log): ('one', cell), ('run', next, count), ('end', count)."""
    log = a.log
    for n in range(len(log) - 1, -1, -1):
        e = log[n]
        if e[0] == 'w':
            if s.same(sl, e[1]):
                return ('one', e[2])
        elif e[0] == 'r':
            if s.decide(Pred('ge', sl - e[1])) and s.decide(Pred('ge', e[2] - sl - 1)):
                return run_step(I, s, vw, a, n, sl)
        else:
            raise Unsupported('log entry')
    if a.base[0] == 'keep':
        if s.decide(Pred('ge', a.base[2] - sl - 1)):
            return guard(I, s, vw, a, free_step(I, s, vw, a.base[1], sl))
        raise Bad('the free list reaches the uninitialised slot %r' % (sl,))
    if a.base[0] == 'uninit':
        raise Bad('the free list reaches the uninitialised slot %r' % (sl,))
    if a.base[0] != 'slots':
        raise Unsupported('array base')
    sid = a.base[1]
    f = I.hooks.slot_entry(s, sid, sl)
    if isinstance(f, Live):
        raise Bad('the free list reaches slot %r, which is live' % (sl,))
    # the rest of the original list follows unless a later position was overwritten
    hit = None
    for e in log:
        if e[0] != 'w':
            # a range over seeded slots: only sound when no free slot of the seed lies in it
            g = s.ghost[('sto', sid)]
            if s.facts.implies_ge(e[1] - g.cap):
                continue
            raise Unsupported('range write over seeded slots')
        w = I.hooks.slot_entry(s, sid, s.n(e[1])) if s.decide(Pred('ge', s.ghost[('sto', sid)].cap - e[1] - 1)) else None
        if isinstance(w, Free):
            if s.decide(Pred('ge', w.pos - f.pos)):
                if hit is None or s.decide(Pred('ge', hit.pos - w.pos - 1)):
                    hit = w
    g = s.ghost[('sto', sid)]
    if hit is None:
        return ('end', g.cap - g.len - f.pos)
    return ('run', hit.slot + FREE, hit.pos - f.pos)


def guard(I, s, vw, a, r):
    """The step inside a kept array: valid unless the outer log overwrote later positions."""
    if r[0] == 'one' or not a.log:
        return r
    for e in a.log:
        lo = e[1]
        if not s.facts.implies_ge(lo - a.base[2]):
            raise Unsupported('kept slots were overwritten')
    return r


def copied(I, s, e):
    """The array of which the range entry e is an identical copy (cell by cell), or None."""
    from .loops import reads_in
    t = e[4]
    if isinstance(t[0], str) and t[0] == 'copy':
        return t[1] if t[2] == K(0) else None
    for src in reads_in(t[2]):
        probe = s.copy()
        m = new_atom('run', 0, MAXCAP)
        probe.ge(m - e[1])
        probe.ge(e[2] - m - 1)
        # on every materialisation of the source cell the copy must be equal
        try:
            if forall(I, probe, lambda p: same_cell(I, p, src, e, m)):
                continue
        except Unsupported:
            continue
        return src
    return None


def same_cell(I, p, src, e, m):
    from .specs import eqv
    if not eqv(p, I.arr_cell(p, src, p.n(m)), e[3](I, p, p.n(m))):
        raise Bad('differs')


def run_step(I, s, vw, a, n, sl):
    """sl lies in a range written by a loop: follow the whole run of slots threaded with unit stride."""
    e = a.log[n]
    lo, hi = e[1], e[2]
    src = copied(I, s, e)
    if src is not None and s.facts.implies_ge(-lo) and src.count is not None and s.facts.implies_ge(hi - src.count):
        # the whole array is a copy of another one
        r = free_step(I, s, vw, src, sl)
        if r[0] == 'one' or n == len(a.log) - 1:
            return r
        raise Unsupported('writes to copied slots')
    probe = s.copy()
    m = new_atom('run', 0, MAXCAP)
    probe.ge(m - lo)
    probe.ge(hi - m - 1)
    cell = e[3](I, probe, m)
    c = vw.sh.unpair(vw.sh.slot_ty, cell)
    if c is None:
        raise Bad('a free slot is uninitialised')
    d = probe.n(c[0] - FREE - m)
    if not d.const or d.c not in (1, -1):
        return ('one', e[3](I, s, sl))
    if d.c == 1:
        end, first = hi, sl
        cnt = hi - sl
        nxt = hi + FREE
    else:
        cnt = sl - lo + 1
        nxt = lo - 1 + FREE
    # positions of the run overwritten later
    for e2 in a.log[n + 1:]:
        if e2[0] == 'w':
            x = e2[1]
            inside = s.decide(Pred('ge', x - lo)) and s.decide(Pred('ge', hi - x - 1))
            if not inside:
                continue
            ahead = s.decide(Pred('ge', x - sl)) if d.c == 1 else s.decide(Pred('ge', sl - x))
            if not ahead:
                continue
            k = (x - sl) if d.c == 1 else (sl - x)
            if s.decide(Pred('ge', cnt - k - 1)):
                cnt, nxt = k, x + FREE
        else:
            if s.facts.implies_ge(e2[1] - hi) or s.facts.implies_ge(lo - e2[2]):
                continue
            raise Unsupported('overlapping range writes')
    if s.facts.implies_eq(cnt):
        raise Unsupported('empty run')
    return ('run', nxt, cnt)
