"""Abstract interpreter over the monomorphic MIR exported by mirdump.

States are partitioned by trace; integers live in the linear-relation domain (lin.py), heap arrays in a write-log
array domain, loops are summarised by induction (loops.py). Nothing of the program is executed: every value is
an abstraction over all inputs admitted by the seed."""
import re
from .lin import Lin, K, Facts, new_atom, ATOMS
from .values import *


class Unsupported(Exception):
    pass


class Split(Exception):
    """Trace partitioning: each alternative is (label, f) with f(state) refining the copied state."""

    def __init__(self, alts):
        self.alts = alts


class UBError(Exception):
    pass


class Program:
    def __init__(self, j, opaque=()):
        self.fns, self.types, self.allocs, self.files = j['fns'], j['types'], j['allocs'], j['files']
        self.entries = {k.split('::')[-1]: v for k, v in j['entries'].items()}
        self.opaque = set(opaque)
        self._col = {}
        self._opq = {}
        self._loops = {}
        self._live = {}

    # -- types --
    def ty(self, t):
        return self.types[t]

    def size(self, t):
        l = self.types[t].get('lay')
        return None if l is None else l['size']

    def tname(self, t):
        return self.types[t]['name']

    def is_opq(self, t):
        r = self._opq.get(t)
        if r is None:
            d = self.types[t]
            r = d['k'] == 'struct' and d['adt'].split('::')[-1] in self.opaque
            self._opq[t] = r
        return r

    def fields(self, t, variant=0):
        d = self.types[t]
        k = d['k']
        if k in ('struct', 'union', 'enum'):
            vs = d['variants']
            return [f[1] for f in vs[variant][2]] if vs else []
        if k == 'tuple':
            return d['ts']
        if k == 'closure':
            return d['ups']
        if k == 'pat':
            return [d['t']]
        if k == 'array':
            return [d['t']] * d['n']
        return []

    def fnames(self, t):
        return [f[0] for f in self.types[t]['variants'][0][2]]

    def collapse(self, t):
        """Index of the only field that carries data, for wrapper types; None otherwise."""
        if t in self._col:
            return self._col[t]
        d = self.types[t]
        r = None
        if d['k'] in ('struct', 'union', 'tuple', 'closure') and not self.is_opq(t) and not is_vec(d):
            fs = self.fields(t)
            nz = [i for i, f in enumerate(fs) if self.size(f) != 0]
            if len(nz) == 1:
                r = nz[0]
        self._col[t] = r
        return r

    def zst(self, t):
        return self.size(t) == 0

    def int_range(self, t):
        d = self.types[t]
        k = d['k']
        if k == 'uint':
            return 0, (1 << d['bits']) - 1
        if k == 'int':
            return -(1 << (d['bits'] - 1)), (1 << (d['bits'] - 1)) - 1
        if k == 'char':
            return 0, 0x10ffff
        if k == 'bool':
            return 0, 1
        return None

    def inner(self, t):
        """Strips wrappers: the type whose value represents t."""
        while True:
            d = self.types[t]
            if d['k'] == 'pat':
                t = d['t']
                continue
            c = self.collapse(t)
            if c is None:
                return t
            t = self.fields(t)[c]


def is_vec(d):
    return d['k'] == 'struct' and d['adt'] in ('std::vec::Vec', 'alloc::vec::Vec')


class Frame:
    __slots__ = ('fn', 'bb', 'si', 'fid', 'dest', 'target', 'unwind', 'active', 'last')

    def __init__(self, fn, fid, dest, target, unwind):
        self.fn, self.fid, self.dest, self.target, self.unwind = fn, fid, dest, target, unwind
        self.bb = self.si = 0
        self.active = ()
        self.last = None

    def copy(self):
        f = Frame(self.fn, self.fid, self.dest, self.target, self.unwind)
        f.bb, f.si, f.active, f.last = self.bb, self.si, self.active, self.last
        return f


class State:
    __slots__ = ('mem', 'facts', 'frames', 'stores', 'events', 'conds', 'inexact', 'reads', 'loopctx',
                 'status', 'ret', 'why', 'panic', 'note', 'ghost')

    def __init__(self):
        self.mem = {}
        self.facts = Facts()
        self.frames = []
        self.stores = {}
        self.events = ()
        self.conds = ()
        self.inexact = ()
        self.reads = None
        self.loopctx = ()
        self.status = None
        self.ret = None
        self.why = None
        self.panic = None
        self.note = ()
        self.ghost = {}

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.facts = self.facts
        s.frames = [f.copy() for f in self.frames]
        s.stores = dict(self.stores)
        s.events, s.conds, s.inexact = self.events, self.conds, self.inexact
        s.reads = None if self.reads is None else list(self.reads)
        s.loopctx = self.loopctx
        s.status, s.ret, s.why, s.panic, s.note = self.status, self.ret, self.why, self.panic, self.note
        s.ghost = dict(self.ghost)
        return s

    # -- facts --
    def n(self, l):
        return self.facts.n(l)

    def ge(self, l):
        self.facts = self.facts.add_ge(l)

    def eq(self, l):
        self.facts = self.facts.add_eq(l)

    def ne(self, l):
        self.facts = self.facts.add_ne(l)

    def assume(self, p):
        if p.op == 'ge':
            self.ge(p.l)
        elif p.op == 'eq':
            self.eq(p.l)
        else:
            self.ne(p.l)
        self.conds = self.conds + (p,)

    def test(self, p):
        """True / False / None."""
        f = self.facts
        if p.op == 'ge':
            if f.implies_ge(p.l):
                return True
            if f.implies_ge(-p.l - 1):
                return False
        elif p.op == 'eq':
            if f.implies_eq(p.l):
                return True
            if f.implies_ne(p.l):
                return False
        else:
            if f.implies_ne(p.l):
                return True
            if f.implies_eq(p.l):
                return False
        return None

    def decide(self, p):
        if isinstance(p, bool):
            return p
        t = self.test(p)
        if t is not None:
            return t
        raise Split([('%r' % p, lambda s: s.assume(p)), ('%r' % p.neg(), lambda s: s.assume(p.neg()))])

    def same(self, a, b):
        """a == b for two Lin, splitting when undecided."""
        if a == b:
            return True
        return self.decide(Pred('eq', a - b))

    def event(self, *e):
        self.events = self.events + (e,)

    def where(self, I, skip_std=True):
        for f in reversed(self.frames):
            fn = f.fn
            if fn['crate'] == 'gecs' or fn['crate'].startswith('w') or not skip_std:
                loc = f.last
                if loc:
                    return '%s:%d (in %s)' % (short_file(I.P.files[loc[0]]), loc[1], short_fn(fn['name']))
        return '?'


def short_file(p):
    i = p.find('/src/')
    return p[i + 1:] if i >= 0 and 'rustlib' not in p else p.split('/')[-1]


def short_fn(n):
    n = re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', n))
    return n[-70:]


MISSING = object()


def is_bits(v):
    return isinstance(v, Opq) and v.tag == 'bits'


class Interp:
    def __init__(self, prog, models, hooks=None, max_states=4000, max_steps=600000):
        self.P = prog
        self.models = models
        self.hooks = hooks
        self.fidn = 0
        self.oidn = 0
        self.max_states, self.max_steps = max_states, max_steps
        self.unroll = False     # follow iterations one by one only
        self.phases = False     # whether loops may run in phases (loops.Phase)
        self.peel = 3       # iterations followed one by one where a loop has no summary
        self.steps = 0
        self.nstates = 0
        self.visited_fns = set()
        self.unsup = {}

    def new_oid(self, name):
        self.oidn += 1
        return '%s@%d' % (name, self.oidn)

    # -- running ---------------------------------------------------------------
    def enter(self, st, fnid, args, dest=None, target=None, unwind=-1):
        fn = self.P.fns[fnid]
        if fn['body'] is None:
            raise Unsupported('no body for %s' % fn['name'])
        self.fidn += 1
        fr = Frame(fn, self.fidn, dest, target, unwind)
        self.visited_fns.add(fnid)
        argc = fn['argc']
        if len(args) != argc:
            raise Unsupported('argument count of %s: %d for %d' % (fn['name'], len(args), argc))
        if len(st.frames) > 60:
            raise Unsupported('call depth')
        for i, a in enumerate(args):
            st.mem[(fr.fid, i + 1)] = a
        st.frames.append(fr)

    def explore(self, st0, base, stop=None):
        """Runs st0 until its frame stack is popped below `base` frames (return/unwind), or stop(...) applies.
        Returns finished states with .status in ret, unwind, abort, ub, unsup, back, exit."""
        work, out = [st0], []
        while work:
            st = work.pop()
            self.nstates += 1
            if self.nstates > self.max_states or self.steps > self.max_steps:
                st.status, st.why = 'unsup', 'state limit'
                out.append(st)
                for s in work:
                    s.status, s.why = 'unsup', 'state limit'
                    out.append(s)
                break
            r = self.advance(st, base, stop)
            if r is None:
                out.append(st)
            else:
                work.extend(r)
        return out

    def split(self, st, sp):
        res = []
        for label, f in sp.alts:
            s = st.copy()
            f(s)
            if s.facts.bad:
                continue
            s.note = s.note + ((self.loc(s), label),)
            res.append(s)
        if len(sp.alts) > 2:
            res = [s for s in res if not s.facts.infeasible()]
        return res

    def loc(self, st):
        return st.where(self)

    def advance(self, st, base, stop):
        """Advances st until it finishes (returns None) or forks (returns the successors)."""
        while True:
            if st.status is not None:
                return None
            if len(st.frames) < base:
                return None
            fr = st.frames[-1]
            blk = fr.fn['body'][fr.bb]
            self.steps += 1
            if self.steps > self.max_steps:
                st.status, st.why = 'unsup', 'step limit'
                return None
            try:
                if fr.si < len(blk[0]):
                    s = blk[0][fr.si]
                    self.stmt(st, fr, s)
                    fr.si += 1
                else:
                    fr.last = blk[2]
                    r = self.term(st, fr, blk[1], base, stop)
                    if r is not None:
                        return r
            except Split as sp:
                return self.split(st, sp)
            except UBError as e:
                st.status, st.why = 'ub', '%s at %s' % (e, st.where(self))
                return None
            except Unsupported as e:
                w = '%s at %s' % (e, st.where(self, False))
                self.unsup[w] = self.unsup.get(w, 0) + 1
                st.status, st.why = 'unsup', w
                return None

    def goto(self, st, fr, bb, base, stop):
        """Transfers control inside a frame; returns successors when a loop is summarised."""
        fr.bb, fr.si = bb, 0
        if stop is not None:
            r = stop(st, fr, bb)
            if r:
                st.status = r
                return None
        loops = self.loops_of(fr.fn)
        if bb in loops:
            if bb in fr.active:
                pk = st.ghost.get(('peel', fr.fid, bb))
                if pk is None:
                    ph = st.ghost.get(('phase', fr.fid, bb))
                    if ph is not None:
                        from . import loops as L
                        if L.phase_moved(st, ph):
                            return L.summarise(self, st, fr, bb, loops[bb], base, stop)
                    st.status = 'lback'     # covered by the loop's summary
                elif pk[0] == 0:
                    st.status, st.why = 'unsup', 'after %d iterations: %s' % (self.peel, pk[1])
                elif pk[0] == self.peel and not self.unroll and ('again', fr.fid, bb) not in st.ghost:
                    # values that change their shape once (None, then Some) have it now
                    from . import loops as L
                    st.ghost['again', fr.fid, bb] = True
                    del st.ghost['peel', fr.fid, bb]
                    r = L.summarise(self, st, fr, bb, loops[bb], base, stop)
                    if len(r) == 1 and r[0] is st and ('peel', fr.fid, bb) in st.ghost:
                        st.ghost['peel', fr.fid, bb] = (pk[0] - 1, pk[1])
                        return None
                    return r
                else:
                    st.ghost['peel', fr.fid, bb] = (pk[0] - 1, pk[1])
                return None
            from . import loops as L
            return L.summarise(self, st, fr, bb, loops[bb], base, stop)
        # leaving loops
        if fr.active:
            fr.active = tuple(h for h in fr.active if bb in loops[h])
        return None

    def loops_of(self, fn):
        r = self.P._loops.get(fn['id'])
        if r is None:
            from . import loops as L
            r = L.find_loops(fn)
            self.P._loops[fn['id']] = r
        return r

    # -- places ------------------------------------------------------------------
    def place(self, st, fr, pl):
        """Evaluates a place to (obj, path, meta, type)."""
        fid = fr.fid
        local = pl[0]
        obj, path, meta = (fid, local), (), None
        ty = fr.fn['locals'][local]
        P = self.P
        variant = None
        for e in pl[1:]:
            if e == '*':
                d = P.ty(ty)
                if d['k'] not in ('ref', 'ptr'):
                    # Box
                    c = P.inner(ty)
                    d = P.ty(c)
                    if d['k'] not in ('ref', 'ptr'):
                        raise Unsupported('deref of ' + P.tname(ty))
                v = self.load(st, obj, path)
                if v is UN or v is MISSING:
                    raise UBError('dereference of an uninitialised pointer')
                if not isinstance(v, Ptr):
                    if isinstance(v, Lin):
                        v = Ptr(None, (), None, v)
                    else:
                        raise Unsupported('deref of %r' % (v,))
                ty = d['t']
                obj, path, meta = v.obj, v.path, v.meta
                if obj is None:
                    path, meta = ('addr', v.addr), v.meta
                else:
                    obj, path = self.typed(st, obj, path, ty)
                variant = None
            elif e[0] == 'f':
                i, ft = e[1], e[2]
                if obj is not None:
                    if P.ty(ty)['k'] == 'enum':
                        fs = P.fields(ty, variant or 0)
                        path = path + (('f', i, len(fs)),)
                    elif P.zst(ft) and not P.is_opq(ft):
                        path = path + (('z',),)
                    else:
                        c = P.collapse(ty)
                        if P.ty(ty)['k'] == 'pat':
                            pass
                        elif c is None:
                            if P.ty(ty)['k'] == 'union':
                                raise Unsupported('union field')
                            if P.is_opq(ty):
                                raise Unsupported('field of an opaque component')
                            if is_vec(P.ty(ty)):
                                raise Unsupported('field of Vec')
                            path = path + (('f', i, len(P.fields(ty))),)
                        elif c != i:
                            path = path + (('z',),)
                ty = ft
                variant = None
            elif e[0] == 'd':
                variant = e[1]
                if obj is not None:
                    path = path + (('d', e[1], P.ty(ty)['name'] and len(P.fields(ty, e[1]))),)
            elif e[0] in ('i', 'c'):
                d = P.ty(ty)
                if e[0] == 'i':
                    ix = self.load(st, (fid, e[1]), ())
                elif e[3]:
                    n = meta if d['k'] == 'slice' else K(d['n'])
                    ix = n - e[1]
                else:
                    ix = K(e[1])
                if obj is None:
                    if not P.zst(d['t']):
                        raise UBError('indexing through a dangling pointer')
                elif d['k'] == 'slice':
                    path = path[:-1] + (('x', path[-1][1] + ix),)
                elif d['k'] == 'array':
                    path = path + (('x', ix),)
                else:
                    raise Unsupported('index of ' + d['name'])
                ty = d['t']
            elif e[0] == 's':
                d = P.ty(ty)
                if d['k'] != 'slice':
                    raise Unsupported('subslice of array')
                frm, to, end = e[1], e[2], e[3]
                path = path[:-1] + (('x', path[-1][1] + frm),)
                meta = (meta - frm - to) if end else K(to - frm)
            else:
                raise Unsupported('projection %r' % (e,))
        return obj, path, meta, ty

    def typed(self, st, obj, path, ty):
        """Gives a raw heap block its element type on first typed access."""
        v = st.mem.get(obj)
        if isinstance(v, Raw):
            d = self.P.ty(ty)
            et = d['t'] if d['k'] in ('slice', 'array') else ty
            sz = self.P.size(et)
            if not sz or d['k'] == 'array':
                raise Unsupported('typing of a raw block as ' + d['name'])
            cnt = div_exact(st.n(v.size), sz)
            if cnt is None:
                raise Unsupported('block size %r is not a multiple of %d' % (v.size, sz))
            if v.align is not None and v.align < self.P.ty(et)['lay']['align']:
                raise UBError('a block allocated with alignment %d is used as %s' % (v.align, self.P.tname(et)))
            base = ('uninit',)
            st.mem[obj] = Arr(v.name, et, cnt, base, (), v.size, v.align)
        if not path and isinstance(st.mem.get(obj), Arr):
            path = (('x', K(0)),)
        return obj, path

    # -- memory ------------------------------------------------------------------
    def load(self, st, obj, path):
        if obj is None:
            return UN
        v = st.mem.get(obj, MISSING)
        if v is MISSING:
            v = self.lazy_obj(st, obj)
        for step in path:
            v = self.proj(st, v, step, obj)
        return v

    def lazy_obj(self, st, obj):
        if isinstance(obj, tuple) and isinstance(obj[0], int):
            return UN
        if isinstance(obj, tuple) and obj[0] == 'const':
            raise Unsupported('constant memory')
        raise Unsupported('access to a dead object %s' % (obj,))

    def proj(self, st, v, step, obj=None):
        k = step[0]
        if isinstance(v, Freed):
            raise UBError('use of freed memory (%s)' % (v.what,))
        if k == 'z':
            return UNIT
        if isinstance(v, Dropped):
            raise UBError('use of a dropped value')
        if k == 'x':
            if isinstance(v, Arr):
                return self.arr_read(st, v, step[1])
            if isinstance(v, Agg):
                ix = st.n(step[1])
                if not ix.const:
                    self.pick(st, ix, len(v.f))
                if not 0 <= ix.c < len(v.f):
                    raise UBError('array index out of bounds')
                return v.f[ix.c]
            if v is UN:
                return UN
            if isinstance(step[1], Lin) and st.n(step[1]) == K(0):
                return v        # pointer to a single object used as a one-element array
            raise Unsupported('index into %r' % (v,))
        if v is UN:
            return UN
        if k == 'f':
            if isinstance(v, (Agg, En)):
                if step[1] >= len(v.f):
                    raise Unsupported('field %d of %r' % (step[1], v))
                return v.f[step[1]]
            if isinstance(v, Opq) and v.tag == 'evt':
                return self.hooks.evt_expand(st, v).f[step[1]]
            raise Unsupported('field of %r' % (v,))
        if k == 'd':
            if isinstance(v, En):
                if v.v != step[1]:
                    raise UBError('enum downcast to another variant')
                return v
            raise Unsupported('downcast of %r' % (v,))
        raise Unsupported('projection')

    def pick(self, st, ix, n):
        if n > 40:
            raise Unsupported('symbolic index into a large array')
        alts = [('=%d' % i, (lambda i: lambda s: s.assume(Pred('eq', ix - i)))(i)) for i in range(n)]
        alts.append(('out of bounds', lambda s: s.assume(Pred('ge', ix - n))))
        raise Split(alts)

    def check_bounds(self, st, a, ix):
        ix = st.n(ix)
        if a.count is None:
            return
        lo = st.facts.implies_ge(ix)
        hi = st.facts.implies_ge(a.count - ix - 1)
        if lo and hi:
            return
        if st.facts.implies_ge(-ix - 1) or st.facts.implies_ge(ix - a.count):
            raise UBError('access to %s out of bounds: index %r of %r' % (a.name, ix, st.n(a.count)))
        p1, p2 = Pred('ge', ix), Pred('ge', a.count - ix - 1)
        raise Split([('in bounds', lambda s: (s.assume(p1), s.assume(p2))),
                     ('below bounds', lambda s: s.assume(p1.neg())),
                     ('beyond bounds', lambda s: s.assume(p2.neg()))])

    def arr_read(self, st, a, ix, check=True):
        if check:
            self.check_bounds(st, a, ix)
        v = self.arr_cell(st, a, ix)
        if st.reads is not None:
            st.reads.append((a, ix, v))
        return v

    def arr_cell(self, st, a, ix):
        for e in reversed(a.log):
            if e[0] == 'w':
                if st.same(ix, e[1]):
                    return e[2]
            elif e[0] == 'r':       # range write: lo <= i < hi, step 1, value template
                lo, hi = e[1], e[2]
                if st.decide(Pred('ge', ix - lo)) and st.decide(Pred('ge', hi - ix - 1)):
                    return e[3](self, st, ix)
            elif e[0] == 'havoc':
                raise Unsupported('read of a cell changed by a summarised loop')
        return self.base_read(st, a.base, ix)

    def base_read(self, st, base, ix):
        k = base[0]
        if k == 'uninit':
            return UN
        if k == 'keep':
            if st.decide(Pred('ge', base[2] - ix - 1)):
                return self.arr_cell(st, base[1], ix)
            return UN
        if k == 'cat':          # n cells of a former array, then another one's from cell `off` on
            if st.decide(Pred('ge', base[2] - ix - 1)):
                return self.arr_cell(st, base[1], ix)
            return self.arr_cell(st, base[3], st.n(ix - base[2] + base[4]))
        if self.hooks is not None:
            return self.hooks.base_read(self, st, base, ix)
        raise Unsupported('array base %r' % (base,))

    def store(self, st, obj, path, val):
        if obj is None:
            return
        if path and path[-1][0] == 'z':
            return
        v = st.mem.get(obj, MISSING)
        if v is MISSING:
            v = self.lazy_obj(st, obj)
        st.mem[obj] = self.upd(st, v, path, 0, val)

    def upd(self, st, v, path, k, val):
        if isinstance(v, Freed):
            raise UBError('write to freed memory (%s)' % (v.what,))
        if k == len(path):
            if isinstance(v, (Arr, Raw)):
                raise Unsupported('whole-array write')
            return val
        step = path[k]
        t = step[0]
        if t == 'x':
            if isinstance(v, Arr):
                self.check_bounds(st, v, step[1])
                if k + 1 == len(path):
                    cell = val
                else:
                    cell = self.upd(st, self.arr_cell(st, v, step[1]), path, k + 1, val)
                ix = st.n(step[1])
                if v.log and v.log[-1][0] == 'w' and st.n(v.log[-1][1]) == ix:
                    return v.with_log(v.log[:-1] + (('w', ix, cell),))
                return v.with_log(v.log + (('w', ix, cell),))
            if isinstance(v, Agg):
                ix = st.n(step[1])
                if not ix.const:
                    self.pick(st, ix, len(v.f))
                if not 0 <= ix.c < len(v.f):
                    raise UBError('array index out of bounds')
                f = list(v.f)
                f[ix.c] = self.upd(st, f[ix.c], path, k + 1, val)
                return Agg(f)
            if st.n(step[1]) == K(0):
                return self.upd(st, v, path, k + 1, val)
            raise Unsupported('indexed write')
        if t == 'z':
            return v
        if isinstance(v, Dropped):
            v = UN
        if t == 'f':
            if v is UN:
                v = Agg([UN] * step[2])
            if isinstance(v, (Agg, En)):
                f = list(v.f)
                f[step[1]] = self.upd(st, f[step[1]], path, k + 1, val)
                return Agg(f) if isinstance(v, Agg) else En(v.v, f)
            raise Unsupported('field write into %r' % (v,))
        if t == 'd':
            if not isinstance(v, En) or v.v != step[1]:
                v = En(step[1], [UN] * step[2])
            return self.upd(st, v, path, k + 1, val)
        raise Unsupported('write path')

    # -- operands -----------------------------------------------------------------
    def op_ty(self, fr, o):
        if o[0] in ('c', 'm'):
            return self.place_ty(fr, o[1])
        if o[0] in ('k', 'kc', 'k?'):
            return o[1]
        return None

    def place_ty(self, fr, pl):
        ty = fr.fn['locals'][pl[0]]
        for e in pl[1:]:
            if e == '*':
                d = self.P.ty(ty)
                if d['k'] not in ('ref', 'ptr'):
                    d = self.P.ty(self.P.inner(ty))
                ty = d['t']
            elif e[0] == 'f':
                ty = e[2]
            elif e[0] in ('i', 'c'):
                ty = self.P.ty(ty)['t']
        return ty

    def operand(self, st, fr, o):
        k = o[0]
        if k in ('c', 'm'):
            obj, path, meta, ty = self.place(st, fr, o[1])
            return self.read(st, obj, path, ty)
        if k == 'k':
            return self.const(st, o)
        if k == 'kc':
            return K(o[2])
        if k == 'rt':
            return False if 'Overflow' not in o[1] else self.hooks.overflow_checks
        raise Unsupported('operand %r' % (o[:2],))

    def read(self, st, obj, path, ty):
        P = self.P
        if P.zst(ty):
            if P.is_opq(ty):
                return Opq('zst', (P.tname(ty),))
            return self.zst_value(ty)
        if obj is None:
            raise UBError('read of %s through a dangling pointer' % P.tname(ty))
        v = self.load(st, obj, path)
        if v is MISSING:
            v = UN
        if isinstance(v, Dropped):
            raise UBError('use of a dropped value')
        if isinstance(v, Freed):
            raise UBError('use of freed memory (%s)' % (v.what,))
        if v is UN and self.P.ty(ty)['k'] in ('uint', 'int', 'bool', 'char', 'ref', 'ptr', 'enum'):
            raise UBError('read of uninitialised memory as %s' % P.tname(ty))
        if isinstance(v, Arr) or isinstance(v, Raw):
            raise Unsupported('whole-array read')
        return v

    def zst_value(self, ty):
        if self.P.ty(ty)['k'] == 'enum':
            l = self.P.ty(ty)['lay']['vars']
            v = l['single'] if isinstance(l, dict) and 'single' in l else 0
            return En(v, [self.zst_value(f) for f in self.P.fields(ty, v)])
        return UNIT

    def const(self, st, o):
        ty = o[1]
        d = self.P.ty(ty)
        if d['k'] == 'fndef':
            return UNIT
        if len(o) == 2:
            return self.zst_value(ty) if not self.P.is_opq(ty) else Opq('zst', (self.P.tname(ty),))
        hx, prov = o[2], {p[0]: p[1] for p in o[3]}
        return self.decode(st, ty, hx, prov, 0)

    def decode(self, st, ty, hx, prov, off):
        P = self.P
        d = P.ty(ty)
        k = d['k']
        sz = P.size(ty)
        if sz == 0:
            return self.zst_value(ty)
        if P.is_opq(ty):
            raise Unsupported('constant component')
        if k in ('uint', 'int', 'char', 'bool'):
            b = hx[2 * off:2 * (off + sz)]
            if '-' in b:
                return UN
            n = int.from_bytes(bytes.fromhex(b), 'little')
            if k == 'bool':
                return bool(n)
            if k == 'int' and n >> (8 * sz - 1):
                n -= 1 << (8 * sz)
            return K(n)
        if k in ('ref', 'ptr', 'fnptr'):
            meta = None
            if sz == 16:
                t = P.ty(d['t'])
                if t['k'] == 'dyn':
                    meta = 'dyn'
                else:
                    b = hx[2 * off + 16:2 * off + 32]
                    meta = K(int.from_bytes(bytes.fromhex(b), 'little')) if '-' not in b else 'dyn'
            if off in prov:
                a = P.allocs[prov[off]]
                if a[0] == 'fn':
                    return FnV(a[1])
                obj = ('const', prov[off])
                if a[0] == 'mem' and k != 'fnptr':
                    self.const_obj(st, obj, a, d['t'], meta)
                t = P.ty(d['t'])
                path = (('x', K(0)),) if t['k'] in ('slice', 'str') else ()
                return Ptr(obj, path, meta)
            b = hx[2 * off:2 * off + 16]
            return Ptr(None, (), meta, K(int.from_bytes(bytes.fromhex(b), 'little')) if '-' not in b else K(1))
        if k == 'pat':
            return self.decode(st, d['t'], hx, prov, off)
        if k == 'array':
            es = P.size(d['t'])
            return Agg([self.decode(st, d['t'], hx, prov, off + i * es) for i in range(d['n'])])
        if k in ('struct', 'tuple', 'closure', 'union'):
            c = P.collapse(ty)
            fs = P.fields(ty)
            if k == 'union':
                if c is None:
                    raise Unsupported('constant union')
                return self.decode(st, fs[c], hx, prov, off)
            offs = d['lay']['offs']
            if c is not None:
                return self.decode(st, fs[c], hx, prov, off + offs[c])
            if is_vec(d):
                raise Unsupported('constant Vec')
            return Agg([self.decode(st, f, hx, prov, off + offs[i]) for i, f in enumerate(fs)])
        if k == 'enum':
            lv = d['lay']['vars']
            if 'single' in lv:
                v = lv['single']
                offs = d['lay']['offs']
            else:
                toff = d['lay']['offs'][lv['field']] if isinstance(d['lay']['offs'], list) and d['lay']['offs'] else 0
                ts = lv['tagsize']
                b = hx[2 * (off + toff):2 * (off + toff + ts)]
                if (off + toff) in prov:
                    tag = None
                elif '-' in b:
                    return UN
                else:
                    tag = int.from_bytes(bytes.fromhex(b), 'little')
                if lv['enc'] == 'direct':
                    v = None
                    for i, vv in enumerate(d['variants']):
                        if (int(vv[1]) & ((1 << (8 * ts)) - 1)) == tag:
                            v = i
                    if v is None:
                        raise Unsupported('constant enum tag')
                else:
                    unt, ns, ne, start = lv['enc'][0], lv['enc'][1], lv['enc'][2], int(lv['enc'][3])
                    if tag is None:
                        v = unt
                    else:
                        rel = (tag - start) & ((1 << (8 * ts)) - 1)
                        v = ns + rel if rel <= ne - ns else unt
                offs = lv['offs'][v]
            fs = P.fields(ty, v)
            return En(v, [self.decode(st, f, hx, prov, off + offs[i]) for i, f in enumerate(fs)])
        raise Unsupported('constant of type ' + d['name'])

    def const_obj(self, st, obj, a, ty, meta):
        if obj in st.mem:
            return
        d = self.P.ty(ty)
        prov = {p[0]: p[1] for p in a[2]}
        try:
            if d['k'] in ('str', 'slice'):
                et = d.get('t')
                es = self.P.size(et) if et is not None else 1
                if es and meta is not None and meta != 'dyn' and meta.c <= 64 and et is not None:
                    st.mem[obj] = Agg([self.decode(st, et, a[1], prov, i * es) for i in range(meta.c)])
                else:
                    st.mem[obj] = Opq('conststr', (obj[1],))
            elif d['k'] != 'dyn':
                st.mem[obj] = self.decode(st, ty, a[1], prov, 0)
            else:
                st.mem[obj] = Opq('constdyn', (obj[1],))
        except Unsupported:
            st.mem[obj] = Opq('const', (obj[1],))

    # -- statements -----------------------------------------------------------------
    def stmt(self, st, fr, s):
        k = s[0]
        if k == '=':
            fr.last = s[3]
            v = self.rvalue(st, fr, s[2], s[1])
            self.assign(st, fr, s[1], v)
        elif k == 'live':
            st.mem[(fr.fid, s[1])] = UN
        elif k == 'dead':
            st.mem.pop((fr.fid, s[1]), None)
        elif k == 'assume':
            p = self.operand(st, fr, s[1])
            fr.last = s[2]
            if st.decide(self.as_bool(st, p)) is False:
                raise UBError('assumption violated')
        elif k == 'cpy':
            src, dst, n = [self.operand(st, fr, x) for x in s[1:4]]
            fr.last = s[4]
            t = self.P.ty(self.op_ty(fr, s[1]))['t']
            self.copy_cells(st, src, dst, n, t)
        elif k == 'setd':
            obj, path, meta, ty = self.place(st, fr, s[1])
            v = self.load(st, obj, path)
            if isinstance(v, En) and v.v == s[2]:
                return
            n = len(self.P.fields(ty, s[2]))
            self.store(st, obj, path, En(s[2], [UN] * n))
        else:
            raise Unsupported('statement ' + k)

    def assign(self, st, fr, pl, v):
        if len(pl) == 1:
            st.mem[(fr.fid, pl[0])] = v
            return
        obj, path, meta, ty = self.place(st, fr, pl)
        self.write(st, obj, path, ty, v)

    def write(self, st, obj, path, ty, v):
        if self.P.zst(ty):
            return
        if obj is None:
            raise UBError('write through a dangling pointer')
        self.store(st, obj, path, v)

    def copy_cells(self, st, src, dst, n, t):
        """memmove of n elements of type t."""
        n = st.n(n)
        if self.P.zst(t) or n == K(0):
            return
        if not n.const:
            if st.decide(Pred('eq', n)):
                return
            return self.copy_range(st, src, dst, n, t)
        if n.c > 8:
            return self.copy_range(st, src, dst, n, t)
        vals = []
        for i in range(n.c):
            o, p = self.elem_ptr(st, src, t, i)
            v = self.load(st, o, p)
            if isinstance(v, Freed):
                raise UBError('copy from freed memory')
            vals.append(v)
        # resolve the destinations before mutating anything
        dsts = [self.elem_ptr(st, dst, t, i) for i in range(n.c)]
        for (o, p), v in zip(dsts, vals):
            self.store(st, o, p, v)

    def copy_range(self, st, src, dst, n, t):
        so, sp = self.elem_ptr(st, src, t, 0)
        do, dp = self.elem_ptr(st, dst, t, 0)
        a, b = st.mem.get(so), st.mem.get(do)
        if not (isinstance(a, Arr) and isinstance(b, Arr) and len(sp) == 1 and len(dp) == 1):
            raise Unsupported('range copy')
        s0, d0 = st.n(sp[0][1]), st.n(dp[0][1])
        for arr, i0, w in ((a, s0, 'source'), (b, d0, 'destination')):
            if arr.count is not None and not (st.decide(Pred('ge', i0)) and st.decide(Pred('ge', arr.count - i0 - n))):
                raise UBError('range copy beyond the bounds of its ' + w)
        delta = s0 - d0
        st.mem[do] = b.with_log(b.log + (('r', d0, d0 + n, lambda I, s, i: I.arr_cell(s, a, i + delta), ('copy', a, delta)),))

    def elem_ptr(self, st, p, t, i):
        if not isinstance(p, Ptr):
            raise Unsupported('pointer expected, got %r' % (p,))
        if p.obj is None:
            raise UBError('access through a dangling pointer')
        obj, path = self.typed(st, p.obj, p.path, t)
        if i:
            path = self.offset_path(st, obj, path, K(i), t)
        return obj, path

    def offset_path(self, st, obj, path, n, t):
        n = st.n(n)
        if n == K(0):
            return path
        if path and path[-1][0] == 'x':
            a = st.mem.get(obj)
            if isinstance(a, Arr) and len(path) == 1:
                es, ts = self.P.size(a.elem), self.P.size(t)
                if es != ts:
                    if ts and (n.scale(ts)).const and (n.c * ts) % es == 0:
                        n = K(n.c * ts // es)
                    else:
                        q = div_exact(n.scale(ts), es)
                        if q is None:
                            raise Unsupported('pointer offset in units of another type')
                        n = q
            elif isinstance(a, Raw):
                raise Unsupported('offset into an untyped block')
            return path[:-1] + (('x', path[-1][1] + n),)
        return path + (('x', n),)

    def as_bool(self, st, v):
        if isinstance(v, (bool, Pred)):
            return v
        if isinstance(v, Lin):
            return Pred('ne', v)
        raise Unsupported('boolean %r' % (v,))

    # -- rvalues ----------------------------------------------------------------------
    def rvalue(self, st, fr, r, dest):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k in ('ref', 'addr', 'reb'):
            pl = r[2] if k != 'reb' else r[3]
            obj, path, meta, ty = self.place(st, fr, pl)
            if obj is None:
                return Ptr(None, (), meta, path[1] if len(path) == 2 and path[0] == 'addr' else K(1))
            return Ptr(obj, path, meta)
        if k == 'agg':
            ops = [self.operand(st, fr, o) for o in r[2]]
            kk = r[1][0]
            ty = r[3]
            if kk == 'rawptr':
                p, m = ops
                if not isinstance(p, Ptr):
                    raise Unsupported('rawptr of %r' % (p,))
                if isinstance(m, Agg):
                    return p
                path = p.path
                if p.obj is not None and self.P.ty(r[1][1])['k'] in ('slice', 'str') and not (path and path[-1][0] == 'x'):
                    path = path + (('x', K(0)),)
                return Ptr(p.obj, path, m, p.addr)
            if kk in ('tuple', 'closure', 'array'):
                return self.make(ty, 0, ops, None, kk == 'array')
            if kk == 'adt':
                return self.make(ty, r[1][1], ops, r[1][2], False)
            raise Unsupported('aggregate')
        if k == 'bin':
            return self.binop(st, fr, r)
        if k == 'chk':
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            t = self.op_ty(fr, r[2])
            return self.checked(st, r[1], a, b, t)
        if k == 'un':
            v = self.operand(st, fr, r[2])
            if r[1] == 'Not':
                if isinstance(v, bool):
                    return not v
                if isinstance(v, Pred):
                    return v.neg()
                lo, hi = self.P.int_range(self.op_ty(fr, r[2]))
                return K(hi + lo) - v if lo == 0 else K(-1) - v
            if r[1] == 'Neg':
                t = self.op_ty(fr, r[2])
                return self.wrap(st, -v, t)
            if r[1] == 'PtrMetadata':
                if isinstance(v, Ptr):
                    return v.meta if v.meta is not None else UNIT
            raise Unsupported('unary ' + r[1])
        if k == 'cast':
            return self.cast(st, fr, r)
        if k == 'disc':
            obj, path, meta, ty = self.place(st, fr, r[1])
            v = self.read(st, obj, path, ty)
            if isinstance(v, En):
                return K(int(self.P.ty(ty)['variants'][v.v][1]))
            if v is UN:
                raise UBError('discriminant of uninitialised memory')
            raise Unsupported('discriminant of %r' % (v,))
        if k == 'len':
            obj, path, meta, ty = self.place(st, fr, r[1])
            d = self.P.ty(ty)
            return K(d['n']) if d['k'] == 'array' else meta
        if k == 'rep':
            v = self.operand(st, fr, r[1])
            if r[2] > 64:
                raise Unsupported('large repeat')
            return Agg([v] * r[2])
        raise Unsupported('rvalue ' + k)

    def make(self, ty, variant, ops, ufield, array):
        P = self.P
        if array:
            return Agg(ops)
        d = P.ty(ty)
        if d['k'] == 'enum':
            return En(variant, ops)
        if P.is_opq(ty):
            return Opq('built', (P.tname(ty),) + tuple(ops))
        if P.zst(ty):
            return UNIT
        c = P.collapse(ty)
        if d['k'] == 'union':
            if c is None:
                raise Unsupported('union')
            return ops[0] if ufield == c else UN
        if c is not None:
            return ops[c]
        return Agg(ops)

    def binop(self, st, fr, r):
        op = r[1]
        a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
        t = self.op_ty(fr, r[2])
        return self.bin(st, op, a, b, t)

    def bin(self, st, op, a, b, t):
        if op == 'Offset':
            et = self.P.ty(t)['t']
            return self.ptr_offset(st, a, b, et)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return self.compare(st, op, a, b)
        if op == 'Cmp':
            d = a - b
            if st.decide(Pred('eq', d)):
                return En(1)
            return En(0) if st.decide(Pred('ge', -d - 1)) else En(2)
        if isinstance(a, (bool, Pred)) or isinstance(b, (bool, Pred)):
            if op in ('BitAnd', 'BitOr', 'BitXor'):
                a, b = self.as_bool(st, a), self.as_bool(st, b)
                if not isinstance(a, bool) and isinstance(b, bool):
                    a, b = b, a
                if not isinstance(a, bool):
                    a = st.decide(a)
                if op == 'BitAnd':
                    return b if a else False
                if op == 'BitOr':
                    return True if a else b
                return (not b if isinstance(b, bool) else b.neg()) if a else b
            raise Unsupported('boolean ' + op)
        if is_bits(a) or is_bits(b):
            return self.bits(st, op, a, b, t)
        if not isinstance(a, Lin) or not isinstance(b, Lin):
            raise Unsupported('%s of %r and %r' % (op, a, b))
        a, b = st.n(a), st.n(b)
        base = op.replace('Unchecked', '')
        if base in ('BitXor', 'BitOr') and not a.const and not b.const and self.disjoint(st, a, b) is None:
            # two variables: the comparison of the combination with zero is all that is known about it
            return Opq('bits', (a, b) if base == 'BitXor' else (a, K(0), b, K(0)))
        rng = self.P.int_range(t)
        if base in ('Add', 'Sub', 'Mul'):
            v = self.arith(st, base, a, b)
            if op.endswith('Unchecked'):
                lo, hi = rng
                if not (st.decide(Pred('ge', v - lo)) and st.decide(Pred('ge', Lin(hi) - v))):
                    raise UBError('unchecked arithmetic overflows')
                return v
            return self.wrap(st, v, t)
        if base in ('Shl', 'Shr'):
            if not b.const:
                raise Unsupported('shift by a variable')
            bits = self.P.ty(t)['bits']
            n = b.c % bits
            if base == 'Shl':
                return self.wrap(st, a.scale(1 << n), t)
            return self.divmod2(st, a, n)[0]
        if base in ('Div', 'Rem'):
            if not b.const or b.c <= 0:
                raise Unsupported('division')
            q, m = self.divmod_c(st, a, b.c)
            return q if base == 'Div' else m
        if base == 'BitAnd':
            return self.bitand(st, a, b, t)
        if base == 'BitOr':
            x = self.disjoint(st, a, b)
            if x is not None:
                return x
            return a + b - self.bitand(st, a, b, t)
        if base == 'BitXor':
            return a + b - self.bitand(st, a, b, t).scale(2)
        raise Unsupported('operator ' + op)

    def bits(self, st, op, a, b, t):
        """Operators on Opq('bits', (x1, y1, x2, y2, ...)), which stands for (x1 ^ y1) | (x2 ^ y2) | ..."""
        base = op.replace('Unchecked', '')
        x, y = (v.a if is_bits(v) else (v, K(0)) for v in (a, b))
        if not all(isinstance(v, Lin) for v in x + y):
            raise Unsupported('bitwise operation of %r and %r' % (a, b))
        if base == 'BitOr' and not op.endswith('Unchecked'):
            return Opq('bits', x + y)
        if base == 'BitXor':
            if len(x) == 2 and len(y) == 2:
                for i, j in ((0, 1), (1, 0)):
                    for k, l in ((0, 1), (1, 0)):
                        if y[l] == K(0) and x[j] == K(0):
                            return Opq('bits', (x[i], y[k]))
        if base == 'BitAnd' and not is_bits(a):
            a, b, x, y = b, a, y, x
        if base in ('Shl', 'Shr', 'BitAnd') and is_bits(a) and isinstance(b, Lin) and st.n(b).const:
            return Opq('bits', tuple(self.bin(st, base, v, b, t) for v in x))
        raise Unsupported('operator %s of %r and %r' % (op, a, b))

    def arith(self, st, op, a, b):
        if op == 'Add':
            return a + b
        if op == 'Sub':
            return a - b
        if a.const:
            return b.scale(a.c)
        if b.const:
            return a.scale(b.c)
        raise Unsupported('product of variables')

    def disjoint(self, st, a, b):
        """a | b when the set bits cannot overlap."""
        for x, y in ((a, b), (b, a)):
            g = x.c
            from math import gcd
            for _, k in x.t:
                g = gcd(g, k)
            if g == 0:
                return y
            p = g & -g
            lo, hi = st.facts.interval(y)
            if lo is not None and lo >= 0 and hi is not None and hi < p:
                return x + y
            if p > 1 and st.facts.implies_ge(y) and st.facts.implies_ge(Lin(p - 1) - y):
                return x + y
        return None

    def bitand(self, st, a, b, t):
        if not b.const and a.const:
            a, b = b, a
        if a.const and b.const:
            return K(a.c & b.c)
        if not b.const:
            raise Unsupported('bitwise and of variables')
        m = b.c
        rng = self.P.int_range(t)
        if m < 0:
            m += rng[1] - rng[0] + 1
        # decompose the mask into runs of ones
        res = K(0)
        i = 0
        while m >> i:
            if not (m >> i) & 1:
                i += 1
                continue
            j = i
            while (m >> j) & 1:
                j += 1
            q = self.divmod2(st, a, i)[0]
            r = self.divmod2(st, q, j - i)[1]
            res = res + r.scale(1 << i)
            i = j
        return res

    def divmod2(self, st, a, n):
        return self.divmod_c(st, a, 1 << n)

    def divmod_c(self, st, a, d):
        """(a div d, a mod d) for a >= 0 and a constant d."""
        a = st.n(a)
        if d == 1:
            return a, K(0)
        if a.const:
            return K(a.c // d), K(a.c % d)
        if not st.facts.implies_ge(a):
            raise Unsupported('division of a possibly negative number')
        # split off the multiples of d
        qt = tuple((x, k // d) for x, k in a.t if k % d == 0)
        rt = tuple((x, k) for x, k in a.t if k % d)
        rc = a.c % d
        q, r = Lin(a.c // d, qt), Lin(rc, rt)
        if not rt:
            return q, r
        lo, hi = st.facts.interval(r)
        if lo is not None and hi is not None and 0 <= lo and hi < d:
            return q, r
        if st.facts.implies_ge(r) and st.facts.implies_ge(Lin(d - 1) - r):
            return q, r
        memo = st.ghost.get(('div', r, d))
        if memo is not None:
            return q + memo[0], memo[1]
        # fresh quotient and remainder of the part that is not a multiple
        rlo, rhi = (lo, hi)
        qa = new_atom('q', None if rlo is None else rlo // d, None if rhi is None else rhi // d)
        ra = new_atom('r', 0, d - 1)
        unit = [x for x, k in r.t if abs(k) == 1]
        def f(s):
            s.ghost[('div', r, d)] = (qa, ra)
            if unit and not s.facts.bad:
                x = unit[-1]
                k = r.coeff(x)
                rest = Lin(r.c, tuple(y for y in r.t if y[0] != x))
                s.facts = s.facts._add_sub(x, (qa.scale(d) + ra - rest).scale(k))
            else:
                s.eq(r - qa.scale(d) - ra)
        raise Split([('div', f)])

    def wrap(self, st, v, t):
        lo, hi = self.P.int_range(t)
        v = st.n(v)
        a, b = st.facts.interval(v)
        if a is not None and a >= lo and b is not None and b <= hi:
            return v
        if v.const:
            return K((v.c - lo) % (hi - lo + 1) + lo)
        up, dn = Pred('ge', Lin(hi) - v), Pred('ge', v - lo)
        iu, il = st.decide(up), st.decide(dn)
        if iu and il:
            return v
        m = hi - lo + 1
        # wrapped once
        w = v - m if not iu else v + m
        if st.facts.implies_ge(w - lo) and st.facts.implies_ge(Lin(hi) - w):
            return w
        if lo == 0 and il:
            return self.divmod_c(st, v, m)[1]
        raise Unsupported('wrapping arithmetic')

    def checked(self, st, op, a, b, t):
        base = op.replace('WithOverflow', '')
        if not isinstance(a, Lin) or not isinstance(b, Lin):
            raise Unsupported('checked %s of %r' % (op, a))
        if base in ('Shl', 'Shr'):
            bits = self.P.ty(t)['bits']
            v = self.bin(st, base, a, b, t)
            return Agg([v, Pred('ge', b - bits)])
        v = self.arith(st, base, st.n(a), st.n(b))
        lo, hi = self.P.int_range(t)
        if st.decide(Pred('ge', v - lo)) and st.decide(Pred('ge', Lin(hi) - v)):
            return Agg([v, False])
        return Agg([self.wrap(st, v, t), True])

    def compare(self, st, op, a, b):
        if isinstance(a, (bool, Pred)) and isinstance(b, (bool, Pred)):
            if isinstance(a, bool):
                a, b = b, a
            if isinstance(b, bool):
                if op in ('Eq', 'Ne'):
                    same = (op == 'Eq') == b
                    return a if same else (not a if isinstance(a, bool) else a.neg())
            x, y = st.decide(a), st.decide(b)
            return {'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op]
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptr_compare(st, op, a, b)
        if is_bits(b):
            a, b = b, a
            op = {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(op, op)
        if is_bits(a) and isinstance(b, Lin) and st.n(b).const and all(isinstance(v, Lin) for v in a.a):
            z = {('Eq', 0): True, ('Ne', 0): False, ('Gt', 0): False, ('Le', 0): True, ('Ge', 1): False, ('Lt', 1): True}.get((op, st.n(b).c))
            if z is not None:
                return all(st.decide(Pred('eq', a.a[i] - a.a[i + 1])) for i in range(0, len(a.a), 2)) == z
        if isinstance(a, Lin) and isinstance(b, Lin):
            d = st.n(a - b)
            p = {'Eq': Pred('eq', d), 'Ne': Pred('ne', d), 'Lt': Pred('ge', -d - 1), 'Le': Pred('ge', -d),
                 'Gt': Pred('ge', d - 1), 'Ge': Pred('ge', d)}[op]
            if d.const:
                return st.test(p)
            return p
        if isinstance(a, FnV) and isinstance(b, FnV):
            return (a == b) == (op == 'Eq')
        raise Unsupported('comparison of %r and %r' % (a, b))

    def ptr_compare(self, st, op, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj is not None and b.obj is not None:
                if a.obj != b.obj:
                    if op == 'Eq':
                        return False
                    if op == 'Ne':
                        return True
                    raise Unsupported('order of unrelated pointers')
                pa, pb = a.path, b.path
                if not pa and pb and pb[-1][0] == 'x':
                    pa = (('x', K(0)),)
                if not pb and pa and pa[-1][0] == 'x':
                    pb = (('x', K(0)),)
                if pa == pb:
                    return self.compare(st, op, K(0), K(0))
                if pa and pb and pa[:-1] == pb[:-1] and pa[-1][0] == 'x' and pb[-1][0] == 'x':
                    return self.compare(st, op, pa[-1][1], pb[-1][1])
                raise Unsupported('pointer comparison')
            if a.obj is None and b.obj is None:
                return self.compare(st, op, a.addr, b.addr)
            n = a if a.obj is None else b
            if n.addr == K(0):
                if op == 'Eq':
                    return False
                if op == 'Ne':
                    return True
            raise Unsupported('pointer comparison')
        p, o = (a, b) if isinstance(a, Ptr) else (b, a)
        if isinstance(o, Lin) and o == K(0) and p.obj is not None and op in ('Eq', 'Ne'):
            return op == 'Ne'
        raise Unsupported('pointer comparison with %r' % (o,))

    def ptr_offset(self, st, p, n, et):
        if isinstance(n, Ptr) or not isinstance(p, Ptr):
            raise Unsupported('offset')
        if self.P.zst(et):
            return p
        if p.obj is None:
            if st.n(n) == K(0):
                return p
            raise UBError('offset of a dangling pointer')
        obj, path = self.typed(st, p.obj, p.path, et) if isinstance(st.mem.get(p.obj), Raw) and self.P.size(et) > 1 else (p.obj, p.path)
        path = self.offset_path(st, obj, path, n, et)
        a = st.mem.get(obj)
        if isinstance(a, Arr) and a.count is not None and len(path) == 1:
            ix = path[0][1]
            if not (st.decide(Pred('ge', ix)) and st.decide(Pred('ge', a.count - ix))):
                raise UBError('pointer arithmetic beyond the bounds of %s' % a.name)
        return Ptr(obj, path, p.meta)

    def cast(self, st, fr, r):
        kind, o, t, extra, frm = r[1], r[2], r[3], r[4], r[5]
        v = self.operand(st, fr, o)
        P = self.P
        d = P.ty(t)
        if kind == 'IntToInt':
            if isinstance(v, (bool, Pred)):
                return K(1) if st.decide(self.as_bool(st, v)) else K(0)
            if isinstance(v, En):
                v = K(int(P.ty(frm)['variants'][v.v][1]))
            if is_bits(v):
                if P.int_range(t)[0] < 0:
                    raise Unsupported('cast of a bitwise combination')
                return Opq('bits', tuple(self.wrap(st, x, t) for x in v.a))
            return self.wrap(st, v, t)
        if kind in ('PtrToPtr', 'MutToConstPointer', 'FnPtrToPtr', 'ArrayToPointer'):
            if not isinstance(v, Ptr):
                raise Unsupported('pointer cast of %r' % (v,))
            td = P.ty(d['t'])
            meta = v.meta if td['k'] in ('slice', 'str', 'dyn') else None
            if td['k'] in ('struct', 'tuple') and v.meta is not None and P.size(d['t']) is None:
                meta = v.meta
            path = v.path
            if kind == 'ArrayToPointer' and v.obj is not None:
                path = path + (('x', K(0)),)
            elif v.obj is not None and frm is not None:
                fd = P.ty(P.ty(frm)['t'])
                if fd['k'] == 'array' and td['k'] != 'array' and P.size(d['t']) == P.size(fd['t']) and not isinstance(st.mem.get(v.obj), Raw):
                    path = path + (('x', K(0)),)
                elif td['k'] == 'array' and path and path[-1][0] == 'x' and fd['k'] != 'array':
                    raise Unsupported('cast to an array pointer')
            return Ptr(v.obj, path, meta, v.addr)
        if kind == 'Unsize':
            if not isinstance(v, Ptr):
                raise Unsupported('unsizing of %r' % (v,))
            td = P.ty(d['t']) if 't' in d else None
            if td is not None and td['k'] == 'slice':
                n = P.ty(P.ty(frm)['t'])['n']
                path = v.path + (('x', K(0)),) if v.obj is not None else v.path
                return Ptr(v.obj, path, K(n), v.addr)
            return Ptr(v.obj, v.path, 'dyn', v.addr)
        if kind in ('ReifyFnPointer', 'ClosureFnPointer'):
            return FnV(extra)
        if kind in ('Transmute', 'Subtype', 'BoxedOpaque'):
            return self.transmute(st, v, frm, t)
        if kind in ('PointerExposeAddress', 'PointerExposeProvenance'):
            return self.address(st, v)
        if kind in ('PointerWithExposedProvenance', 'PointerFromExposedAddress'):
            return Ptr(None, (), None, v)
        raise Unsupported('cast ' + kind)

    def address(self, st, v):
        if not isinstance(v, Ptr):
            return v
        if v.obj is None:
            return v.addr
        key = ('addr', v.obj)
        b = st.ghost.get(key)
        if b is None:
            a = st.mem.get(v.obj)
            al = (a.align or 1) if isinstance(a, (Arr, Raw)) else 16
            b = new_atom('addr', 4096, (1 << 43), exact=False).scale(al)
            st.ghost[key] = b
        if not v.path:
            return b
        if len(v.path) == 1 and v.path[0][0] == 'x':
            a = st.mem.get(v.obj)
            if isinstance(a, Arr):
                return b + v.path[0][1].scale(self.P.size(a.elem))
            if st.n(v.path[0][1]) == K(0):
                return b
        return new_atom('addr', 4096, (1 << 43), exact=False).scale(16)

    def transmute(self, st, v, frm, t):
        P = self.P
        if frm == t:
            return v
        fi, ti = P.inner(frm), P.inner(t)
        if fi == ti:
            return v
        fd, td = P.ty(fi), P.ty(ti)
        fk, tk = fd['k'], td['k']
        ints = ('uint', 'int', 'char')
        ptrs = ('ref', 'ptr', 'fnptr')
        if P.zst(ti):
            return self.zst_value(ti)
        if v is UN:
            return UN
        if fk in ptrs and tk in ptrs:
            return v
        if fk in ints and tk in ints:
            return self.wrap(st, v, ti)
        if fk in ints and tk in ptrs:
            return v if isinstance(v, Ptr) else Ptr(None, (), None, v)
        if fk in ptrs and tk in ints:
            return self.address(st, v)
        if fk == 'bool' and tk in ints:
            return K(1) if st.decide(self.as_bool(st, v)) else K(0)
        if tk == 'bool' and fk in ints:
            if st.decide(Pred('eq', v)):
                return False
            if st.decide(Pred('eq', v - 1)):
                return True
            raise UBError('transmute to an invalid bool')
        if tk == 'enum' and fk in ints + ptrs:
            return self.int_to_enum(st, v, ti)
        if fk == 'enum' and tk in ints + ptrs:
            v = self.enum_to_int(st, v, fi, ti)
            return Ptr(None, (), None, v) if tk in ptrs and isinstance(v, Lin) else v
        if isinstance(v, En) and fk == 'enum' and tk == 'enum':
            i = self.enum_to_int(st, v, fi, None)
            return self.int_to_enum(st, i, ti)
        if isinstance(v, Agg):
            a, b = self.shape(fi), self.shape(ti)
            if a is not None and a == b:
                return v
        raise Unsupported('transmute of %s to %s' % (P.tname(frm), P.tname(t)))

    def shape(self, t, off=0):
        P = self.P
        t = P.inner(t)
        d = P.ty(t)
        k = d['k']
        if k in ('uint', 'int', 'char', 'bool', 'ref', 'ptr'):
            return (k if k not in ('ref', 'ptr') else 'p', P.size(t), off)
        if k in ('struct', 'tuple', 'closure') and not P.is_opq(t):
            offs = d['lay']['offs']
            r = []
            for i, f in enumerate(P.fields(t)):
                s = self.shape(f, off + offs[i])
                if s is None:
                    return None
                r.append(s)
            return ('agg', tuple(r))
        if k == 'array':
            es = P.size(d['t'])
            return ('agg', tuple(self.shape(d['t'], off + i * es) for i in range(d['n'])))
        return (k, t, off)

    def int_to_enum(self, st, v, t):
        P = self.P
        d = P.ty(t)
        lv = d['lay']['vars']
        if not isinstance(lv, dict) or 'single' in lv:
            raise Unsupported('transmute to ' + d['name'])
        if isinstance(v, Ptr):
            if v.obj is not None:
                if lv['enc'] == 'direct':
                    raise Unsupported('transmute to ' + d['name'])
                return En(lv['enc'][0], [v])
            v = v.addr
        sz = P.size(t)
        ts = lv['tagsize']
        if ts != sz:
            raise Unsupported('transmute to ' + d['name'])
        if lv['enc'] == 'direct':
            for i, vv in enumerate(d['variants']):
                if st.decide(Pred('eq', v - (int(vv[1]) & ((1 << 8 * ts) - 1)))):
                    return En(i)
            raise UBError('transmute to an invalid enum value')
        unt, ns, ne, start = lv['enc'][0], lv['enc'][1], lv['enc'][2], int(lv['enc'][3])
        for i in range(ns, ne + 1):
            if st.decide(Pred('eq', v - ((start + i - ns) & ((1 << 8 * ts) - 1)))):
                return En(i, [self.zst_value(f) for f in P.fields(t, i)])
        fs = P.fields(t, unt)
        if len([f for f in fs if not P.zst(f)]) > 1:
            raise Unsupported('transmute to ' + d['name'])
        out = []
        for f in fs:
            if P.zst(f):
                out.append(self.zst_value(f))
            else:
                fi = P.inner(f)
                out.append(Ptr(None, (), None, v) if P.ty(fi)['k'] in ('ref', 'ptr') else
                           v if P.ty(fi)['k'] in ('uint', 'int', 'char') else self.int_to_enum(st, v, fi))
        return En(unt, out)

    def enum_to_int(self, st, v, t, ti):
        P = self.P
        d = P.ty(t)
        lv = d['lay']['vars']
        if not isinstance(v, En) or not isinstance(lv, dict) or 'single' in lv:
            raise Unsupported('transmute of ' + d['name'])
        ts = lv['tagsize']
        if lv['enc'] == 'direct':
            if P.size(t) != ts:
                raise Unsupported('transmute of ' + d['name'])
            return K(int(d['variants'][v.v][1]) & ((1 << 8 * ts) - 1))
        unt, ns, ne, start = lv['enc'][0], lv['enc'][1], lv['enc'][2], int(lv['enc'][3])
        if v.v != unt:
            n = K((start + v.v - ns) & ((1 << 8 * ts) - 1))
            if ti is not None and P.ty(ti)['k'] in ('ref', 'ptr'):
                return Ptr(None, (), None, n)
            return n
        vals = [x for x, f in zip(v.f, P.fields(t, v.v)) if not P.zst(f)]
        if len(vals) == 1 and isinstance(vals[0], (Lin, Ptr)):
            if isinstance(vals[0], Ptr) and ti is not None and P.ty(ti)['k'] == 'uint':
                return self.address(st, vals[0])
            return vals[0]
        raise Unsupported('transmute of ' + d['name'])

    # -- terminators --------------------------------------------------------------------
    def term(self, st, fr, t, base, stop):
        k = t[0]
        if k == 'goto':
            return self.goto(st, fr, t[1], base, stop)
        if k == 'sw':
            v = self.operand(st, fr, t[1])
            if isinstance(v, (bool, Pred)):
                c = K(1) if st.decide(v) else K(0)
                v = c
            if isinstance(v, Ptr):
                v = self.address(st, v)
            if not isinstance(v, Lin):
                raise Unsupported('switch on %r' % (v,))
            v = st.n(v)
            ty = self.op_ty(fr, t[1])
            rng = self.P.int_range(ty) if ty is not None else None
            for val, bb in t[2]:
                n = int(val)
                if rng and rng[0] < 0 and n > rng[1]:
                    n -= (rng[1] - rng[0] + 1)
                if st.decide(Pred('eq', v - n) if not v.const else (v.c == n)):
                    return self.goto(st, fr, bb, base, stop)
            return self.goto(st, fr, t[3], base, stop)
        if k == 'ret':
            return self.do_return(st, fr, base, stop)
        if k == 'call':
            return self.do_call(st, fr, t, base, stop)
        if k == 'drop':
            return self.do_drop(st, fr, t, base, stop)
        if k == 'assert':
            c = self.as_bool(st, self.operand(st, fr, t[1]))
            ok = st.decide(c)
            if ok == t[2]:
                return self.goto(st, fr, t[4], base, stop)
            return self.do_panic(st, fr, 'assertion: ' + t[3], t[5], base, stop)
        if k == 'resume':
            st.frames.pop()
            return self.unwind_from(st, fr.unwind, base, stop)
        if k == 'unreach':
            raise UBError('unreachable code reached')
        if k == 'abort':
            st.status, st.why = 'abort', 'abort'
            return None
        raise Unsupported('terminator ' + k)

    def do_return(self, st, fr, base, stop):
        rty = fr.fn['locals'][0]
        v = st.mem.get((fr.fid, 0), UN)
        if v is UN and self.P.zst(rty):
            v = self.zst_value(rty) if not self.P.is_opq(rty) else Opq('zst', (self.P.tname(rty),))
        self.pop_locals(st, fr)
        st.frames.pop()
        if len(st.frames) < base:
            st.status, st.ret = 'ret', v
            return None
        caller = st.frames[-1]
        if fr.dest is not None:
            obj, path, meta, ty = fr.dest
            self.write(st, obj, path, ty, v)
        if fr.target == AGAIN:
            k = ('cont', caller.fid, caller.bb)
            st.ghost[k] = (st.ghost[k][0], v)
            return None
        if fr.target is None:
            raise UBError('diverging function returned')
        return self.goto(st, caller, fr.target, base, stop)

    def pop_locals(self, st, fr):
        fid = fr.fid
        for i in range(len(fr.fn['locals'])):
            st.mem.pop((fid, i), None)

    def do_panic(self, st, fr, msg, unwind, base, stop):
        if st.panic is None:
            st.panic = (msg, st.where(self))
        else:
            st.panic = st.panic
        return self.unwind_from(st, unwind, base, stop)

    def unwind_from(self, st, unwind, base, stop):
        """Unwinding reaches the top frame, whose pending call has the given unwind action."""
        while True:
            if len(st.frames) < base:
                st.status = 'unwind'
                return None
            fr = st.frames[-1]
            if isinstance(unwind, int) and unwind >= 0:
                return self.goto(st, fr, unwind, base, stop)
            if unwind == -3:
                st.status, st.why = 'abort', 'panic in a cleanup or a function that must not unwind'
                return None
            if unwind == -2:
                raise UBError('unwinding out of a nounwind call')
            self.pop_locals(st, fr)
            st.frames.pop()
            if stop is not None:
                r = stop(st, None, None)
                if r:
                    st.status = 'unwind'
                    return None
            unwind = fr.unwind

    def do_drop(self, st, fr, t, base, stop):
        if t[4] is None:
            return self.goto(st, fr, t[2], base, stop)
        obj, path, meta, ty = self.place(st, fr, t[1])
        p = Ptr(obj, path if obj is not None else (), meta, None if obj is not None else K(1))
        return self.invoke(st, fr, t[4], [p], [None], None, t[2], t[3], None, base, stop)

    def do_call(self, st, fr, t, base, stop):
        fnid = t[1]
        args = [self.operand(st, fr, o) for o in t[2]]
        tys = [self.op_ty(fr, o) for o in t[2]]
        if isinstance(fnid, list):
            f = self.operand(st, fr, fnid[1])
            if not isinstance(f, FnV):
                raise Unsupported('indirect call of %r' % (f,))
            fnid = f.id
        if fnid is None:
            raise Unsupported('unresolved call')
        obj, path, meta, ty = self.place(st, fr, t[3])
        return self.invoke(st, fr, fnid, args, tys, (obj, path, meta, ty), t[4], t[5], t[6], base, stop)

    def invoke(self, st, fr, fnid, args, tys, dest, target, unwind, rty, base, stop):
        fn = self.P.fns[fnid]
        m = self.models.find(self, fn)
        if m is None:
            if fn.get('empty'):
                return self.goto(st, fr, target, base, stop)
            if fn['body'] is None:
                raise Unsupported('call of %s (no body)' % fn['name'])
            if fn['argc'] != len(args) and len(args) == 2:
                # rust-call ABI: the closure body takes its arguments untupled
                td = self.P.ty(tys[1])
                if td['k'] == 'tuple':
                    args = [args[0]] + self.untuple(args[1], tys[1])
            elif fn['argc'] == len(args) and len(args) == 2 and '{closure' in fn['name'].split('::')[-1] and fn['kind'] == 'item' \
                    and tys[1] is not None and self.P.ty(tys[1])['k'] == 'tuple' and len(self.P.ty(tys[1])['ts']) == 1 and fn['spread'] is None:
                args = [args[0]] + self.untuple(args[1], tys[1])
            st.frames[-1].last = fr.last
            self.enter(st, fnid, args, dest, target, unwind)
            # the first block may be a loop header only through a goto
            return None
        snap = st.copy()
        try:
            res = m(self, st, Call(fn, args, tys, rty, fr))
        except Split as sp:
            # models may have changed the state before splitting: retry from the snapshot
            return self.split(snap, sp)
        if isinstance(res, Outcomes):
            succ = []
            for label, f, out in res.alts:
                s = st.copy()
                if f is not None:
                    f(s)
                if s.facts.bad:
                    continue
                v = out(s) if callable(out) else out
                s.note = s.note + ((self.loc(s), label),) if label else s.note
                r = self.finish(s, s.frames[-1], v, dest, target, unwind, base, stop)
                succ.extend(r if r is not None else [s])
            return succ
        return self.finish(st, fr, res, dest, target, unwind, base, stop)

    def untuple(self, v, ty):
        ts = self.P.ty(ty)['ts']
        if not ts:
            return []
        if self.P.zst(ty):
            return [self.zst_value(t) if not self.P.is_opq(t) else Opq('zst', (self.P.tname(t),)) for t in ts]
        c = self.P.collapse(ty)
        if c is not None:
            return [v if i == c else (self.zst_value(t) if not self.P.is_opq(t) else Opq('zst', (self.P.tname(t),))) for i, t in enumerate(ts)]
        return list(v.f)

    def finish(self, st, fr, res, dest, target, unwind, base, stop):
        if isinstance(res, Panic):
            return self.do_panic(st, fr, res.msg, unwind, base, stop)
        if isinstance(res, Abort):
            st.status, st.why = 'abort', res.msg
            return None
        if isinstance(res, Enter):
            self.enter(st, res.fnid, res.args, dest, target, unwind)
            return None
        if isinstance(res, Then):
            st.ghost['cont', fr.fid, fr.bb] = (res.data, None)
            self.enter(st, res.fnid, res.args, None, AGAIN, unwind)
            return None
        if target is None:
            st.status, st.why = 'abort', 'diverges'
            return None
        if dest is not None:
            self.write(st, dest[0], dest[1], dest[3], res)
        return self.goto(st, fr, target, base, stop)


class Call:
    __slots__ = ('fn', 'args', 'tys', 'rty', 'fr')

    def __init__(self, fn, args, tys, rty, fr):
        self.fn, self.args, self.tys, self.rty, self.fr = fn, args, tys, rty, fr


class Panic:
    def __init__(self, msg):
        self.msg = msg


class Abort:
    def __init__(self, msg):
        self.msg = msg


class Enter:
    def __init__(self, fnid, args):
        self.fnid, self.args = fnid, args


AGAIN = -2


class Then:
    """Calls a function, then the same modelled call once more: resumed(st, c) gives (data, result)."""

    def __init__(self, fnid, args, data):
        self.fnid, self.args, self.data = fnid, args, data


def resumed(st, c):
    return st.ghost.pop(('cont', c.fr.fid, c.fr.bb), None)


class Outcomes:
    """Several outcomes of a modelled call: (label, f(state) or None, result or function of the state)."""

    def __init__(self, alts):
        self.alts = alts


def div_exact(l, d):
    if l.c % d or any(k % d for _, k in l.t):
        return None
    return Lin(l.c // d, tuple((a, k // d) for a, k in l.t))
