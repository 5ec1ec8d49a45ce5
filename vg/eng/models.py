"""Abstract transfer functions of functions whose bodies are not interpreted: allocator, panics, formatting, slices'
unchecked accesses (with their bounds obligations), Vec, intrinsics, component Drop/Clone and client closures."""
import re
from .lin import Lin, K, new_atom
from .values import *
from .interp import (Unsupported, UBError, Split, Panic, Abort, Enter, Outcomes, Call, div_exact, is_vec, MISSING, Then, resumed)

TABLE = {}


def model(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


class Models:
    """comp: names of opaque component types. unwinding: whether component Drop/Clone and client closures may unwind."""

    def __init__(self, comp=(), drop_panics=True, clone_panics=True, call_panics=True, alloc_fail=True):
        self.comp = set(comp)
        self.drop_panics, self.clone_panics, self.call_panics, self.alloc_fail = drop_panics, clone_panics, call_panics, alloc_fail
        self.cache = {}
        self.extra = {}

    def find(self, I, fn):
        k = fn['id']
        if k in self.cache:
            return self.cache[k]
        m = self._find(I, fn)
        self.cache[k] = m
        return m

    def _find(self, I, fn):
        n, d = fn['name'], fn['def']
        for pre, m in self.extra.items():
            if n.split('::')[-1].startswith(pre):
                return m
        if fn['kind'] == 'intrinsic':
            m = INTR.get(fn['intrinsic'] or n.split('::')[2])
            if m is None:
                raise Unsupported('intrinsic ' + n)
            return m
        last = n.split('::')[-1]
        if last.startswith(('opq_', 'opn_', 'opd_', 'opb_')):
            return opaque_call
        if n.startswith('std::ptr::drop_glue::<'):
            t = fn['args'][0]
            if I.P.is_opq(t):
                return drop_opq
            if is_vec(I.P.ty(t)):
                return drop_vec
            if I.P.ty(t)['k'] == 'struct' and I.P.ty(t)['adt'].split('::')[-1] == 'Drain' and 'vec' in I.P.ty(t)['adt']:
                return lambda I, st, c: UNIT
            return None
        if n.endswith(' as std::clone::Clone>::clone') and n[1:].split(' as ')[0].split('::')[-1] in self.comp:
            return clone_opq
        if d in TABLE:
            return TABLE[d]
        if 'precondition_check' in n:
            return lambda I, st, c: UNIT
        if fn['body'] is None or n.startswith('core::panicking::assert_failed'):
            if any(x in n for x in ('panic', 'unwrap_failed', 'expect_failed', 'assert_failed', 'slice_index_fail', 'fail')):
                if 'nounwind' in n:
                    return lambda I, st, c: Abort(n)
                return lambda I, st, c: Panic(n)
        if n.startswith('std::fmt::') or n.startswith('core::fmt::') or '::fmt::' in n:
            return fmt_opaque
        if d.startswith(('std::vec::Vec::', 'alloc::vec::Vec::')) or d.startswith(('<std::vec::Vec<', '<alloc::vec::Vec<')):
            h = VEC.get(d.split('>::')[-1] if d.startswith('<') else d.split('::')[-1])
            if h is not None:
                return h
            raise Unsupported('Vec method ' + n)
        if '{impl#' in d and 'vec' in d:
            return None
        return None


# -- helpers --------------------------------------------------------------------

def fresh(I, st, ty, tag, exact=True):
    """A value of type ty over all its possible values (enum variants are split by the caller via Outcomes)."""
    P = I.P
    if P.is_opq(ty):
        return Opq(tag, ())
    if P.zst(ty):
        return I.zst_value(ty)
    t = P.inner(ty)
    d = P.ty(t)
    k = d['k']
    if k in ('uint', 'int', 'char'):
        lo, hi = P.int_range(t)
        if nonzero_wrapped(P, ty):
            lo = max(lo, 1)
        return new_atom(tag, lo, hi, exact)
    if k == 'bool':
        return Pred('ne', new_atom(tag, 0, 1, exact))
    if k in ('struct', 'tuple'):
        if P.is_opq(t):
            return Opq(tag, ())
        return Agg([fresh(I, st, f, '%s.%d' % (tag, i), exact) for i, f in enumerate(P.fields(t))])
    if k == 'enum':
        vs = d['variants']
        if len(vs) == 1:
            return En(0, [fresh(I, st, f, tag, exact) for f in P.fields(t, 0)])
    raise Unsupported('fresh value of type ' + d['name'])


def nonzero_wrapped(P, t):
    while True:
        d = P.ty(t)
        if d['k'] == 'pat':
            return True
        c = P.collapse(t)
        if c is None:
            return False
        t = P.fields(t)[c]


def deref(I, st, p, ty):
    if not isinstance(p, Ptr):
        raise Unsupported('pointer expected')
    if p.obj is None:
        if I.P.zst(ty):
            return None, ()
        raise UBError('dereference of a dangling pointer')
    return I.typed(st, p.obj, p.path, ty)


def pointee(I, ty):
    return I.P.ty(I.P.inner(ty))['t']


# -- components -------------------------------------------------------------------

def drop_opq(I, st, c):
    ty = c.fn['args'][0]
    p = c.args[0]
    obj, path = deref(I, st, p, ty)
    if I.P.zst(ty):
        if obj is not None and isinstance(st.mem.get(obj), Freed):
            raise UBError('drop of a value in freed memory')
        st.event('zdrop', I.P.tname(ty).split('::')[-1])
    else:
        v = I.load(st, obj, path)
        if v is UN:
            raise UBError('drop of uninitialised memory')
        if isinstance(v, Dropped):
            raise UBError('value dropped twice')
        if isinstance(v, Freed):
            raise UBError('drop of a value in freed memory')
        st.event('drop', v)
        I.store(st, obj, path, Dropped(v))
    if I.models.drop_panics and not st.ghost.get('nopanic') and I.P.ty(ty)['drop']:
        return Outcomes([(None, None, UNIT), ('Drop of %s panics' % I.P.tname(ty).split('::')[-1], None, Panic('component drop'))])
    return UNIT


def clone_opq(I, st, c):
    ty = pointee(I, c.tys[0])
    p = c.args[0]
    obj, path = deref(I, st, p, ty)
    v = I.read(st, obj, path, ty)
    if I.hooks is not None and I.hooks.cloning is not None:
        I.hooks.cloning(I, st, obj)
    st.event('clone', v)
    r = Opq('clone', (v,))
    if I.models.clone_panics and not st.ghost.get('nopanic'):
        return Outcomes([(None, None, r), ('Clone panics', None, Panic('component clone'))])
    return r


def opaque_call(I, st, c):
    """A client closure or a primitive operation of a component: unknown effects on what it can reach mutably."""
    name = c.fn['name'].split('::')[-1]
    seq = st.ghost.get('seq', 0)
    st.ghost['seq'] = seq + 1
    args, muts = [], []
    for a, t in zip(c.args, c.tys):
        d = I.P.ty(t) if t is not None else None
        # a reference to a local variable is described by what it shows (its snapshot); the address is incidental
        local = isinstance(a, Ptr) and isinstance(a.obj, tuple) and d is not None and d['k'] == 'ref' and not I.P.is_opq(d['t'])
        args.append(UNIT if local else a)
        if d is not None and d['k'] == 'ref' and d.get('mut') and isinstance(a, Ptr):
            muts.append((a, d['t']))
    wrote = []
    for k, (a, t) in enumerate(muts):
        if I.P.ty(t)['k'] == 'slice':
            raise Unsupported('opaque write to a slice')
        if I.P.zst(t):
            wrote.append(None)
            continue
        if not I.P.is_opq(t):
            raise Unsupported('opaque write to ' + I.P.tname(t))
        wrote.append(Opq('wr', (name, K(seq), K(k)) + tuple(st.loopctx)))
    if I.hooks is not None and I.hooks.watch is not None:
        I.hooks.watch(I, st)
    st.event('call', name, tuple(args), tuple(snapshot(I, st, a, t) for a, t in zip(c.args, c.tys)), tuple(wrote))
    for (a, t), v in zip(muts, wrote):
        if v is not None:
            I.store(st, a.obj, a.path, v)
    ret = ret_outcomes(I, st, c, '%s#%d' % (name, seq))
    if I.models.call_panics and not name.startswith('opn_') and not st.ghost.get('nopanic'):
        ret.append(('%s panics' % name, None, Panic('client closure')))
    return Outcomes(ret)


def snapshot(I, st, a, t):
    """What a reference argument points to at the time of the call."""
    if t is None or not isinstance(a, Ptr):
        return a
    d = I.P.ty(t)
    if d['k'] != 'ref':
        return a
    if I.P.zst(d['t']):
        return Opq('zst', (I.P.tname(d['t']),))
    if I.P.ty(d['t'])['k'] in ('slice', 'str', 'dyn'):
        return a
    if a.obj is None:
        raise UBError('dangling reference passed to a client closure')
    obj, path = I.typed(st, a.obj, a.path, d['t'])
    return I.read(st, obj, path, d['t'])


def ret_outcomes(I, st, c, tag):
    t = c.rty
    if t is None or I.P.zst(t) and not I.P.is_opq(t):
        return [(None, None, UNIT if t is None else I.zst_value(t))]
    ti = I.P.inner(t)
    d = I.P.ty(ti)
    if d['k'] == 'enum':
        out = []
        for i, v in enumerate(d['variants']):
            r = En(i, [fresh(I, st, f, tag) for f in I.P.fields(ti, i)])
            out.append(('returns ' + v[0], None, lambda s, r=r, n=v[0]: (s.event('cret', n), r)[1]))
        return out
    if d['k'] == 'bool':
        return [('returns ' + n, None, lambda s, n=n: (s.event('cret', n), n == 'true')[1]) for n in ('false', 'true')]
    return [(None, None, fresh(I, st, t, tag))]


def fmt_opaque(I, st, c):
    t = c.rty
    if t is None:
        return UNIT
    if I.P.zst(t):
        return I.zst_value(t)
    d = I.P.ty(I.P.inner(t))
    if d['k'] == 'enum' and len(d['variants']) == 2:
        return En(0, [UNIT] * len(I.P.fields(I.P.inner(t), 0)))
    return Opq('fmt', ())


# -- allocator --------------------------------------------------------------------

def layout_parts(I, v, t):
    """(size, alignment) of a Layout value; the alignment is an enum (Alignment) or a power of two."""
    if not isinstance(v, Agg) or len(v.f) != 2:
        raise Unsupported('layout %r' % (v,))
    names = I.P.fnames(I.P.inner(t))
    si = names.index('size') if 'size' in names else 0
    al = v.f[1 - si]
    if isinstance(al, En):
        al = 1 << al.v
    elif isinstance(al, Lin) and al.const:
        al = al.c
    else:
        raise Unsupported('alignment %r' % (al,))
    return v.f[si], al


@model('std::alloc::alloc', 'std::alloc::alloc_zeroed')
def m_alloc(I, st, c):
    size, al = layout_parts(I, c.args[0], c.tys[0])
    size = st.n(size)
    if st.decide(Pred('eq', size)):
        raise UBError('allocation of size 0')
    oid = I.new_oid('heap')
    def ok(s):
        s.mem[oid] = Raw(oid, size, al)
        s.ghost['heap'] = s.ghost.get('heap', ()) + (oid,)
    alts = [(None, ok, Ptr(oid, ()))]
    if I.models.alloc_fail:
        alts.append(('allocation fails', None, Ptr(None, (), None, K(0))))
    return Outcomes(alts)


def heap_size(I, st, p, what):
    if p.obj is None:
        raise UBError('%s of a pointer that was not allocated' % what)
    a = st.mem.get(p.obj, MISSING)
    if isinstance(a, Freed):
        raise UBError('%s of freed memory' % what)
    if isinstance(a, Raw):
        return a, a.size
    if isinstance(a, Arr) and a.heap is not None:
        if p.path and not st.decide(Pred('eq', p.path[-1][1])):
            raise UBError('%s of the middle of a block' % what)
        return a, a.heap
    raise Unsupported('%s of %r' % (what, a))


@model('std::alloc::realloc')
def m_realloc(I, st, c):
    p, lay, new = c.args
    size, al = layout_parts(I, lay, c.tys[1])
    size = st.n(size)
    a, old = heap_size(I, st, p, 'reallocation')
    if a.align is not None and a.align != al:
        raise UBError('reallocation with another alignment (%d, allocated with %d)' % (al, a.align))
    if not st.decide(Pred('eq', old - size)):
        raise UBError('reallocation with a layout of another size (%r, allocated %r)' % (size, st.n(old)))
    if st.decide(Pred('eq', new)):
        raise UBError('reallocation to size 0')
    oid = I.new_oid('heap')
    if isinstance(a, Raw):
        nv = Raw(oid, new, al)
    else:
        es = I.P.size(a.elem)
        cnt = div_exact(st.n(new), es)
        if cnt is None:
            raise Unsupported('reallocation to a partial element')
        if st.decide(Pred('ge', cnt - a.count)):
            keep = a.count
        else:
            keep = cnt
        nv = Arr(oid, a.elem, cnt, ('keep', a, keep), (), new, al)
    def ok(s):
        s.mem[oid] = nv
        s.mem[p.obj] = Freed('reallocated')
        s.ghost['heap'] = s.ghost.get('heap', ()) + (oid,)
    alts = [(None, ok, Ptr(oid, ()))]
    if I.models.alloc_fail:
        alts.append(('allocation fails', None, Ptr(None, (), None, K(0))))
    return Outcomes(alts)


@model('std::alloc::dealloc')
def m_dealloc(I, st, c):
    p, lay = c.args
    size, al = layout_parts(I, lay, c.tys[1])
    size = st.n(size)
    a, old = heap_size(I, st, p, 'deallocation')
    if a.align is not None and a.align != al:
        raise UBError('deallocation with another alignment (%d, allocated with %d)' % (al, a.align))
    if not st.decide(Pred('eq', old - size)):
        raise UBError('deallocation with a layout of another size (%r, allocated %r)' % (size, st.n(old)))
    st.mem[p.obj] = Freed('deallocated')
    return UNIT


@model('std::alloc::handle_alloc_error')
def m_oom(I, st, c):
    return Abort('out of memory')


# -- slices ------------------------------------------------------------------------

def slice_bounds(I, st, p, et, i, inclusive=False):
    if not isinstance(p, Ptr) or not isinstance(p.meta, Lin):
        raise Unsupported('slice pointer %r' % (p,))
    i = st.n(i)
    ok = st.decide(Pred('ge', i)) and st.decide(Pred('ge', p.meta - i - (0 if inclusive else 1)))
    return ok


def elem(I, st, p, et, i):
    if I.P.zst(et):
        return Ptr(p.obj, p.path, None, p.addr)
    if p.obj is None:
        raise UBError('element of a dangling slice')
    obj, path = I.typed(st, p.obj, p.path, et)
    return Ptr(obj, I.offset_path(st, obj, path, i, et))


@model('core::slice::<impl [T]>::get_unchecked', 'core::slice::<impl [T]>::get_unchecked_mut')
def m_get_unchecked(I, st, c):
    p, i = c.args
    if not isinstance(i, Lin):
        return Enter(c.fn['id'], c.args)
    et = I.P.ty(pointee(I, c.tys[0]))['t']
    if not slice_bounds(I, st, p, et, i):
        raise UBError('get_unchecked out of bounds: index %r, length %r' % (st.n(i), st.n(p.meta)))
    return elem(I, st, p, et, i)


@model('std::slice::from_raw_parts', 'std::slice::from_raw_parts_mut', 'core::slice::from_raw_parts', 'core::slice::from_raw_parts_mut')
def m_from_raw_parts(I, st, c):
    p, n = c.args
    et = pointee(I, c.tys[0])
    if I.P.zst(et):
        return Ptr(p.obj, p.path, n, p.addr)
    if p.obj is None:
        if st.decide(Pred('eq', n)):
            return Ptr(None, (), n, p.addr)
        raise UBError('slice of length %r from a dangling pointer' % (st.n(n),))
    obj, path = I.typed(st, p.obj, p.path, et)
    a = st.mem.get(obj)
    if isinstance(a, Freed):
        raise UBError('slice of freed memory')
    if isinstance(a, Arr) and len(path) == 1 and a.count is not None:
        if not st.decide(Pred('ge', a.count - path[0][1] - n)):
            raise UBError('slice of length %r from a block of %r elements' % (st.n(n), st.n(a.count)))
    elif not isinstance(a, Arr):
        if not st.decide(Pred('ge', K(1) - n)):
            raise Unsupported('slice of a single object')
    return Ptr(obj, path, n, None)


# -- intrinsics ---------------------------------------------------------------------
INTR = {}


def intr(*names):
    def deco(f):
        for n in names:
            INTR[n] = f
        return f
    return deco


@intr('assert_inhabited', 'assert_zero_valid', 'assert_mem_uninitialized_valid', 'cold_path', 'const_eval_select_')
def i_nop(I, st, c):
    return UNIT


@intr('black_box', 'likely', 'unlikely')
def i_id(I, st, c):
    return c.args[0]


@intr('abort')
def i_abort(I, st, c):
    return Abort('abort')


@intr('unreachable')
def i_unreachable(I, st, c):
    raise UBError('unreachable_unchecked reached')


@intr('saturating_add', 'saturating_sub')
def i_sat(I, st, c):
    t = c.tys[0]
    lo, hi = I.P.int_range(t)
    a, b = c.args
    v = a + b if 'add' in c.fn['name'].split('::')[2] else a - b
    if not st.decide(Pred('ge', Lin(hi) - v)):
        return K(hi)
    if not st.decide(Pred('ge', v - lo)):
        return K(lo)
    return st.n(v)


@intr('wrapping_add', 'wrapping_sub', 'wrapping_mul', 'unchecked_add', 'unchecked_sub', 'unchecked_mul', 'exact_div',
      'add_with_overflow', 'sub_with_overflow', 'mul_with_overflow', 'unchecked_shl', 'unchecked_shr', 'unchecked_div', 'unchecked_rem')
def i_arith(I, st, c):
    n = c.fn['intrinsic'] or c.fn['name'].split('::')[2]
    t = c.tys[0]
    a, b = c.args
    if n.endswith('with_overflow'):
        return I.checked(st, {'a': 'Add', 's': 'Sub', 'm': 'Mul'}[n[0]] + 'WithOverflow', a, b, t)
    if n == 'exact_div':
        return I.bin(st, 'Div', a, b, t)
    op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'shl': 'Shl', 'shr': 'Shr', 'div': 'Div', 'rem': 'Rem'}[n.split('_')[1]]
    if n.startswith('unchecked') and op in ('Add', 'Sub', 'Mul'):
        op += 'Unchecked'
    return I.bin(st, op, a, b, t)


@intr('integer_min', 'integer_max')
def i_minmax(I, st, c):
    a, b = c.args
    n = c.fn['intrinsic'] or c.fn['name'].split('::')[2]
    le = st.decide(Pred('ge', b - a))
    return a if le == n.endswith('min') else b


@intr('ctpop')
def i_ctpop(I, st, c):
    v = st.n(c.args[0])
    if isinstance(v, Lin) and v.const:
        return K(bin(v.c).count('1'))
    raise Unsupported('ctpop')


@intr('copy', 'copy_nonoverlapping')
def i_copy(I, st, c):
    src, dst, n = c.args
    t = I.P.ty(c.tys[0])['t']
    I.copy_cells(st, src, dst, n, t)
    return UNIT


@intr('write_bytes')
def i_write_bytes(I, st, c):
    raise Unsupported('write_bytes')


@intr('ptr_offset_from_unsigned', 'ptr_offset_from')
def i_off(I, st, c):
    a, b = c.args
    if a.obj is None and b.obj is None:
        if a.addr == b.addr:
            return K(0)
        raise Unsupported('distance of dangling pointers')
    if a.obj != b.obj:
        raise UBError('distance of pointers into different objects')
    pa = a.path if a.path and a.path[-1][0] == 'x' else a.path + (('x', K(0)),)
    pb = b.path if b.path and b.path[-1][0] == 'x' else b.path + (('x', K(0)),)
    return st.n(pa[-1][1] - pb[-1][1])


@intr('size_of_val', 'min_align_of_val', 'align_of_val')
def i_sov(I, st, c):
    p = c.args[0]
    t = pointee(I, c.tys[0])
    d = I.P.ty(t)
    n = c.fn['intrinsic'] or c.fn['name'].split('::')[2]
    if 'align' in n:
        if d['k'] == 'slice':
            return K(I.P.ty(d['t'])['lay']['align'])
        return K(d['lay']['align'])
    if d['k'] == 'slice':
        return p.meta.scale(I.P.size(d['t']))
    return K(I.P.size(t))


@intr('discriminant_value')
def i_disc(I, st, c):
    t = pointee(I, c.tys[0])
    v = I.read(st, *deref(I, st, c.args[0], t), t)
    if not isinstance(v, En):
        raise Unsupported('discriminant')
    return K(int(I.P.ty(t)['variants'][v.v][1]))


@intr('raw_eq')
def i_raw_eq(I, st, c):
    raise Unsupported('raw_eq')


@intr('rotate_left', 'rotate_right', 'bswap', 'ctlz', 'cttz', 'bitreverse')
def i_bits(I, st, c):
    raise Unsupported('bit intrinsic')


@intr('needs_drop')
def i_nd(I, st, c):
    return I.P.ty(c.fn['args'][0])['drop']


# -- Vec ------------------------------------------------------------------------------

def vec_at(I, st, p):
    v = I.load(st, p.obj, p.path)
    if not isinstance(v, VecV):
        raise Unsupported('Vec value %r' % (v,))
    return v


def vec_new(I, st, c):
    et = c.fn['args'][0]
    oid = I.new_oid('vec')
    st.mem[oid] = Arr(oid, et, None, ('uninit',))
    return VecV(oid, K(0))


def vec_push(I, st, c):
    p, x = c.args
    v = vec_at(I, st, p)
    if not I.P.zst(st.mem[v.obj].elem):
        I.store(st, v.obj, (('x', v.len),), x)
    I.store(st, p.obj, p.path, VecV(v.obj, st.n(v.len + 1)))
    return UNIT


def vec_len(I, st, c):
    return vec_at(I, st, c.args[0]).len


def vec_is_empty(I, st, c):
    return Pred('eq', vec_at(I, st, c.args[0]).len)


def vec_clear(I, st, c):
    p = c.args[0]
    v = vec_at(I, st, p)
    if I.P.ty(st.mem[v.obj].elem)['drop']:
        raise Unsupported('clear of a Vec with destructors')
    I.store(st, p.obj, p.path, VecV(v.obj, K(0)))
    return UNIT


def vec_truncate(I, st, c):
    p, n = c.args
    v = vec_at(I, st, p)
    if I.P.ty(st.mem[v.obj].elem)['drop']:
        raise Unsupported('truncate of a Vec with destructors')
    if not st.decide(Pred('ge', n - v.len)):
        I.store(st, p.obj, p.path, VecV(v.obj, st.n(n)))
    return UNIT


def vec_pop(I, st, c):
    p = c.args[0]
    v = vec_at(I, st, p)
    if st.decide(Pred('eq', v.len)):
        return En(0)
    x = I.read(st, v.obj, (('x', v.len - 1),), st.mem[v.obj].elem)
    I.store(st, p.obj, p.path, VecV(v.obj, st.n(v.len - 1)))
    return En(1, [x])


def vec_clone(I, st, c):
    v = vec_at(I, st, c.args[0])
    a = st.mem[v.obj]
    if I.P.ty(a.elem)['drop']:
        raise Unsupported('clone of a Vec with destructors')
    oid = I.new_oid('vec')
    st.mem[oid] = Arr(oid, a.elem, None, ('keep', a, v.len))
    return VecV(oid, v.len)


def vec_deref(I, st, c):
    v = vec_at(I, st, c.args[0])
    return Ptr(v.obj, (('x', K(0)),), v.len)


def vec_index(I, st, c):
    v = vec_at(I, st, c.args[0])
    x = c.args[1]
    n = c.fn['name']
    a, b = K(0), v.len
    if 'Index<usize>' in n or 'IndexMut<usize>' in n:
        if not (st.decide(Pred('ge', x)) and st.decide(Pred('ge', v.len - x - 1))):
            return Panic('slice index')
        if I.P.zst(st.mem[v.obj].elem):
            raise Unsupported('index into a Vec of zero-sized values')
        return Ptr(v.obj, (('x', x),))
    if 'RangeTo<usize>' in n:
        b = x
    elif 'RangeFrom<usize>' in n:
        a = x
    elif 'Range<usize>' in n:
        a, b = x.f
    elif 'RangeFull' not in n:
        raise Unsupported('Vec index ' + n)
    if not (st.decide(Pred('ge', b - a)) and st.decide(Pred('ge', v.len - b))):
        return Panic('slice index')
    return Ptr(v.obj, (('x', a),), b - a)


def vec_reserve(I, st, c):
    return UNIT


def vec_capacity(I, st, c):
    v = vec_at(I, st, c.args[0])
    if I.P.zst(st.mem[v.obj].elem):
        return K((1 << 64) - 1)
    n = new_atom('capacity', 0, (1 << 63) - 1, False)
    st.ge(n - v.len)
    return n


def plain(I, st, v, what):
    """The elements of a Vec whose cells are moved around: no destructors, not zero-sized."""
    a = st.mem[v.obj]
    if isinstance(a, Freed):
        raise UBError('%s of a freed Vec' % what)
    if I.P.ty(a.elem)['drop']:
        raise Unsupported('%s of a Vec with destructors' % what)
    if I.P.zst(a.elem):
        raise Unsupported('%s of a Vec of zero-sized values' % what)
    return a


def set_vec(I, st, p, obj, arr, n):
    st.mem[obj] = arr
    I.store(st, p.obj, p.path, VecV(obj, st.n(n)))


def cat(a, n, b, off):
    return Arr(a.name, a.elem, None, ('cat', a, n, b, off))


def vec_remove(I, st, c):
    p, i = c.args
    v = vec_at(I, st, p)
    a = plain(I, st, v, 'remove')
    if not (st.decide(Pred('ge', i)) and st.decide(Pred('ge', v.len - i - 1))):
        return Panic('removal index')
    x = I.arr_cell(st, a, st.n(i))
    set_vec(I, st, p, v.obj, cat(a, st.n(i), a, st.n(i + 1)), v.len - 1)
    return x


def vec_swap_remove(I, st, c):
    p, i = c.args
    v = vec_at(I, st, p)
    a = plain(I, st, v, 'swap_remove')
    if not (st.decide(Pred('ge', i)) and st.decide(Pred('ge', v.len - i - 1))):
        return Panic('swap_remove index')
    x, y = I.arr_cell(st, a, st.n(i)), I.arr_cell(st, a, st.n(v.len - 1))
    set_vec(I, st, p, v.obj, a.with_log(a.log + (('w', st.n(i), y),)), v.len - 1)
    return x


def vec_insert(I, st, c):
    p, i, x = c.args
    v = vec_at(I, st, p)
    a = plain(I, st, v, 'insert')
    if not (st.decide(Pred('ge', i)) and st.decide(Pred('ge', v.len - i))):
        return Panic('insertion index')
    i = st.n(i)
    set_vec(I, st, p, v.obj, cat(a, i, a, i - 1).with_log((('w', i, x),)), v.len + 1)
    return UNIT


def range_of(I, v, n, name):
    if 'RangeFull' in name:
        return K(0), n
    if 'RangeFrom<' in name:
        return v, n
    if 'RangeTo<' in name:
        return K(0), v
    if 'Range<' in name and isinstance(v, Agg) and len(v.f) == 2:
        return v.f
    raise Unsupported('range ' + name)


def vec_drain(I, st, c):
    p = c.args[0]
    v = vec_at(I, st, p)
    a = plain(I, st, v, 'drain')
    lo, hi = range_of(I, c.args[1], v.len, I.P.tname(c.tys[1]))
    if not (st.decide(Pred('ge', lo)) and st.decide(Pred('ge', hi - lo)) and st.decide(Pred('ge', v.len - hi))):
        return Panic('drain range')
    n = st.n(v.len - hi + lo)
    if st.n(n) == K(0):
        I.store(st, p.obj, p.path, VecV(v.obj, K(0)))
    else:
        set_vec(I, st, p, v.obj, cat(a, st.n(lo), a, st.n(hi)), n)
    return Opq('drain', (v.obj, st.n(lo), st.n(hi)))


def slice_cells(I, st, p):
    """(array, offset, length) a slice pointer shows; a short array behind it as a one-purpose array object."""
    v = I.load(st, p.obj, p.path[:-1] if p.path and p.path[-1][0] == 'x' else p.path)
    off = p.path[-1][1] if p.path and p.path[-1][0] == 'x' else K(0)
    return v, off, p.meta


def append(I, st, p, v, b, off, n):
    """Appends n cells of b, from off on."""
    a = plain(I, st, v, 'extend')
    n = st.n(n)
    if isinstance(b, Agg) and n.const and n.c <= 16:
        for k in range(n.c):
            o = st.n(off + k)
            if not o.const:
                raise Unsupported('extend from a symbolic position')
            a = a.with_log(a.log + (('w', st.n(v.len + k), b.f[o.c]),))
        set_vec(I, st, p, v.obj, a, v.len + n)
        return UNIT
    if not isinstance(b, Arr):
        if n == K(1):
            set_vec(I, st, p, v.obj, a.with_log(a.log + (('w', st.n(v.len), b),)), v.len + 1)
            return UNIT
        raise Unsupported('extend from %r' % (b,))
    set_vec(I, st, p, v.obj, cat(a, v.len, b, off), v.len + n)
    return UNIT


def vec_extend_slice(I, st, c):
    p, s = c.args
    if st.n(s.meta) == K(0):
        return UNIT
    return append(I, st, p, vec_at(I, st, p), *slice_cells(I, st, s))


def vec_append(I, st, c):
    p, q = c.args
    w = vec_at(I, st, q)
    r = append(I, st, p, vec_at(I, st, p), st.mem[w.obj], K(0), w.len)
    I.store(st, q.obj, q.path, VecV(w.obj, K(0)))
    return r


def iter_cells(I, st, x, t):
    """(array, offset, length) behind an iterator or collection by value; references are read through."""
    d = I.P.ty(t)
    name = I.P.tname(t)
    if d['k'] == 'enum' and d.get('adt', '').split('::')[-1] == 'Option':
        if x.v == 0:
            return UNIT, K(0), K(0)
        y, et = x.f[0], I.P.fields(t, 1)[0]
        if I.P.ty(et)['k'] == 'ref':
            y = I.read(st, *deref(I, st, y, I.P.ty(et)['t']), I.P.ty(et)['t'])
        return Agg([y]), K(0), K(1)
    if d['k'] == 'array':
        return (x if isinstance(x, Agg) and len(x.f) == d['n'] else Agg([x])), K(0), K(d['n'])
    if is_vec(d):
        return st.mem[x.obj], K(0), x.len
    while d['k'] == 'struct' and d['adt'].split('::')[-1] in ('Copied', 'Cloned'):
        t = I.P.fields(t)[0]
        d = I.P.ty(t)
    if d['k'] == 'struct' and d['adt'].split('::')[-1] == 'Iter' and 'slice' in d['adt']:
        ns = I.P.fnames(t)
        a, b = x.f[ns.index('ptr')], x.f[ns.index('end_or_len')]
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is not None and a.obj == b.obj and b.path and b.path[-1][0] == 'x':
            v, off, _ = slice_cells(I, st, a)
            return v, off, st.n(b.path[-1][1] - off)
    if d['k'] == 'ref' and I.P.ty(d['t'])['k'] == 'slice':
        return slice_cells(I, st, x)
    if d['k'] == 'ref' and is_vec(I.P.ty(d['t'])):
        v = vec_at(I, st, x)
        return st.mem[v.obj], K(0), v.len
    raise Unsupported('iterator ' + name)


def vec_extend(I, st, c):
    p = c.args[0]
    b, off, n = iter_cells(I, st, c.args[1], c.tys[1])
    if st.n(n) == K(0):
        return UNIT
    return append(I, st, p, vec_at(I, st, p), b, off, n)


def vec_from(I, st, et, b, off, n):
    oid = I.new_oid('vec')
    if I.P.zst(et):
        raise Unsupported('collection of zero-sized values')
    if I.P.ty(et)['drop']:
        raise Unsupported('collection of values with destructors')
    n = st.n(n)
    if isinstance(b, Agg):
        if not n.const or not off.const:
            raise Unsupported('collection from a symbolic part of an array')
        st.mem[oid] = Arr(oid, et, None, ('uninit',), tuple(('w', K(k), b.f[off.c + k]) for k in range(n.c)))
    elif st.n(off) == K(0):
        st.mem[oid] = Arr(oid, et, None, ('keep', b, n))
    else:
        st.mem[oid] = Arr(oid, et, None, ('cat', b, K(0), b, off))
    return VecV(oid, n)


def vec_elem(I, c):
    return c.fn['args'][0]


def vec_from_iter(I, st, c):
    return vec_from(I, st, vec_elem(I, c), *iter_cells(I, st, c.args[0], c.tys[0]))


@model('std::slice::<impl [T]>::to_vec', 'alloc::slice::<impl [T]>::to_vec')
def slice_to_vec(I, st, c):
    p = c.args[0]
    et = I.P.ty(pointee(I, c.tys[0]))['t']
    if st.n(p.meta) == K(0):
        return vec_new_of(I, st, et)
    return vec_from(I, st, et, *slice_cells(I, st, p))


def vec_new_of(I, st, et):
    oid = I.new_oid('vec')
    st.mem[oid] = Arr(oid, et, None, ('uninit',))
    return VecV(oid, K(0))


def vec_split_off(I, st, c):
    p, at = c.args
    v = vec_at(I, st, p)
    a = plain(I, st, v, 'split_off')
    if not st.decide(Pred('ge', v.len - at)):
        return Panic('split_off index')
    oid = I.new_oid('vec')
    st.mem[oid] = Arr(oid, a.elem, None, ('cat', a, K(0), a, st.n(at)))
    I.store(st, p.obj, p.path, VecV(v.obj, st.n(at)))
    return VecV(oid, st.n(v.len - at))


def closure_fn(I, ft):
    for i, f in enumerate(I.P.fns):
        if f.get('body') and '{closure#' in f['name'].split('::')[-1] and f['argc'] >= 1:
            t = f['locals'][1]
            d = I.P.ty(t)
            if t == ft or d['k'] == 'ref' and d['t'] == ft:
                return i, d['k'] == 'ref'
    raise Unsupported('closure body of ' + I.P.tname(ft))


def vec_retain(I, st, c):
    """Runs the predicate on an arbitrary element: keeping it is consistent with keeping everything, dropping it with
    removing just that element (or it and others, which is left open)."""
    p, f = c.args
    v = vec_at(I, st, p)
    a = plain(I, st, v, 'retain')
    if st.decide(Pred('eq', v.len)):
        return UNIT
    r = resumed(st, c)
    ft = c.tys[1]
    if r is None:
        k = new_atom('retained', 0, (1 << 62) - 1)
        st.ge(v.len - k - 1)
        fn, ref = closure_fn(I, ft)
        if not ref and not I.P.zst(ft):
            raise Unsupported('retain by value')
        fp = ('cont', c.fr.fid, c.fr.bb)
        st.mem[fp] = f
        return Then(fn, [Ptr(fp, ()) if ref else f, Ptr(v.obj, (('x', k),))], k)
    k, keep = r
    if isinstance(keep, Pred):
        keep = st.decide(keep)
    if keep:
        return UNIT
    def one(s):
        set_vec(I, s, p, v.obj, cat(a, s.n(k), a, s.n(k + 1)), v.len - 1)
    def more(s):
        s.ge(v.len - 2)
        set_vec(I, s, p, v.obj, Arr(a.name, a.elem, None, ('uninit',), (('havoc',),)), s.n(new_atom('kept', 0, (1 << 62) - 1, False)))
        x = vec_at(I, s, p).len
        s.ge(v.len - x - 2)
    return Outcomes([('one element is removed', one, UNIT), ('several elements are removed', more, UNIT)])


def drop_vec(I, st, c):
    p = c.args[0]
    v = vec_at(I, st, p)
    a = st.mem[v.obj]
    if isinstance(a, Freed):
        raise UBError('Vec freed twice')
    if I.P.ty(a.elem)['drop']:
        raise Unsupported('drop of a Vec with destructors')
    st.mem[v.obj] = Freed('Vec dropped')
    I.store(st, p.obj, p.path, Dropped(v))
    return UNIT


VEC = {'new': vec_new, 'with_capacity': vec_new, 'push': vec_push, 'len': vec_len, 'is_empty': vec_is_empty, 'clear': vec_clear,
       'truncate': vec_truncate, 'pop': vec_pop, 'clone': vec_clone, 'deref': vec_deref, 'deref_mut': vec_deref, 'default': vec_new,
       'as_slice': vec_deref, 'as_mut_slice': vec_deref, 'reserve': vec_reserve, 'index': vec_index, 'index_mut': vec_index, 'shrink_to_fit': vec_reserve,
       'shrink_to': vec_reserve, 'reserve_exact': vec_reserve, 'capacity': vec_capacity, 'extend_from_slice': vec_extend_slice,
       'append': vec_append, 'extend': vec_extend, 'from_iter': vec_from_iter, 'from': vec_from_iter, 'remove': vec_remove,
       'swap_remove': vec_swap_remove, 'insert': vec_insert, 'drain': vec_drain, 'split_off': vec_split_off,
       'retain': vec_retain, 'retain_mut': vec_retain}
