"""Abstract values of the MIR interpreter."""
from .lin import Lin, K


class Agg:
    """Struct, tuple, closure or fixed array; ZST values are Agg(())."""
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = tuple(f)

    def __eq__(self, o):
        return isinstance(o, Agg) and self.f == o.f

    def __hash__(self):
        return hash(('a', self.f))

    def __repr__(self):
        return '(' + ', '.join(map(repr, self.f)) + ')'


UNIT = Agg(())


class En:
    """Enum value with a known variant."""
    __slots__ = ('v', 'f')

    def __init__(self, v, f=()):
        self.v, self.f = v, tuple(f)

    def __eq__(self, o):
        return isinstance(o, En) and self.v == o.v and self.f == o.f

    def __hash__(self):
        return hash(('e', self.v, self.f))

    def __repr__(self):
        return '#%d%s' % (self.v, '' if not self.f else '(' + ', '.join(map(repr, self.f)) + ')')


class Ptr:
    """obj None: an address without provenance (dangling)."""
    __slots__ = ('obj', 'path', 'meta', 'addr')

    def __init__(self, obj, path=(), meta=None, addr=None):
        self.obj, self.path, self.meta, self.addr = obj, tuple(path), meta, addr

    def __eq__(self, o):
        return isinstance(o, Ptr) and (self.obj, self.path, self.meta, self.addr) == (o.obj, o.path, o.meta, o.addr)

    def __hash__(self):
        return hash(('p', self.obj, self.path, self.meta, self.addr))

    def __repr__(self):
        s = '&%s' % (self.obj,) if self.obj is not None else '&@%s' % (self.addr,)
        for p in self.path:
            s += '[%r]' % p[1] if p[0] == 'x' else '.%s' % p[1] if p[0] == 'f' else '!%s' % p[1]
        return s + (':%r' % (self.meta,) if self.meta is not None else '')


class Opq:
    """An opaque value with identity: a tag and arguments (Lin, Opq, str, int)."""
    __slots__ = ('tag', 'a')

    def __init__(self, tag, a=()):
        self.tag, self.a = tag, tuple(a)

    def __eq__(self, o):
        return isinstance(o, Opq) and self.tag == o.tag and self.a == o.a

    def __hash__(self):
        return hash(('o', self.tag, self.a))

    def __repr__(self):
        return '%s<%s>' % (self.tag, ', '.join(map(repr, self.a)))


class Pred:
    """Boolean: lin >= 0, == 0 or != 0."""
    __slots__ = ('op', 'l')

    def __init__(self, op, l):
        self.op, self.l = op, l

    def neg(self):
        if self.op == 'ge':
            return Pred('ge', -self.l - 1)
        return Pred('ne' if self.op == 'eq' else 'eq', self.l)

    def __eq__(self, o):
        return isinstance(o, Pred) and self.op == o.op and self.l == o.l

    def __hash__(self):
        return hash(('P', self.op, self.l))

    def __repr__(self):
        return '[%r %s 0]' % (self.l, {'ge': '>=', 'eq': '==', 'ne': '!='}[self.op])


class Sym:
    """A symbolic enum/opaque result whose variant is not yet decided: n variants, resolved by a split."""


class FnV:
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, FnV) and o.id == self.id

    def __hash__(self):
        return hash(('f', self.id))

    def __repr__(self):
        return 'fn%s' % self.id


class _Un:
    def __repr__(self):
        return 'uninit'


UN = _Un()


class Dropped:
    """Memory whose value has been dropped in place."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Dropped) and o.v == self.v

    def __hash__(self):
        return hash(('D', self.v))

    def __repr__(self):
        return 'dropped(%r)' % (self.v,)


class Arr:
    """An array object. base(st, I, idx) semantics are given by (kind, ...) tuples:
    ('uninit',), ('slots', sid), ('ents', sid), ('col', sid, k), ('keep', Arr, n) = first n cells of a former
    array, ('cat', Arr, n, Arr, off) = those, then the cells of another array from off on, ('seq', name, ty) = opaque elements."""
    __slots__ = ('name', 'elem', 'count', 'base', 'log', 'heap', 'align')

    def __init__(self, name, elem, count, base, log=(), heap=None, align=None):
        self.name, self.elem, self.count, self.base, self.log, self.heap, self.align = name, elem, count, base, log, heap, align

    def with_log(self, log):
        return Arr(self.name, self.elem, self.count, self.base, log, self.heap, self.align)

    def __repr__(self):
        return 'Arr(%s, n=%r, %r, log=%r)' % (self.name, self.count, self.base, self.log)


class Raw:
    """A heap block whose element type is not known yet; size in bytes."""
    __slots__ = ('name', 'size', 'align')

    def __init__(self, name, size, align=None):
        self.name, self.size, self.align = name, size, align

    def __repr__(self):
        return 'Raw(%s, %r)' % (self.name, self.size)


class Freed:
    __slots__ = ('what',)

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return 'freed(%r)' % (self.what,)


class VecV:
    """Abstract Vec<T>: the array object holding its elements and its length."""
    __slots__ = ('obj', 'len')

    def __init__(self, obj, len):
        self.obj, self.len = obj, len

    def __repr__(self):
        return 'Vec(%s, %r)' % (self.obj, self.len)


def subst_value(v, m):
    """Substitutes atoms in a value."""
    if isinstance(v, Lin):
        return v.subst(m)
    if isinstance(v, Agg):
        return Agg([subst_value(x, m) for x in v.f])
    if isinstance(v, En):
        return En(v.v, [subst_value(x, m) for x in v.f])
    if isinstance(v, Ptr):
        return Ptr(v.obj, subst_path(v.path, m), subst_value(v.meta, m), subst_value(v.addr, m))
    if isinstance(v, Opq):
        return Opq(v.tag, [subst_value(x, m) for x in v.a])
    if isinstance(v, Pred):
        return Pred(v.op, v.l.subst(m))
    if isinstance(v, Dropped):
        return Dropped(subst_value(v.v, m))
    if isinstance(v, tuple):
        return tuple(subst_value(x, m) for x in v)
    return v


def subst_path(p, m):
    return tuple(('x', s[1].subst(m)) if s[0] == 'x' else s for s in p)


def atoms_of(v, out=None):
    if out is None:
        out = set()
    if isinstance(v, Lin):
        out.update(v.atoms())
    elif isinstance(v, (Agg, En)):
        for x in v.f:
            atoms_of(x, out)
    elif isinstance(v, Ptr):
        for s in v.path:
            if s[0] == 'x':
                out.update(s[1].atoms())
        atoms_of(v.meta, out)
        atoms_of(v.addr, out)
    elif isinstance(v, Opq):
        for x in v.a:
            atoms_of(x, out)
    elif isinstance(v, Pred):
        out.update(v.l.atoms())
    elif isinstance(v, Dropped):
        atoms_of(v.v, out)
    elif isinstance(v, tuple):
        for x in v:
            atoms_of(x, out)
    return out
