"""Witness worlds and the operations whose MIR is analysed. A witness program is only compiled, never run: it fixes
the generic parameters of gecs' code, names the operation, and gives the analysis an entry point. Functions called
opq_*/opn_* stand for arbitrary client code (opn_ never unwinds)."""

COMPS = {
    # name -> (declaration, has Drop)
    'Pa': 'pub struct Pa(u64);',
    'Pb': 'pub struct Pb(u64, u64);',
    'Pc': 'pub struct Pc(u8);',
    'Z': 'pub struct Z;',
    'Big': '#[repr(align(16))] pub struct Big(u64);',
    # plain data: no destructor
    'Cp': '#[derive(Copy)] pub struct Cp(u32);',
    'Cz': '#[derive(Copy)] pub struct Cz;',
    'Nd': 'pub struct Nd([u16; 5]);',
    'Al': '#[repr(align(128))] pub struct Al([u8; 200]);',
}
PLAIN = ('Cp', 'Cz', 'Nd', 'Al')
WIDE = ['%s%s' % (x, y) for x in 'QV' for y in 'abcdefghijklmnopqrstuvwx']
for _n in WIDE:
    COMPS[_n] = 'pub struct %s(u32);' % _n


class Spec:
    """A world: archetypes [(name, id or None, [component, ...])]."""

    def __init__(self, name, archs, clone=True):
        self.name, self.archs, self.clone = name, archs, clone
        self.comps = []
        for _, _, cs in archs:
            for c in cs:
                if c not in self.comps:
                    self.comps.append(c)

    def ids(self):
        out, last = [], None
        for _, i, _ in self.archs:
            last = i if i is not None else (0 if last is None else last + 1)
            out.append(last)
        return out

    def decl(self):
        s = ['#![allow(dead_code, unused, non_snake_case)]', 'use gecs::prelude::*;', 'use std::cell::{Ref, RefMut};']
        for c in self.comps:
            s.append(COMPS[c])
            if c not in PLAIN:
                s.append('impl Drop for %s { fn drop(&mut self) { unsafe { opn_nop() } } }' % c)
            if self.clone:
                s.append('impl Clone for %s { fn clone(&self) -> Self { loop {} } }' % c)
        s.append('extern "Rust" { fn opn_nop(); }')
        s.append('ecs_world! {\n  ecs_name!(W);')
        for n, i, cs in self.archs:
            if i is not None:
                s.append('  #[archetype_id(%d)]' % i)
            s.append('  ecs_archetype!(%s, %s);' % (n, ', '.join(cs)))
        s.append('}')
        return '\n'.join(s)


W1 = Spec('W1', [('A', 5, ['Pa', 'Pb']), ('B', None, ['Pa'])])
W2 = Spec('W2', [('A', None, ['Z', 'Big', 'Pc']), ('B', 3, ['Pb', 'Z'])])
W3 = Spec('W3', [('A', 255, ['Pb'])])


W4 = Spec('W4', [('A', 7, ['Pa']), ('B', 2, ['Pb']), ('C', 200, ['Pa', 'Pb']), ('D', None, ['Pc'])])
W8 = Spec('W8', [('A', None, ['Pa']), ('B', None, ['Pb', 'Pa']), ('C', 90, ['Pa', 'Cp']), ('D', None, ['Pa', 'Z']), ('E', 4, ['Pa']), ('F', None, ['Pb']), ('G', 250, ['Pa', 'Pc']), ('H', None, ['Nd'])])

W5 = Spec('W5', [('A', 9, ['Cp', 'Nd', 'Cz']), ('B', 254, ['Pb', 'Al', 'Cp'])])


def wide(n):
    return Spec('N%d' % n, [('A', None, WIDE[:n]), ('B', None, ['Pa'])])


KEYS = {
    't': 'Entity<{A}>',
    'y': 'EntityAny',
    'd': 'EntityDirect<{A}>',
    'z': 'EntityDirectAny',
}


class Op:
    def __init__(self, name, src, spec, args, props, **kw):
        self.name, self.src, self.spec, self.args, self.props = name, src, spec, args, set(props.split())
        self.kw = kw
        self.cases = kw.get('cases', ('zero', 'full', 'part'))


def snake(s):
    return s.lower()


def cv(c):
    """Name of a component's field in generated structs."""
    return c.lower()


def ops(w, arch=0, only=None):
    """The operations over archetype number arch of world w."""
    A, aid, cs = w.archs[arch]
    a = snake(A)
    tup = '(%s,)' % ', '.join(cs)
    n = len(cs)
    ALL = 'C01 C02 C03 C04 C08 C09 C10 C12 C17 C19'
    out = []

    def op(name, src, spec, args, props, **kw):
        out.append(Op(name, src, spec, args, props, arch=arch, **kw))

    # -- creation ---------------------------------------------------------
    mk = ALL + ' C13'
    op('create', 'pub fn {F}(w: &mut W, c: %s) -> Entity<%s> { w.create::<%s>(c) }' % (tup, A, A), 'create', ['W', 'comps'], 'C01 C02 C04 C08 C09 C10 C12 C17 C19')
    op('create_arch', 'pub fn {F}(w: &mut W, c: %s) -> Entity<%s> { w.%s.create(c) }' % (tup, A, a), 'create', ['W', 'comps'], 'C01 C02 C12 C17')
    op('create_archetype_mut', 'pub fn {F}(w: &mut W, c: %s) -> Entity<%s> { w.archetype_mut::<%s>().create(c) }' % (tup, A, A), 'create', ['W', 'comps'], 'C02 C12')
    op('create_within_capacity', 'pub fn {F}(w: &mut W, c: %s) -> Result<Entity<%s>, %s> { w.create_within_capacity::<%s>(c).map_err(|c| c.into_tuple()) }' % (tup, A, tup, A),
       'cwc', ['W', 'comps'], 'C01 C02 C04 C08 C09 C10 C12 C17 C19')
    op('create_within_capacity_arch', 'pub fn {F}(w: &mut W, c: %s) -> Result<Entity<%s>, %s> { w.%s.create_within_capacity(c).map_err(|c| c.into_tuple()) }' % (tup, A, tup, a),
       'cwc', ['W', 'comps'], 'C04 C12 C17')
    fl = ', '.join('%s: c.%d' % (cv(c), j) for j, c in enumerate(cs))
    op('create_struct', 'pub fn {F}(w: &mut W, c: %s) -> Entity<%s> { w.create::<%s>(%sComponents { %s }) }' % (tup, A, A, A, fl), 'create', ['W', 'comps'], 'C02 C04')
    op('cwc_struct', 'pub fn {F}(w: &mut W, c: %s) -> Result<Entity<%s>, %s> { w.%s.create_within_capacity(%sComponents { %s }).map_err(|c| c.into()) }' % (tup, A, tup, a, A, fl), 'cwc', ['W', 'comps'], 'C02 C04')
    # the accessors of the value returned by destroy
    dt = 'pub fn {F}(w: &mut W, e: Entity<%s>) -> Option<%s> { w.%s.destroy(e)' % (A, tup, a)
    op('destroy_into', dt + '.map(|c| c.into()) }', 'destroy', ['W', 't'], 'C02 C04', ret='tuple')
    op('destroy_field', dt + '.map(|c| (%s,)) }' % ', '.join('c.' + cv(c) for c in cs), 'destroy', ['W', 't'], 'C02 C04', ret='tuple')
    for nm, m in (('get', ''), ('get_mut', 'mut ')):
        op('destroy_' + nm, dt + '.map(|c| { let %sc = core::mem::ManuallyDrop::new(c); unsafe { (%s,) } }) }' % (m, ', '.join('core::ptr::read(c.%s::<%s>())' % (nm, c) for c in cs)),
           'destroy', ['W', 't'], 'C02 C04', ret='tuple')
    # -- destruction --------------------------------------------------------
    for k in 'tydz':
        K = KEYS[k].format(A=A)
        if k in 'td':
            op('destroy_' + k, 'pub fn {F}(w: &mut W, e: %s) -> Option<%s> { w.destroy(e).map(|c| c.into_tuple()) }' % (K, tup), 'destroy', ['W', k], ALL + ' C05', ret='tuple')
        else:
            op('destroy_' + k, 'pub fn {F}(w: &mut W, e: %s) -> Option<()> { w.destroy(e) }' % K, 'destroy', ['W', k], ALL + ' C05', ret='unit', world=True)
        op('destroy_arch_' + k, 'pub fn {F}(w: &mut W, e: %s) -> Option<%s> { w.%s.destroy(e).map(|c| c.into_tuple()) }' % (K, tup, a), 'destroy', ['W', k], 'C01 C02 C03 C04 C08 C09 C12 C17', ret='tuple')
        # -- lookups ----------------------------------------------------------
        op('contains_' + k, 'pub fn {F}(w: &W, e: %s) -> bool { w.contains(e) }' % K, 'contains', ['W', k], 'C01 C03 C09 C19', world=k in 'yz')
        op('contains_arch_' + k, 'pub fn {F}(w: &W, e: %s) -> bool { w.%s.contains(e) }' % (K, a), 'contains', ['W', k], 'C01 C03 C09')
        op('resolve_arch_' + k, 'pub fn {F}(w: &W, e: %s) -> Option<usize> { w.%s.resolve(e) }' % (K, a), 'resolve', ['W', k], 'C01 C02 C03 C09')
        op('to_direct_' + k, 'pub fn {F}(w: &W, e: %s) -> Option<EntityDirectAny> { w.to_direct(e).map(|d| d.into_any()) }' % K, 'direct', ['W', k], 'C01 C03 C09 C19', world=k in 'yz')
        op('to_direct_arch_' + k, 'pub fn {F}(w: &W, e: %s) -> Option<EntityDirectAny> { w.%s.to_direct(e).map(|d| d.into_any()) }' % (K, a), 'direct', ['W', k], 'C01 C03 C09')
        # -- views and borrows -----------------------------------------------
        fields = ', '.join('v.%s' % cv(c) for c in cs)
        tys = ', '.join('_: &mut %s' % c for c in cs)
        roles = ['ix', 'h'] + ['m%d' % i for i in range(n)]
        ex = 'extern "Rust" { fn opq_v_{F}(i: usize, e: &Entity<%s>, %s); }\n' % (A, tys)
        vp = 'C01 C02 C03 C09 C10 C19'
        for wn, call in (('', 'w.view::<%s, _>(e)' % A), ('arch_', 'w.%s.view(e)' % a)):
            if wn == '' and k in 'yz':
                continue
            op('view_%s%s' % (wn, k), ex + 'pub fn {F}(w: &mut W, e: %s) -> bool { match %s { Some(v) => { unsafe { opq_v_{F}(v.index(), v.entity, %s) }; true } None => false } }' % (K, call, fields),
               'observe', ['W', k], vp, obs=roles, ret='bool')
        ex = 'extern "Rust" { fn opq_b_{F}(i: usize, e: &Entity<%s>, %s); }\n' % (A, ', '.join(('_: &mut %s' if j % 2 == 0 else '_: &%s') % c for j, c in enumerate(cs)))
        bf = ', '.join(('&mut v.component_mut::<%s>()' if j % 2 == 0 else '&v.component::<%s>()') % c for j, c in enumerate(cs))
        roles = ['ix', 'h'] + [('m%d' if j % 2 == 0 else 'r%d') % j for j in range(n)]
        for wn, call in (('', 'w.borrow::<%s, _>(e)' % A), ('arch_', 'w.%s.borrow(e)' % a)):
            if wn == '' and k in 'yz':
                continue
            op('borrow_%s%s' % (wn, k), ex + 'pub fn {F}(w: &W, e: %s) -> bool { match %s { Some(v) => { unsafe { opq_b_{F}(v.index(), v.entity(), %s) }; true } None => false } }' % (K, call, bf),
               'observe', ['W', k], vp + ' C11', obs=roles, ret='bool', flags=True)
        if k == 't':
            # the other parity, and the generic accessors
            ex = 'extern "Rust" { fn opq_b_{F}(i: usize, e: &Entity<%s>, %s); }\n' % (A, ', '.join(('_: &mut %s' if j % 2 else '_: &%s') % c for j, c in enumerate(cs)))
            bf = ', '.join(('&mut v.component_mut::<%s>()' if j % 2 else '&v.component::<%s>()') % c for j, c in enumerate(cs))
            op('borrow2_t', ex + 'pub fn {F}(w: &W, e: %s) -> bool { match w.%s.borrow(e) { Some(v) => { unsafe { opq_b_{F}(v.index(), v.entity(), %s) }; true } None => false } }' % (K, a, bf),
               'observe', ['W', k], 'C02 C11', obs=['ix', 'h'] + [('m%d' if j % 2 else 'r%d') % j for j in range(n)], ret='bool', flags=True)
            ex = 'extern "Rust" { fn opq_v_{F}(i: usize, e: &Entity<%s>, %s); }\n' % (A, ', '.join('_: &%s' % c for c in cs))
            op('view_comp', ex + 'pub fn {F}(w: &mut W, e: %s) -> bool { match w.%s.view(e) { Some(v) => { unsafe { opq_v_{F}(v.index(), v.entity, %s) }; true } None => false } }' % (
                K, a, ', '.join('v.component::<%s>()' % c for c in cs)), 'observe', ['W', k], 'C02', obs=['ix', 'h'] + ['r%d' % j for j in range(n)], ret='bool')
            for j, c in enumerate(cs):
                ex = 'extern "Rust" { fn opq_v_{F}(_: &mut %s); }\n' % c
                op('view_comp_mut_%d' % j, ex + 'pub fn {F}(w: &mut W, e: %s) -> bool { match w.%s.view(e) { Some(mut v) => { unsafe { opq_v_{F}(v.component_mut::<%s>()) }; true } None => false } }' % (
                    K, a, c), 'observe', ['W', k], 'C02', obs=['m%d' % j], ret='bool')
        # -- finds --------------------------------------------------------------
        ex = 'extern "Rust" { fn opq_f_{F}(e: &Entity<%s>, y: &EntityAny, d: &EntityDirect<%s>, z: &EntityDirectAny, %s); }\n' % (A, A, tys)
        ps = 'e: &Entity<%s>, y: &EntityAny, d: &EntityDirect<%s>, z: &EntityDirectAny, ' % (A, A) + ', '.join('c%d: &mut %s' % (i, c) for i, c in enumerate(cs))
        cl = 'e, y, d, z, ' + ', '.join('c%d' % i for i in range(n))
        roles = ['h', 'y', 'd', 'z'] + ['m%d' % i for i in range(n)]
        op('find_' + k, ex + 'pub fn {F}(w: &mut W, k: %s) -> bool { ecs_find!(w, k, |%s| unsafe { opq_f_{F}(%s) }).is_some() }' % (K, ps, cl),
           'observe', ['W', k], vp + ' C05', obs=roles, ret='bool', world=k in 'yz', find=True)
        ex = 'extern "Rust" { fn opq_g_{F}(d: &EntityDirect<_>, h: &Entity<_>, c: &mut %s); }\n'.replace('<_>', '<%s>' % A) % cs[0]
        op('find_borrow_' + k, ex + 'pub fn {F}(w: &W, k: %s) -> bool { ecs_find_borrow!(w, k, |d: &EntityDirect<%s>, h: &Entity<%s>, c: &mut %s| unsafe { opq_g_{F}(d, h, c) }).is_some() }' % (K, A, A, cs[0]),
           'observe', ['W', k], vp + ' C05 C11', obs=['d', 'h', 'm0'], ret='bool', flags=True, world=k in 'yz', find=True)
    if n > 1:
        ex = 'extern "Rust" { fn opq_g_{F}(a: &%s, b: &%s); }\n' % (cs[0], cs[1])
        op('find_borrow_shared', ex + 'pub fn {F}(w: &W, k: Entity<%s>) -> bool { ecs_find_borrow!(w, k, |a: &%s, b: &%s| unsafe { opq_g_{F}(a, b) }).is_some() }' % (A, cs[0], cs[1]),
           'observe', ['W', 't'], vp + ' C05 C11', obs=['r0', 'r1'], ret='bool', flags=True, find=True)
    # -- plain accessors --------------------------------------------------------
    ro = 'C01 C02 C06 C09 C12 C19'
    op('len', 'pub fn {F}(w: &W) -> usize { w.archetype::<%s>().len() }' % A, 'len', ['W'], 'C12 C06')
    op('capacity', 'pub fn {F}(w: &W) -> usize { w.%s.capacity() }' % a, 'capacity', ['W'], 'C12')
    op('is_empty', 'pub fn {F}(w: &W) -> bool { w.%s.is_empty() }' % a, 'is_empty', ['W'], 'C12')
    op('version', 'pub fn {F}(w: &W) -> gecs::version::ArchetypeVersion { w.%s.version() }' % a, 'version', ['W'], 'C09')
    op('entities', 'pub fn {F}(w: &W) -> &[Entity<%s>] { w.%s.entities() }' % (A, a), 'slice', ['W'], 'C02 C06 C12', what='h')
    for j, c in enumerate(cs):
        op('get_slice_%d' % j, 'pub fn {F}(w: &mut W) -> &[%s] { w.%s.get_slice::<%s>() }' % (c, a, c), 'slice', ['W'], 'C02 C06', what=j)
        op('get_slice_mut_%d' % j, 'pub fn {F}(w: &mut W) -> &mut [%s] { w.%s.get_slice_mut::<%s>() }' % (c, a, c), 'slice', ['W'], 'C02 C06', what=j)
        op('get_all_slices_%d' % j, 'pub fn {F}(w: &mut W) -> &mut [%s] { w.%s.get_all_slices_mut().%s }' % (c, a, cv(c)), 'slice', ['W'], 'C02 C06', what=j)
        ex = 'extern "Rust" { fn opq_s_{F}(s: &[%s]); }\n' % c
        op('borrow_slice_%d' % j, ex + 'pub fn {F}(w: &W) { let s = w.%s.borrow_slice::<%s>(); unsafe { opq_s_{F}(&s) } }' % (a, c), 'bslice', ['W'], 'C02 C06 C10 C11', what=j, obs=['r%d' % j], flags=True)
        ex = 'extern "Rust" { fn opq_t_{F}(s: &[%s]); }\n' % c
        op('borrow_slice_mut_%d' % j, ex + 'pub fn {F}(w: &W) { let mut s = w.%s.borrow_slice_mut::<%s>(); unsafe { opq_t_{F}(&*s) } }' % (a, c), 'bslice', ['W'], 'C02 C06 C10 C11', what=j, obs=['m%d' % j], flags=True)
    op('get_all_slices_h', 'pub fn {F}(w: &mut W) -> &[Entity<%s>] { w.%s.get_all_slices_mut().entity }' % (A, a), 'slice', ['W'], 'C02 C06', what='h')
    # -- iteration ---------------------------------------------------------------
    it = 'C01 C02 C06 C10 C19'
    for nm, m in (('iter', ''), ('iter_mut', 'mut ')):
        ex = 'extern "Rust" { fn opq_i_{F}(e: &Entity<%s>, %s); }\n' % (A, ', '.join('_: &%s%s' % (m, c) for c in cs))
        op('arch_' + nm, ex + 'pub fn {F}(w: &mut W) { for (e, %s) in w.%s.%s() { unsafe { opq_i_{F}(e, %s) } } }' % (
            ', '.join('c%d' % i for i in range(n)), a, nm, ', '.join('c%d' % i for i in range(n))),
           'iterate', ['W'], it, obs=['h'] + ['%s%d' % ('m' if m else 'r', i) for i in range(n)])
        its = 'C02 C06 C19'
        fe = '(e, %s)' % ', '.join('c%d' % i for i in range(n))
        call = 'unsafe { opq_i_{F}(e, %s) }' % ', '.join('c%d' % i for i in range(n))
        roles = ['h'] + ['%s%d' % ('m' if m else 'r', i) for i in range(n)]
        op('arch_%s_fold' % nm, ex + 'pub fn {F}(w: &mut W) { w.%s.%s().for_each(|%s| %s) }' % (a, nm, fe, call), 'iterate', ['W'], its, obs=roles)
        op('arch_%s_count' % nm, 'pub fn {F}(w: &mut W) -> usize { w.%s.%s().count() }' % (a, nm), 'len', ['W'], 'C06')
        op('arch_%s_hint' % nm, 'pub fn {F}(w: &mut W) -> (usize, bool, usize) { let h = w.%s.%s().size_hint(); (h.0, h.1.is_some(), h.1.unwrap_or(0)) }' % (a, nm), 'hint', ['W'], 'C06', cases=('zero', 'part'))
        for wh, ar, m2 in (('nth', 'k: usize', 'nth(k)'), ('last', '', 'last()')):
            op('arch_%s_%s' % (nm, wh), ex + 'pub fn {F}(w: &mut W%s) -> bool { match w.%s.%s().%s { Some(%s) => { %s; true } None => false } }' % (', ' + ar if ar else '', a, nm, m2, fe, call),
               'pick', ['W'] + (['n'] if ar else []), its, obs=roles, which=wh, cases=('zero', 'part'))
    # -- lifetime -----------------------------------------------------------------
    if arch == 0:
        caps = ', '.join('%s: n%d' % (snake(x[0]), i) for i, x in enumerate(w.archs))
        op('new', 'pub fn {F}() -> W { W::new() }', 'new', [], 'C01 C04 C10 C12 C19', cases=('zero',))
        op('default', 'pub fn {F}() -> W { W::default() }', 'new', [], 'C01 C04 C12', cases=('zero',))
        op('with_capacity', 'pub fn {F}(%s) -> W { W::with_capacity(WCapacity { %s }) }' % (', '.join('n%d: usize' % i for i in range(len(w.archs))), caps),
           'new', ['n'] * len(w.archs), 'C01 C04 C10 C12 C19', cases=('zero',))
        if w.clone:
            op('clone', 'pub fn {F}(w: &W) -> W { w.clone() }', 'clone', ['W'], 'C01 C02 C04 C10 C11 C13 C17 C19', flags=True)
        op('drop', 'pub fn {F}(w: W) { }', 'drop', ['Wv'], 'C04 C10 C19')
    op('new_arch', 'pub fn {F}() -> %s { %s::new() }' % (A, A), 'newarch', [], 'C12', cases=('zero',))
    op('default_arch', 'pub fn {F}() -> %s { %s::default() }' % (A, A), 'newarch', [], 'C12', cases=('zero',))
    op('with_capacity_arch', 'pub fn {F}(n: usize) -> %s { %s::with_capacity(n) }' % (A, A), 'newarch', ['n'], 'C12', cases=('zero',))
    if only:
        out = [o for o in out if any(o.name.startswith(x) for x in only)]
    return out


def queries(w):
    """Query macros over the whole world."""
    out = []

    def op(name, src, spec, args, props, **kw):
        out.append(Op(name, src, spec, args, props, **kw))
    archs = w.archs
    common = [c for c in archs[0][2] if all(c in a[2] for a in archs)]
    c = common[0] if common else None
    if c:
        for bw in ('', '_borrow'):
            wt = '&W' if bw else '&mut W'
            ex = 'extern "Rust" { fn opq_q_{F}(y: &EntityAny, z: &EntityDirectAny, c: &mut %s) -> EcsStep; }\n' % c
            op('iter%s_step' % bw, ex + 'pub fn {F}(w: %s) { ecs_iter%s!(w, |y: &EntityAny, z: &EntityDirectAny, c: &mut %s| unsafe { opq_q_{F}(y, z, c) }); }' % (wt, bw, c),
               'iterate', ['W'], 'C01 C02 C05 C06 C09 C10 C19' + (' C11' if bw else ''), obs=['y', 'z', 'M' + c], step=True, flags=bool(bw), query=True)
            ex = 'extern "Rust" { fn opq_q_{F}(y: &EntityAny, c: &%s); }\n' % c
            op('iter%s_all' % bw, ex + 'pub fn {F}(w: %s) { ecs_iter%s!(w, |y: &EntityAny, c: &%s| unsafe { opq_q_{F}(y, c) }); }' % (wt, bw, c),
               'iterate', ['W'], 'C01 C02 C05 C06 C10 C19' + (' C11' if bw else ''), obs=['y', 'R' + c], flags=bool(bw), query=True)
        for nm, rt in (('', 'EcsStepDestroy'), ('_step', 'EcsStep'), ('_unit', '()')):
            ex = 'extern "Rust" { fn opq_q_{F}(y: &EntityAny, z: &EntityDirectAny, c: &mut %s) -> %s; }\n' % (c, rt)
            op('iter_destroy' + nm, ex + 'pub fn {F}(w: &mut W) { ecs_iter_destroy!(w, |y: &EntityAny, z: &EntityDirectAny, c: &mut %s| unsafe { opq_q_{F}(y, z, c) }); }' % c,
               'iterate' if nm else 'iterd', ['W'], 'C01 C02 C04 C05 C07 C08 C09 C10 C12 C17 C19', cases=('zero', 'part'), obs=['y', 'z', 'M' + c], query=True, step=nm == '_step')
    A, _, cs = archs[0]
    ex = 'extern "Rust" { fn opq_q_{F}(e: &Entity<%s>, d: &EntityDirect<%s>, %s) -> EcsStepDestroy; }\n' % (A, A, ', '.join('_: &' + x for x in cs))
    cl = 'e, d, ' + ', '.join('c%d' % i for i in range(len(cs)))
    op('iter_destroy_one', ex + 'pub fn {F}(w: &mut W) { ecs_iter_destroy!(w, |e: &Entity<%s>, d: &EntityDirect<%s>, %s| unsafe { opq_q_{F}(%s) }); }' % (
        A, A, ', '.join('c%d: &%s' % (i, x) for i, x in enumerate(cs)), cl),
       'iterd', ['W'], 'C01 C02 C04 C05 C07 C08 C09 C10 C12 C17 C19', cases=('zero', 'part'), obs=['h', 'd'] + ['r%d' % i for i in range(len(cs))], query=True, archs=[0])
    ps = 'e: &Entity<%s>, d: &EntityDirect<%s>, ' % (A, A) + ', '.join('c%d: &mut %s' % (i, x) for i, x in enumerate(cs))
    ex = 'extern "Rust" { fn opq_q_{F}(e: &Entity<%s>, d: &EntityDirect<%s>, %s); }\n' % (A, A, ', '.join('_: &mut ' + x for x in cs))
    cl = 'e, d, ' + ', '.join('c%d' % i for i in range(len(cs)))
    op('iter_one', ex + 'pub fn {F}(w: &mut W) { ecs_iter!(w, |%s| unsafe { opq_q_{F}(%s) }); }' % (ps, cl), 'iterate', ['W'],
       'C01 C02 C05 C06 C09 C10', obs=['h', 'd'] + ['m%d' % i for i in range(len(cs))], query=True, archs=[0])
    ps = ps.replace('&mut ', '&')
    op('iter_borrow_one', ex.replace('&mut ', '&') + 'pub fn {F}(w: &W) { ecs_iter_borrow!(w, |%s| unsafe { opq_q_{F}(%s) }); }' % (ps, cl), 'iterate', ['W'],
       'C01 C02 C05 C06 C09 C10 C11', obs=['h', 'd'] + ['r%d' % i for i in range(len(cs))], query=True, archs=[0], flags=True)
    return out


def plists(w):
    """Parameter lists of queries: [(name, [(parameter type, role, argument)], matched archetypes)]."""
    out = []
    N = range(len(w.archs))
    has = lambda c: [i for i in N if c in w.archs[i][2]]
    A0 = w.archs[0][0]

    def add(name, ps):
        m = list(N)
        for t, r, _ in ps:
            b = t.split()[-1]
            if b.startswith('OneOf<'):
                k = [i for i in N if any(x.strip() in w.archs[i][2] for x in b[6:-1].split(','))]
            elif r[0] in 'MR':
                k = has(r[1:])
            elif '<' in b and '_' not in b:
                k = [i for i in N if w.archs[i][0] == b.split('<')[1][:-1]]
            else:
                continue
            m = [i for i in m if i in k]
        if m:
            out.append((name, ps, m))
    for c in w.comps:
        add('r' + c, [('&' + c, 'R' + c, '{}')])
        add('m' + c, [('&mut ' + c, 'M' + c, '{}')])
    for n, i, cs in w.archs:
        add('h' + n, [('&Entity<%s>' % n, 'y', '&{}.into_any()')])
        add('d' + n, [('&EntityDirect<%s>' % n, 'z', '&{}.into_any()')])
    add('y', [('&EntityAny', 'y', '{}')])
    add('z', [('&EntityDirectAny', 'z', '{}')])
    add('h_', [('&Entity<_>', 'y', '&{}.into_any()')])
    add('d_', [('&EntityDirect<_>', 'z', '&{}.into_any()')])
    # components of which no archetype has two
    ones = [(a, b) for a in w.comps for b in w.comps if a != b and not any(a in x[2] and b in x[2] for x in w.archs)]
    for a, b in ones[:4]:
        add('o%s_%s' % (a, b), [('&mut OneOf<%s,%s>' % (a, b), 'M%s|%s' % (a, b), '{}'), ('&EntityAny', 'y', '{}')])
    c = w.archs[0][2][-1]
    add('o' + c, [('&OneOf<%s>' % c, 'R' + c, '{}'), ('&EntityDirect<_>', 'z', '&{}.into_any()')])
    # all columns of each archetype, in reverse order, alternating mutability
    for n, i, cs in w.archs:
        add('all' + n, [('&Entity<%s>' % n, 'y', '&{}.into_any()')] + [(('&mut ' if k % 2 else '&') + x, ('M' if k % 2 else 'R') + x, '{}') for k, x in enumerate(reversed(cs))] +
            [('&EntityDirect<_>', 'z', '&{}.into_any()')])
    return out


def qops(w):
    """The query macros over many parameter lists (which the macros expand differently)."""
    out = []
    A = w.archs[0][0]
    for name, ps, matched in plists(w):
        roles = [r for _, r, _ in ps]
        oneof = any('OneOf' in t for t, _, _ in ps)
        zonly = all(r[0] not in 'MRyz' or r[1:] in ('Z', 'Cz') for r in roles)
        # the types the closure's arguments are passed on as
        ext = []
        for t, r, a in ps:
            ext.append('&EntityAny' if r == 'y' else '&EntityDirectAny' if r == 'z' else t)
        cl = ', '.join('p%d: %s' % (i, t) for i, (t, _, _) in enumerate(ps))
        ar = ', '.join(a.format('p%d' % i) for i, (_, _, a) in enumerate(ps))
        fns = {}
        if oneof:
            # one function per bound type; a trait picks it
            t, r, _ = [p for p in ps if 'OneOf' in p[0]][0]
            names = r[1:].split('|')
            mt = 'mut ' if t.startswith('&mut') else ''
            k = [i for i, p in enumerate(ps) if 'OneOf' in p[0]][0]
            oth = ', '.join('p%d: %s' % (i, x) for i, x in enumerate(ext) if i != k)
            tr = 'trait T_{F}: Sized { fn go(&%sself%s) -> {R}; }\n' % (mt, ', ' + oth if oth else '')
            for x in names:
                sig = ', '.join('p%d: %s' % (i, ('&%s%s' % (mt, x)) if i == k else e) for i, e in enumerate(ext))
                tr += 'extern "Rust" { fn opq_q_{F}_%s(%s) -> {R}; }\n' % (x, sig)
                tr += 'impl T_{F} for %s { fn go(&%sself%s) -> {R} { unsafe { opq_q_{F}_%s(%s) } } }\n' % (
                    x, mt, ', ' + oth if oth else '', x, ', '.join('self' if i == k else 'p%d' % i for i in range(len(ext))))
            pre = tr
            call = 'T_{F}::go(p%d%s)' % (k, ''.join(', ' + a.format('p%d' % i) for i, (_, _, a) in enumerate(ps) if i != k))
        else:
            pre = 'extern "Rust" { fn opq_q_{F}(%s) -> {R}; }\n' % ', '.join('p%d: %s' % x for x in enumerate(ext))
            call = 'unsafe { opq_q_{F}(%s) }' % ar

        def op(n, src, spec, args, props, r, **kw):
            o = Op('%s_%s' % (n, name), src.replace('{R}', r), spec, args, props, obs=roles, archs=matched, arch=0, query=True, **kw)
            o.wide = True
            out.append(o)
        for bw in ('', '_borrow'):
            wt = '&W' if bw else '&mut W'
            for k in 'tydz':
                op('qfind%s_%s' % (bw, k), pre + 'pub fn {F}(w: %s, k: %s) -> Option<bool> { ecs_find%s!(w, k, |%s| %s) }' % (wt, KEYS[k].format(A=A), bw, cl, call),
                   'observe', ['W', k], 'C05 C01 C02 C09' + (' C11' if bw else ''), 'bool', ret='optbool', flags=bool(bw), world=k in 'yz', find=True)
            if not zonly:
                op('qiter%s' % bw, pre + 'pub fn {F}(w: %s) { ecs_iter%s!(w, |%s| %s); }' % (wt, bw, cl, call),
                   'iterate', ['W'], 'C05 C06 C02' + (' C11' if bw else ''), 'EcsStep', step=True, flags=bool(bw))
        if not zonly:
            op('qiterd', pre + 'pub fn {F}(w: &mut W) { ecs_iter_destroy!(w, |%s| %s); }' % (cl, call),
               'iterd', ['W'], 'C05 C07', 'EcsStepDestroy', cases=('zero', 'part'))
    return out


def events(w):
    """Reading and clearing the event logs."""
    out = []
    N = range(len(w.archs))
    for ix, wh in ((None, 'w'), (0, 'w.' + snake(w.archs[0][0])), (len(w.archs) - 1, 'w.' + snake(w.archs[-1][0]))):
        nm = '' if ix is None else '_arch%d' % ix
        T = 'EntityAny' if ix is None else 'Entity<%s>' % w.archs[ix][0]
        ex = 'extern "Rust" { fn opn_e_{F}(e: &%s); fn opn_h_{F}(lo: usize, some: bool, hi: usize); }\n' % T
        m = list(N) if ix is None else [ix]
        for lg in ('created', 'destroyed'):
            out.append(Op('ev_%s%s' % (lg, nm), ex + 'pub fn {F}(w: &W) { let mut it = %s.iter_%s(); loop { let h = it.size_hint(); unsafe { opn_h_{F}(h.0, h.1.is_some(), h.1.unwrap_or(0)) }; '
                          'match it.next() { Some(e) => unsafe { opn_e_{F}(e) }, None => break } } }' % (wh, lg), 'events', ['W'], 'C17', cases=('part',), log=lg, archs=m, phases=True))
            out.append(Op('ev_for_%s%s' % (lg, nm), ex + 'pub fn {F}(w: &W) { for e in %s.iter_%s() { unsafe { opn_e_{F}(e) } } }' % (wh, lg), 'events', ['W'], 'C17', cases=('part',), log=lg, archs=m, phases=True))
        out.append(Op('ev_clear' + nm, 'pub fn {F}(w: &mut W) { %s.clear_events() }' % wh, 'evclear', ['W'], 'C17 C01 C02 C04 C09 C10 C12', archs=m))
    return list({o.name: o for o in out}.values())


def all_ops(w, arch, cfg, wide=False):
    return (events(w) if arch == 0 and 'events' in cfg.features else []) + ops(w, arch) + (queries(w) if arch == 0 else []) + (qops(w) if wide and arch == 0 else [])


def source(w, oplist):
    s = [w.decl()]
    for o in oplist:
        s.append(o.src.replace('{F}', 'w_' + o.name))
    return '\n'.join(s) + '\n'
