"""C14: conversions between handles, raw pairs and the generated enums, for an arbitrary key.

An arbitrary handle is an arbitrary index below 2^24, an arbitrary archetype id, an arbitrary non-zero generation; a
typed handle has its archetype's id (what any issued typed handle has)."""
from .lin import Lin, K, new_atom
from .values import *
from .interp import Unsupported
from .storage import Bad, need, MAXCAP, VMAX
from . import worlds as W

HASHER = '''
extern "Rust" { fn opq_h64(x: u64); fn opq_h32(x: u32); fn opq_h16(x: u16); fn opq_h8(x: u8); fn opq_hsz(x: usize); fn opq_hby(x: &[u8]); }
pub struct Hs;
impl std::hash::Hasher for Hs {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { unsafe { opq_hby(b) } }
    fn write_u64(&mut self, x: u64) { unsafe { opq_h64(x) } }
    fn write_u32(&mut self, x: u32) { unsafe { opq_h32(x) } }
    fn write_u16(&mut self, x: u16) { unsafe { opq_h16(x) } }
    fn write_u8(&mut self, x: u8) { unsafe { opq_h8(x) } }
    fn write_usize(&mut self, x: usize) { unsafe { opq_hsz(x) } }
}
'''
WORLD = W.Spec('W6', [('A', 5, ['Pa']), ('B', None, ['Pb']), ('C', 0, ['Pa', 'Pb']), ('D', None, ['Pc']), ('F', 255, ['Pa']), ('G', 127, ['Pb'])])


def all_ops(w):
    """The conversions, and the operations that mint handles."""
    mint = [o for i in range(len(w.archs)) for o in W.ops(w, i) if o.name.split('_')[0] in ('create',) or o.name.startswith('to_direct')]
    for i, o in enumerate(mint):
        o.props.add('C14')
        o.name += '_a%d' % o.kw['arch']
    return mint + ops(w)


def ops(w):
    out = []
    first = [True]

    def op(name, src, args, want, **kw):
        pre = HASHER if first[0] else ''
        first[0] = False
        out.append(W.Op('conv_' + name, pre + src, 'conv', args, 'C14', cases=('zero',), want=want, arch=0, **kw))
    E = 'gecs::error::EcsError'
    for fam, any_, ty, sel in (('y', 'EntityAny', 'Entity', 'SelectEntity'), ('z', 'EntityDirectAny', 'EntityDirect', 'SelectEntityDirect')):
        a = [fam]
        for nm, body in (('into_any', 'e.into_any()'), ('clone', 'e.clone()'), ('copy', '{ let c = e; c }')):
            op('%s_%s' % (nm, fam), 'pub fn {F}(e: %s) -> %s { %s }' % (any_, any_, body), a, 'same')
        op('aid_' + fam, 'pub fn {F}(e: %s) -> u8 { e.archetype_id() }' % any_, a, 'id')
        op('sel_' + fam, 'pub fn {F}(e: %s) -> Result<%s, %s> { e.try_into() }' % (any_, sel, E), a, 'select')
        for nm, body, want in (('eq', 'a == b', 'eq'), ('ne', 'a != b', 'ne')):
            op('%s_%s' % (nm, fam), 'pub fn {F}(a: %s, b: %s) -> bool { %s }' % (any_, any_, body), [fam, fam], want)
        op('hash_' + fam, 'pub fn {F}(e: %s) { use std::hash::Hash; e.hash(&mut Hs) }' % any_, a, 'hash')
        for i, (A, _, _) in enumerate(w.archs):
            t, u = fam + str(i), '%s<%s>' % (ty, A)
            ta = [t]
            for nm, body in (('into_any', 'e.into_any()'), ('into', 'e.into()'), ('ref', '{ let r: &%s = (&e).into(); *r }' % any_),
                             ('refmut', '{ let mut e = e; let r: &mut %s = (&mut e).into(); *r }' % any_)):
                op('%s_%s' % (nm, t), 'pub fn {F}(e: %s) -> %s { %s }' % (u, any_, body), ta, 'same')
            op('setref_' + t, 'pub fn {F}(e: %s, k: %s) -> %s { let mut e = e; { let r: &mut %s = (&mut e).into(); *r = k; } e }' % (u, any_, u, any_),
               [t, fam], 'second')
            for nm, body in (('clone', 'e.clone()'), ('copy', '{ let c = e; c }')):
                op('%s_%s' % (nm, t), 'pub fn {F}(e: %s) -> %s { %s }' % (u, u, body), ta, 'same')
            op('aid_' + t, 'pub fn {F}(e: %s) -> u8 { e.archetype_id() }' % u, ta, 'id')
            op('try_' + t, 'pub fn {F}(e: %s) -> Result<%s, %s> { e.try_into() }' % (any_, u, E), a, 'try', to=i)
            op('tryfrom_' + t, 'pub fn {F}(e: %s) -> Result<%s, %s> { %s::try_from(e) }' % (any_, u, E, u.replace('<', '::<')), a, 'try', to=i)
            op('from_any_' + t, 'pub fn {F}(e: %s) -> %s { %s::from_any(e) }' % (any_, u, u.replace('<', '::<')), a, 'from', to=i)
            op('from_any_unchecked_' + t, 'pub fn {F}(e: %s) -> %s { %s::from_any_unchecked(e) }' % (any_, u, u.replace('<', '::<')), a, 'unchecked', to=i)
            op('round_' + t, 'pub fn {F}(e: %s) -> %s { %s::from_any(e.into_any()) }' % (u, u, u.replace('<', '::<')), ta, 'same')
            op('sel_' + t, 'pub fn {F}(e: %s) -> %s { e.into() }' % (u, sel), ta, 'variant', to=i)
            op('selref_' + t, 'pub fn {F}(e: %s) -> %s { (&e).into() }' % (u, sel), ta, 'variant', to=i)
            op('selid_' + t, 'pub fn {F}(e: %s) -> u8 { SelectArchetype::from(e).archetype_id() }' % u, ta, 'id')
            for nm, body, want in (('eq', 'a == b', 'eq'), ('ne', 'a != b', 'ne')):
                op('%s_%s' % (nm, t), 'pub fn {F}(a: %s, b: %s) -> bool { %s }' % (u, u, body), [t, t], want)
            op('hash_' + t, 'pub fn {F}(e: %s) { use std::hash::Hash; e.hash(&mut Hs) }' % u, ta, 'hash')
    op('raw', 'pub fn {F}(e: EntityAny) -> (u32, u32) { e.raw() }', ['y'], 'raw')
    op('from_raw', 'pub fn {F}(r: (u32, u32)) -> Result<EntityAny, %s> { EntityAny::from_raw(r) }' % E, ['raw'], 'from_raw')
    op('roundtrip', 'pub fn {F}(e: EntityAny) -> Result<EntityAny, %s> { EntityAny::from_raw(e.raw()) }' % E, ['y'], 'ok_same')
    op('rawround', 'pub fn {F}(r: (u32, u32)) -> Option<(u32, u32)> { EntityAny::from_raw(r).ok().map(|e| e.raw()) }', ['raw'], 'rawround')
    op('selarch_y', 'pub fn {F}(e: EntityAny) -> Result<SelectArchetype, %s> { e.try_into() }' % E, ['y'], 'selarch')
    op('selarch_id', 'pub fn {F}(e: u8) -> Result<SelectArchetype, %s> { SelectArchetype::try_from(e) }' % E, ['id'], 'selarch')
    op('selarch_aid', 'pub fn {F}(e: EntityAny) -> Option<u8> { SelectArchetype::try_from(e).ok().map(|s| s.archetype_id()) }', ['y'], 'selaid')
    return out


class Conv:
    """Mixed into specs.Run: arguments and judgement of 'conv' operations."""

    def conv_args(self, st, fn):
        T = self.T
        sh = T.sh[0]
        self.keys, args = [], []
        for j, a in enumerate(self.op.args):
            ty = fn['locals'][j + 1]
            p = 'h%d.' % j
            if a == 'raw':
                k, v = new_atom('raw.key', 0, (1 << 32) - 1), new_atom('raw.version', 0, (1 << 32) - 1)
                self.keys.append((k, v, None))
                args.append(Agg([k, v]))
                continue
            if a == 'id':
                i = new_atom('id', 0, 255)
                self.keys.append((None, None, i))
                args.append(i)
                continue
            n, v = new_atom(p + 'index', 0, MAXCAP - 1), new_atom(p + 'gen', 1, VMAX)
            i = K(T.ids[int(a[1:])]) if len(a) > 1 else new_atom(p + 'id', 0, 255)
            self.keys.append((n.scale(256) + i, v, i))
            args.append(sh.mkpair(ty, n.scale(256) + i, v))
        return args

    def pair_of(self, v, ty=None):
        c = self.T.sh[0].unpair(self.T.sh[0].ent_ty, v)
        if c is None:
            raise Unsupported('handle %r' % (v,))
        return c

    def same_key(self, s, v, key, what='the result'):
        k, g = self.pair_of(v)
        need(s, Pred('eq', k - key[0]), '%s has key %r, not %r' % (what, s.n(k), s.n(key[0])))
        need(s, Pred('eq', g - key[1]), '%s has generation %r, not %r' % (what, s.n(g), s.n(key[1])))

    def error_is(self, s, e, name):
        if e == UNIT:
            return
        for t in self.P.types:
            if t['k'] == 'enum' and t['name'].split('::')[-1] == 'EcsError':
                names = [x[0] for x in t['variants']]
                if isinstance(e, En) and names[e.v] != name:
                    raise Bad('the error is %s, documented is %s' % (names[e.v], name))
                return

    def enum_is(self, s, v, what='the result'):
        if not isinstance(v, En):
            raise Unsupported('%s %r' % (what, v))
        return v

    def spec_conv(self, s):
        T, want, kw = self.T, self.op.kw['want'], self.op.kw
        key = self.keys[0]
        ids = T.ids

        def matches(s, i):
            return s.decide(Pred('eq', key[2] - ids[i]))
        if s.status != 'ret':
            if s.panic and s.panic[0] == 'client closure':
                return      # the client's Hasher

            def may(s):
                if want == 'from' and not matches(s, kw['to']):
                    return
                if want == 'unchecked' and not matches(s, kw['to']):
                    return
                raise Bad('the conversion panics: %s' % (s.panic,))
            T.ob('conv', s, may)
            return
        r = s.ret

        def f(s):
            if want == 'same':
                self.same_key(s, r, key)
            elif want == 'second':
                self.same_key(s, r, self.keys[1])
            elif want == 'raw':
                if not isinstance(r, Agg) or len(r.f) != 2:
                    raise Unsupported('raw %r' % (r,))
                need(s, Pred('eq', r.f[0] - key[0]), 'raw key is %r, not %r' % (s.n(r.f[0]), s.n(key[0])))
                need(s, Pred('eq', r.f[1] - key[1]), 'raw generation is %r, not %r' % (s.n(r.f[1]), s.n(key[1])))
            elif want == 'id':
                need(s, Pred('eq', r - key[2]), 'the archetype id is %r, not %r' % (s.n(r), s.n(key[2])))
            elif want in ('eq', 'ne'):
                k2 = self.keys[1]
                got = self.as_bool(s, r)
                same = s.decide(Pred('eq', key[0] - k2[0])) and s.decide(Pred('eq', key[1] - k2[1]))
                if got != (same == (want == 'eq')):
                    raise Bad('handles with %s data compare %s' % ('the same' if same else 'different', 'equal' if same != (got == (want == 'eq')) and not same else 'unequal'))
            elif want in ('try', 'ok_same', 'from_raw', 'select', 'selarch'):
                e = self.enum_is(s, r)
                if want == 'try':
                    ok = matches(s, kw['to'])
                elif want == 'ok_same':
                    ok = True
                elif want == 'from_raw':
                    ok = not s.decide(Pred('eq', key[1]))
                else:
                    ok = None
                    for i in range(len(ids)):
                        if matches(s, i):
                            ok = i
                if (e.v == 0) != (ok is not None and ok is not False):
                    raise Bad('the conversion %s' % ('succeeds although it must fail' if e.v == 0 else 'fails although it must succeed'))
                if e.v == 1:
                    self.error_is(s, e.f[0] if e.f else UNIT, 'InvalidRawEntity' if want == 'from_raw' else 'InvalidEntityType')
                elif want in ('try', 'ok_same', 'from_raw'):
                    self.same_key(s, e.f[0], key)
                else:
                    self.variant_is(s, e.f[0], ok, key if want == 'select' else None)
            elif want == 'variant':
                self.variant_is(s, r, kw['to'], key)
            elif want == 'selaid':
                e = self.enum_is(s, r)
                ok = any([matches(s, i) for i in range(len(ids))])
                if (e.v == 1) != ok:
                    raise Bad('SelectArchetype does%s cover this archetype id' % (' not' if ok else ''))
                if e.v == 1:
                    need(s, Pred('eq', e.f[0] - key[2]), 'SelectArchetype gives id %r, not %r' % (s.n(e.f[0]), s.n(key[2])))
            elif want == 'rawround':
                e = self.enum_is(s, r)
                z = s.decide(Pred('eq', key[1]))
                if (e.v == 1) == z:
                    raise Bad('from_raw %s a generation of %s' % ('accepts' if e.v else 'rejects', 'zero' if z else 'not zero'))
                if e.v == 1:
                    p = e.f[0]
                    need(s, Pred('eq', p.f[0] - key[0]), 'the key changes to %r' % (s.n(p.f[0]),))
                    need(s, Pred('eq', p.f[1] - key[1]), 'the generation changes to %r' % (s.n(p.f[1]),))
            elif want in ('unchecked', 'from'):
                if want == 'from' and not matches(s, kw['to']):
                    raise Bad('from_any accepts a handle of another archetype')
                if want == 'from' or matches(s, kw['to']):
                    self.same_key(s, r, key)
            elif want == 'hash':
                own = set(atoms_of(s.n(key[0]))) | set(atoms_of(s.n(key[1]))) | set(atoms_of(key[0])) | set(atoms_of(key[1]))
                n = 0
                for e in s.events:
                    if e[0] == 'loop':
                        raise Unsupported('hash in a loop')
                    if e[0] != 'call':
                        continue
                    n += 1
                    for a in e[2]:
                        if not isinstance(a, Lin):
                            raise Unsupported('hash of %r' % (a,))
                        if not set(s.n(a).atoms()) <= own:
                            raise Unsupported('hash of %r' % (s.n(a),))
                if not n:
                    raise Unsupported('nothing is hashed')
            else:
                raise Unsupported(want)
        T.ob('eqhash' if want in ('eq', 'ne', 'hash') else 'conv', s, f)

    def variant_is(self, s, v, i, key):
        """v is the variant of archetype i carrying the handle."""
        if not isinstance(v, En):
            raise Unsupported('enum %r' % (v,))
        if v.v != i:
            raise Bad('the variant is number %d, the archetype of this handle is number %d' % (v.v, i))
        if key is not None:
            self.same_key(s, v.f[0], key)
