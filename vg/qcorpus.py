"""Corpus of worlds and queries with an independent matching oracle, shared by C05 and C16.

A witness crate holds one module per world with one function per query; the closure body of query q
calls `mark::<MatchedArchetype, q>()` and `markp::<MatchedArchetype, q, i, _>(param_i)`, so the set of
monomorphic instances of those functions in the compiler's MIR is the set of archetypes the query
acts on, with the types its parameters were bound to."""
import re

MACROS = ('ecs_find', 'ecs_find_borrow', 'ecs_iter', 'ecs_iter_borrow', 'ecs_iter_destroy')
ANY = ('EntityAny', 'EntityDirectAny', 'Entity<_>', 'EntityDirect<_>')


class World:
    """archs: list of (name, [component], cfgs), component: (name, cfgs)."""

    def __init__(self, name, archs, ids=None):
        self.name, self.ids = name, ids or {}
        self.archs = [(a[0], [c if isinstance(c, tuple) else (c, ()) for c in a[1]], a[2] if len(a) > 2 else ()) for a in archs]

    def comps(self):
        out = []
        for a, cs, _ in self.archs:
            for c, _ in cs:
                if c not in out:
                    out.append(c)
        return out

    def effective(self, env):
        return [(a, [c for c, f in cs if on(f, env)]) for a, cs, fs in self.archs if on(fs, env)]

    def decl(self, env=None, only=None):
        """Source of the declaration: decorated with its cfgs, or, given env, erased by hand."""
        s = ['ecs_world! {', 'ecs_name!(%s);' % self.name]
        for a, cs, fs in self.archs:
            if env is not None:
                if not on(fs, env):
                    continue
                fs = ()
                cs = [(c, ()) for c, f in cs if on(f, env)]
            at = ''.join('#[cfg(%s)] ' % f for f in fs)
            if a in self.ids:
                at += '#[archetype_id(%d)] ' % self.ids[a]
            s.append('%secs_archetype!(%s, %s);' % (at, a, ', '.join(
                ''.join('#[cfg(%s)] ' % f for f in fc) + c for c, fc in cs)))
        s.append('}')
        return '\n'.join(s)


class Param:
    def __init__(self, kind, mut=False, cfgs=(), one=None, blank=False):
        self.kind, self.mut, self.cfgs, self.one, self.blank = kind, mut, tuple(cfgs), one, blank

    def ty(self):
        return 'OneOf<%s>' % ', '.join(self.one) if self.one else self.kind

    def show(self):
        return ''.join('#[cfg(%s)] ' % c for c in self.cfgs) + '&' + ('mut ' if self.mut else '') + self.ty()


def on(cfgs, env):
    return all(truth(c, env) for c in cfgs)


def truth(p, env):
    """Value of a cfg predicate under env (a set of enabled names)."""
    p = p.replace(' ', '')

    def parse(i):
        m = re.match(r'(any|all|not)\(', p[i:])
        if m:
            op, i, vals = m.group(1), i + m.end(), []
            while p[i] != ')':
                v, i = parse(i)
                vals.append(v)
                if p[i] == ',':
                    i += 1
            return {'any': any(vals), 'all': all(vals), 'not': not vals[0] if vals else False}[op], i + 1
        m = re.match(r'[a-z_0-9]+(="[^"]*")?', p[i:])
        return m.group(0) in env, i + m.end()
    return parse(0)[0]


def bind(archs, params):
    """Independent oracle: {archetype: [(type, ...)]} for params that exist, or a string saying why
    the query must be rejected. archs: [(name, [component])]."""
    for p in params:
        if p.one:
            for a, cs in archs:
                if sum(c in cs for c in p.one) > 1:
                    return 'ambiguous OneOf'
    out = {}
    for a, cs in archs:
        b = []
        for p in params:
            if p.one:
                t = [c for c in p.one if c in cs]
                b.append(t[0] if t else None)
            elif p.kind in ANY:
                b.append(p.kind.replace('_', a))
            elif p.kind.startswith('Entity<') or p.kind.startswith('EntityDirect<'):
                b.append(p.kind if p.kind[p.kind.index('<') + 1:-1] == a else None)
            else:
                b.append(p.kind if p.kind in cs else None)
        if None not in b:
            out[a] = b
    return out if out else 'no archetype matches'


def aliases(archs, params):
    """Does any archetype bind one component twice, once mutably?"""
    r = bind(archs, params)
    if isinstance(r, str):
        return False
    for b in r.values():
        for i, t in enumerate(b):
            for k in range(i):
                if b[k] == t and (params[i].mut or params[k].mut):
                    return True
    return False


PRELUDE = '''#![allow(dead_code, unused, non_snake_case)]
use gecs::prelude::*;
pub struct Nowhere(u64);
#[inline(never)] pub fn mark<A, const Q: usize>() {}
#[inline(never)] pub fn markp<A, T, const Q: usize, const I: usize>(_: &T) {}
'''


def query(w, q, macro, params, erased=None):
    """Source of query number q. erased: env under which to drop the cfg attributes by hand."""
    ps, body = [], ['mark::<MatchedArchetype, %d>();' % q]
    for i, p in enumerate(params):
        at = ''.join('#[cfg(%s)] ' % c for c in p.cfgs)
        if erased is not None:
            if not on(p.cfgs, erased):
                continue
            at = ''
        name = '_' if p.blank else 'p%d' % i
        ps.append('%s%s: &%s%s' % (at, name, 'mut ' if p.mut else '', p.ty()))
        if not p.blank:
            body.append('%s{ markp::<MatchedArchetype, _, %d, %d>(p%d); }' % (at, q, i, i))
    key = ('EntityAny', 'EntityDirectAny')[q % 2]
    find = macro.startswith('ecs_find')
    ref = '&' if macro.endswith('borrow') else '&mut '
    return 'pub fn w_q%d(w: %s%s%s) { %s!(w, %s|%s| { %s }); }' % (
        q, ref, w.name, ', e: ' + key if find else '', macro, 'e, ' if find else '', ', '.join(ps), ' '.join(body))


def show(w, macro, params, env=None):
    return '%s!(|%s|) over %s%s' % (macro, ', '.join(p.show() for p in params), ' '.join(
        '%s(%s)' % (''.join('#[cfg(%s)]' % f for f in fs) + a, ','.join(''.join('#[cfg(%s)]' % f for f in fc) + c for c, fc in cs)) for a, cs, fs in w.archs),
        '' if env is None else ' under cfg {%s}' % ','.join(sorted(env)))


def strip(t):
    """Type name without module paths."""
    return re.sub(r'\b(?:[A-Za-z_][A-Za-z_0-9]*::)+', '', t).replace(' ', '')


def matched(dump):
    """{query: ({archetype}, {(archetype, param index): type})} from the instances in a dump."""
    out = {}
    for f in dump['fns']:
        m = re.search(r'\bmark::<(.*), (\d+)(?:_usize)?>$', f['name'])
        if m:
            out.setdefault(int(m.group(2)), (set(), {}))[0].add(strip(m.group(1)))
            continue
        m = re.search(r'\bmarkp::<(.*), (\d+)(?:_usize)?, (\d+)(?:_usize)?>$', f['name'])
        if m:
            a, t = split2(m.group(1))
            out.setdefault(int(m.group(2)), (set(), {}))[1][(strip(a), int(m.group(3)))] = strip(t)
    return out


def split2(s):
    d = 0
    for i, c in enumerate(s):
        d += (c in '<([') - (c in '>)]')
        if c == ',' and d == 0:
            return s[:i], s[i + 1:]
    return s, ''


def one_of(rng, comps):
    one = rng.sample(comps, rng.randint(1, min(3 if rng.random() < 0.8 else 6, len(comps))))
    if rng.random() < 0.15:
        one.insert(rng.randint(0, len(one)), 'Nowhere')     # a component of no archetype
    return one


def rand_params(rng, w, n, mutp=0.3):
    comps, archs = w.comps(), [a for a, _, _ in w.archs]
    out = []
    for _ in range(n):
        r = rng.random()
        if r < 0.45:
            out.append(Param(rng.choice(comps), rng.random() < mutp))
        elif r < 0.62 and len(comps) > 1:
            out.append(Param('OneOf', rng.random() < mutp, one=one_of(rng, comps)))
        elif r < 0.72:
            out.append(Param('Entity<%s>' % rng.choice(archs)))
        elif r < 0.8:
            out.append(Param('EntityDirect<%s>' % rng.choice(archs)))
        else:
            out.append(Param(rng.choice(ANY)))
        if rng.random() < 0.1:
            out[-1].blank = True
    return out
