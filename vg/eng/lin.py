"""Linear-relation abstract domain over integers: expressions c + sum(k_i * atom_i), conjunctions of
linear (in)equalities and disequalities with a bounded Fourier-Motzkin entailment test. Atoms are
mathematical integers with an interval; machine arithmetic is reduced to them by the interpreter."""
from math import gcd

INF = None


class Atom:
    __slots__ = ('id', 'name', 'lo', 'hi', 'exact', 'keep')
    n = 0

    def __init__(self, name, lo, hi, exact=True):
        Atom.n += 1
        self.id = Atom.n
        self.name, self.lo, self.hi, self.exact = name, lo, hi, exact
        self.keep = False       # loop counters: eliminated last

    def __repr__(self):
        return '%s#%d' % (self.name, self.id)


ATOMS = {}


class Lin:
    __slots__ = ('c', 't', '_h')

    def __init__(self, c, t=()):
        self.c = c
        self.t = t  # tuple of (atom id, coeff), sorted by id
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, self.t))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self == o

    @property
    def const(self):
        return not self.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for a, k in o.t:
            v = d.get(a, 0) + k
            if v:
                d[a] = v
            else:
                del d[a]
        return Lin(self.c + o.c, tuple(sorted(d.items())))

    def __neg__(self):
        return Lin(-self.c, tuple((a, -k) for a, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return Lin(0)
        if k == 1:
            return self
        return Lin(self.c * k, tuple((a, x * k) for a, x in self.t))

    def coeff(self, aid):
        for a, k in self.t:
            if a == aid:
                return k
        return 0

    def atoms(self):
        return [a for a, _ in self.t]

    def subst(self, m):
        """m: atom id -> Lin"""
        hit = False
        for a, _ in self.t:
            if a in m:
                hit = True
                break
        if not hit:
            return self
        r = Lin(self.c, tuple((a, k) for a, k in self.t if a not in m))
        for a, k in self.t:
            if a in m:
                r = r + m[a].scale(k)
        return r

    def __repr__(self):
        s = ''
        for a, k in self.t:
            n = repr(ATOMS[a])
            s += (' + ' if k > 0 else ' - ') + (n if abs(k) == 1 else '%d*%s' % (abs(k), n))
        if self.c or not s:
            s += (' + ' if self.c >= 0 else ' - ') + str(abs(self.c))
        s = s.strip()
        return s[2:] if s.startswith('+ ') else s


def K(n):
    return Lin(n)


def new_atom(name, lo, hi, exact=True, keep=False):
    a = Atom(name, lo, hi, exact)
    a.keep = keep
    ATOMS[a.id] = a
    return Lin(0, ((a.id, 1),))


def reset():
    ATOMS.clear()
    del POOL[:]
    Atom.n = 0


def norm_ge(l):
    """Tightens l >= 0 over the integers."""
    g = 0
    for _, k in l.t:
        g = gcd(g, k)
    if g > 1:
        return Lin(l.c // g, tuple((a, k // g) for a, k in l.t))
    return l


class Facts:
    """Immutable conjunction. eqs: solved substitution atom -> Lin (fully reduced); ges: tuple of Lin >= 0;
    nes: tuple of Lin != 0. Interval bounds of atoms are in bnd (atom -> (lo, hi)), refining the Atom's."""
    __slots__ = ('eqs', 'ges', 'nes', 'bnd', 'bad', 'cache')

    def __init__(self, eqs=None, ges=(), nes=(), bnd=None, bad=False):
        self.eqs = eqs or {}
        self.ges = ges
        self.nes = nes
        self.bnd = bnd or {}
        self.bad = bad
        self.cache = {}

    def n(self, l):
        return l.subst(self.eqs) if self.eqs else l

    def bounds(self, a):
        b = self.bnd.get(a)
        if b is None:
            x = ATOMS[a]
            return x.lo, x.hi
        return b

    def interval(self, l):
        lo = hi = l.c
        for a, k in l.t:
            al, ah = self.bounds(a)
            if k > 0:
                lo = None if lo is None or al is None else lo + k * al
                hi = None if hi is None or ah is None else hi + k * ah
            else:
                lo = None if lo is None or ah is None else lo + k * ah
                hi = None if hi is None or al is None else hi + k * al
        return lo, hi

    # -- adding ---------------------------------------------------------------
    def add_ge(self, l):
        l = norm_ge(self.n(l))
        if self.bad:
            return self
        if l.const:
            return self if l.c >= 0 else Facts(bad=True)
        lo, hi = self.interval(l)
        if lo is not None and lo >= 0:
            return self
        if hi is not None and hi < 0:
            return Facts(bad=True)
        if len(l.t) == 1:
            (a, k), = l.t
            al, ah = self.bounds(a)
            if k > 0:
                v = -(l.c // k)     # ceil(-c/k)
                al = v if al is None or v > al else al
            else:
                v = l.c // (-k)
                ah = v if ah is None or v < ah else ah
            if al is not None and ah is not None and al > ah:
                return Facts(bad=True)
            b = dict(self.bnd)
            b[a] = (al, ah)
            f = Facts(self.eqs, self.ges, self.nes, b)
            if al is not None and al == ah:
                return f._add_sub(a, Lin(al))
            return f._shrink(a)
        for g in self.ges:
            if g.t == l.t:
                if g.c <= l.c:
                    return self
                r = Facts(self.eqs, tuple(x for x in self.ges if x is not g) + (l,), self.nes, self.bnd)
                return r._opp(l)
        return Facts(self.eqs, self.ges + (l,), self.nes, self.bnd)._opp(l)

    def _opp(self, l):
        """An opposite inequality turns into an equality."""
        m = tuple((a, -k) for a, k in l.t)
        for g in self.ges:
            if g.t == m:
                s = g.c + l.c
                if s < 0:
                    return Facts(bad=True)
                if s == 0:
                    return self.add_eq(l)
                break
        # disequalities at the edge
        for d in self.nes:
            if d.t == l.t or d.t == m:
                if d.t == m:
                    d2 = -d
                else:
                    d2 = d
                # l >= 0, d2 = l + k != 0
                if d2.c == l.c:
                    return Facts(self.eqs, self.ges, tuple(x for x in self.nes if x is not d), self.bnd).add_ge(l - 1)
        return self

    def _shrink(self, a):
        f = self
        for d in self.nes:
            if len(d.t) == 1 and d.t[0][0] == a:
                k = d.t[0][1]
                if d.c % k == 0:
                    v = -d.c // k
                    lo, hi = f.bounds(a)
                    if lo == v:
                        return Facts(f.eqs, f.ges, tuple(x for x in f.nes if x is not d), f.bnd).add_ge(Lin(-v - 1, ((a, 1),)))
                    if hi == v:
                        return Facts(f.eqs, f.ges, tuple(x for x in f.nes if x is not d), f.bnd).add_ge(Lin(v - 1, ((a, -1),)))
        return f

    def _add_sub(self, a, e):
        """Adds a = e (e does not mention a, both reduced)."""
        m = {a: e}
        eqs = {k: v.subst(m) for k, v in self.eqs.items()}
        eqs[a] = e
        al, ah = self.bounds(a)
        b = dict(self.bnd)
        b.pop(a, None)
        f = Facts(eqs, (), (), b)
        if al is not None:
            f = f.add_ge(e - al)
        if ah is not None:
            f = f.add_ge(Lin(ah) - e)
        for g in self.ges:
            if f.bad:
                return f
            f = f.add_ge(g)
        for d in self.nes:
            if f.bad:
                return f
            f = f.add_ne(d)
        return f

    def add_eq(self, l):
        if self.bad:
            return self
        l = self.n(l)
        if l.const:
            return self if l.c == 0 else Facts(bad=True)
        g = 0
        for _, k in l.t:
            g = gcd(g, k)
        if g > 1:
            if l.c % g:
                return Facts(bad=True)
            l = Lin(l.c // g, tuple((a, k // g) for a, k in l.t))
        # newest atom with a unit coefficient; prefer eliminating late atoms
        best = None
        for a, k in reversed(l.t):
            if abs(k) == 1 and (best is None or not ATOMS[a].keep):
                best = (a, k)
                if not ATOMS[a].keep:
                    break
        if best is None:
            return self.add_ge(l).add_ge2(-l)
        a, k = best
        rest = Lin(l.c, tuple(x for x in l.t if x[0] != a))
        e = rest.scale(-k)
        return self._add_sub(a, e)

    def add_ge2(self, l):
        return Facts(self.eqs, self.ges + (norm_ge(self.n(l)),), self.nes, self.bnd, self.bad)

    def add_ne(self, l):
        if self.bad:
            return self
        l = self.n(l)
        if l.const:
            return self if l.c != 0 else Facts(bad=True)
        lo, hi = self.interval(l)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return self
        g = 0
        for _, k in l.t:
            g = gcd(g, k)
        if g > 1 and l.c % g:
            return self
        if g > 1:
            l = Lin(l.c // g, tuple((a, k // g) for a, k in l.t))
        if lo == 0:
            return self.add_ge(l - 1)
        if hi == 0:
            return self.add_ge(-l - 1)
        m = -l
        if l in self.nes or m in self.nes:
            return self
        for q in self.ges:
            if q.t == l.t and q.c == l.c:
                return self.add_ge(l - 1)
            if q.t == m.t and q.c == m.c:
                return self.add_ge(m - 1)
        return Facts(self.eqs, self.ges, self.nes + (l,), self.bnd)

    # -- entailment -----------------------------------------------------------
    def implies_ge(self, l):
        """True when the facts entail l >= 0 (over the integers); False means 'not shown'."""
        if self.bad:
            return True
        l = self.n(l)
        lo, hi = self.interval(l)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return self.infeasible()
        key = ('g', l)
        r = self.cache.get(key)
        if r is None:
            f = self.add_ge(-l - 1)
            r = f.bad or f.infeasible(l.atoms())
            self.cache[key] = r
        return r

    def implies_eq(self, l):
        l = self.n(l)
        if l.const:
            return l.c == 0 or self.bad
        return self.implies_ge(l) and self.implies_ge(-l)

    def implies_ne(self, l):
        l = self.n(l)
        if l.const:
            return l.c != 0 or self.bad
        lo, hi = self.interval(l)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return True
        if l in self.nes or -l in self.nes:
            return True
        key = ('n', l)
        r = self.cache.get(key)
        if r is None:
            f = self.add_eq(l)
            r = f.bad or f.infeasible(l.atoms())
            self.cache[key] = r
        return r

    def infeasible(self, seed=None):
        """True when the conjunction is shown to have no integer solution."""
        if self.bad:
            return True
        key = ('inf', None if seed is None else frozenset(seed))
        r = self.cache.get(key)
        if r is None:
            r = self._infeasible(seed)
            self.cache[key] = r
        return r

    def _component(self, seed):
        cons = [norm_ge(g) for g in self.ges]
        nes = list(self.nes)
        if seed is None:
            return cons, nes
        seen = set()
        for a in seed:
            if a in self.eqs:
                seen.update(self.eqs[a].atoms())
            else:
                seen.add(a)
        pc, pn = cons, nes
        rc, rn = [], []
        ch = True
        while ch:
            ch = False
            rest = []
            for g in pc:
                if any(a in seen for a, _ in g.t):
                    rc.append(g)
                    seen.update(g.atoms())
                    ch = True
                else:
                    rest.append(g)
            pc = rest
            rest = []
            for g in pn:
                if all(a in seen for a, _ in g.t):
                    rn.append(g)
                else:
                    rest.append(g)
            pn = rest
        return rc, rn

    def _infeasible(self, seed):
        cons, nes = self._component(seed)
        if find_model(cons, nes, self):
            return False
        if fm(cons, self, nes):
            return True
        if nes and find_model(cons, nes, self):
            return False
        # disequalities: tighten those whose one side is excluded
        if not nes:
            return False
        work = list(nes)
        for _ in range(3):
            ch = False
            rest = []
            for d in work:
                up = shown(cons + [-d - 1], self)      # d < 0 impossible -> d >= 0 -> d >= 1
                if up:
                    cons = cons + [d - 1]
                    ch = True
                    if fm(cons, self):
                        return True
                    continue
                dn = shown(cons + [d - 1], self)
                if dn:
                    cons = cons + [-d - 1]
                    ch = True
                    if fm(cons, self):
                        return True
                    continue
                rest.append(d)
            work = rest
            if not ch:
                break
        return False

    def project(self, keep):
        """Linear consequences that mention only the atoms in keep (Fourier-Motzkin elimination)."""
        return None


LIMIT = 600
POOL = []       # integer points that satisfied recent conjunctions; tried first as models of the next ones
POOLSIZE = 24


def satisfies(pt, cons, nes, facts, atoms):
    bounds = facts.bounds
    val = {}
    for a in atoms:
        v = pt.get(a)
        lo, hi = bounds(a)
        if v is None:
            v = lo if lo is not None else (hi if hi is not None and hi < 0 else 0)
        elif (lo is not None and v < lo) or (hi is not None and v > hi):
            return False
        val[a] = v
    for l in cons:
        x = l.c
        for a, k in l.t:
            x += k * val[a]
        if x < 0:
            return False
    for l in nes:
        x = l.c
        for a, k in l.t:
            x += k * val[a]
        if x == 0:
            return False
    return True


def atoms_of_cons(cons, nes):
    s = set()
    for l in cons:
        for a, _ in l.t:
            s.add(a)
    for l in nes:
        for a, _ in l.t:
            s.add(a)
    return s


def find_model(cons, nes, facts):
    atoms = atoms_of_cons(cons, nes)
    for i, pt in enumerate(POOL):
        if satisfies(pt, cons, nes, facts, atoms):
            if i > 4:
                del POOL[i]
                POOL.insert(0, pt)
            return True
    return False


def shown(cons, facts):
    return not find_model(cons, (), facts) and fm(cons, facts)


def keep_point(pt):
    POOL.insert(0, pt)
    if len(POOL) > POOLSIZE:
        POOL.pop()


def fm(cons, facts, nes=()):
    """True when the conjunction of the given constraints (>= 0) with the atoms' intervals is shown infeasible."""
    rows = {}
    atoms = set()

    def put(l):
        l = norm_ge(l)
        if not l.t:
            return l.c >= 0
        o = rows.get(l.t)
        if o is None or l.c < o:
            rows[l.t] = l.c
        return True

    for l in cons:
        if not put(l):
            return True
        atoms.update(a for a, _ in l.t)
    for a in list(atoms):
        lo, hi = facts.bounds(a)
        if lo is not None:
            put(Lin(-lo, ((a, 1),)))
        if hi is not None:
            put(Lin(hi, ((a, -1),)))
    every = list(atoms)
    elim = []
    exact = True
    # rows by atom: atom -> {terms: coefficient}
    pos = {a: {} for a in atoms}
    neg = {a: {} for a in atoms}
    for t in rows:
        for a, k in t:
            (pos if k > 0 else neg)[a][t] = k
    while atoms:
        best, bc = None, None
        for a in atoms:
            p, q = len(pos[a]), len(neg[a])
            c = p * q - p - q
            if bc is None or c < bc:
                best, bc = a, c
        atoms.discard(best)
        P = [(k, Lin(rows[t], t)) for t, k in pos[best].items()]
        N = [(-k, Lin(rows[t], t)) for t, k in neg[best].items()]
        elim.append((best, P, N))
        for k, l in P + N:
            del rows[l.t]
            for a, k2 in l.t:
                if a != best:
                    (pos if k2 > 0 else neg)[a].pop(l.t, None)
        if len(P) * len(N) + len(rows) > LIMIT:
            # too large: drop the combination (sound: fewer constraints)
            P, N = P[:20], N[:20]
        for kp, p in P:
            for kn, q in N:
                if kp == 1 and kn == 1:
                    l = norm_ge(p + q)
                else:
                    g = gcd(kp, kn)
                    l = norm_ge(p.scale(kn // g) + q.scale(kp // g))
                t = l.t
                if not t:
                    if l.c < 0:
                        return True
                    continue
                o = rows.get(t)
                if o is None:
                    rows[t] = l.c
                    for a, k in t:
                        (pos if k > 0 else neg)[a][t] = k
                elif l.c < o:
                    rows[t] = l.c
    # not shown infeasible: look for integer points, by back substitution
    for pol in (0, 1, 2):
        val = {}
        for a, P, N in reversed(elim):
            lo = hi = None
            for k, l in P:
                x = l.c
                for b, kb in l.t:
                    if b != a:
                        x += kb * val[b]
                v = -(x // k)
                if lo is None or v > lo:
                    lo = v
            for k, l in N:
                x = l.c
                for b, kb in l.t:
                    if b != a:
                        x += kb * val[b]
                v = x // k
                if hi is None or v < hi:
                    hi = v
            if lo is None:
                lo = hi if hi is not None else 0
            if hi is None:
                hi = lo + 64
            if lo > hi:
                break
            if pol == 0:
                # apart from one another, so that disequalities hold
                v = min(hi, lo + len(val) % 7)
            elif pol == 1:
                v = max(lo, hi - len(val) % 5)
            else:
                v = min(hi, lo + (hi - lo) // 2 + len(val) % 3)
            val[a] = v
        else:
            if satisfies(val, cons, (), facts, every):
                keep_point(val)
    return False
