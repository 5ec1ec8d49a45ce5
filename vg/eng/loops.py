"""Loop summaries by induction.

At a loop header the interpreter either unrolls (every iteration's continuation is decided: constant trip counts),
or looks for an inductive description of the state at the start of iteration n: integer leaves v0 + d*n (or an
unknown value of the type, marked inexact), arrays extended by a range of per-iteration writes, the log of effects
extended by n copies of the iteration's effects. The description is verified on one generic iteration from the
generic state; what does not verify is generalised, and the loop is reported as not understood if nothing does."""
from .lin import Lin, K, new_atom, ATOMS
from .values import *
from .interp import Unsupported, UBError, Split, MISSING

UNROLL = 34


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'sw':
        return [b for _, b in t[2]] + [t[3]]
    if k == 'call':
        r = [] if t[4] is None else [t[4]]
        if isinstance(t[5], int) and t[5] >= 0:
            r.append(t[5])
        return r
    if k == 'drop':
        r = [t[2]]
        if isinstance(t[3], int) and t[3] >= 0:
            r.append(t[3])
        return r
    if k == 'assert':
        r = [t[4]]
        if isinstance(t[5], int) and t[5] >= 0:
            r.append(t[5])
        return r
    return []


def find_loops(fn):
    body = fn['body']
    n = len(body)
    sc = [succs(b[1]) for b in body]
    # dominators (iterative)
    order, seen = [], set()
    stack = [(0, iter(sc[0]))]
    seen.add(0)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(sc[s])))
                break
        else:
            order.append(b)
            stack.pop()
    order.reverse()
    preds = {b: [] for b in order}
    for b in order:
        for s in sc[b]:
            preds[s].append(b)
    dom = {b: set(order) for b in order}
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = set.intersection(*[dom[p] for p in preds[b]]) | {b} if preds[b] else {b}
            if new != dom[b]:
                dom[b] = new
                ch = True
    loops = {}
    for b in order:
        for s in sc[b]:
            if s in dom[b]:
                body_ = {s}
                work = [b]
                while work:
                    x = work.pop()
                    if x not in body_:
                        body_.add(x)
                        work.extend(preds[x])
                loops[s] = loops.get(s, set()) | body_
    return loops


# -- liveness of locals ------------------------------------------------------------

def place_uses(pl, use, addr):
    if len(pl) > 1:
        use.add(pl[0])
        for e in pl[1:]:
            if isinstance(e, list) and e[0] == 'i':
                use.add(e[1])


def op_uses(o, use):
    if o and o[0] in ('c', 'm'):
        use.add(o[1][0])
        place_uses(o[1], use, None)


def rv_uses(r, use, addr):
    k = r[0]
    if k in ('ref', 'addr', 'reb'):
        pl = r[2] if k != 'reb' else r[3]
        use.add(pl[0])
        place_uses(pl, use, None)
        if '*' not in pl[1:]:
            addr.add(pl[0])
    elif k in ('disc', 'len'):
        use.add(r[1][0])
        place_uses(r[1], use, None)
    else:
        for x in r[1:]:
            if isinstance(x, list):
                if x and x[0] in ('c', 'm') and isinstance(x[1], list):
                    op_uses(x, use)
                else:
                    for y in x:
                        if isinstance(y, list) and y and y[0] in ('c', 'm') and len(y) > 1 and isinstance(y[1], list):
                            op_uses(y, use)


def live_in(I, fn):
    r = I.P._live.get(fn['id'])
    if r is not None:
        return r
    body = fn['body']
    addr = set()
    gen, kill = [], []
    for b in body:
        g, k = set(), set()
        def use(s):
            g.update(s - k)
        for s in b[0]:
            u = set()
            if s[0] == '=':
                rv_uses(s[2], u, addr)
                pl = s[1]
                if len(pl) > 1:
                    u.add(pl[0])
                    place_uses(pl, u, None)
                use(u)
                if len(pl) == 1:
                    k.add(pl[0])
            elif s[0] in ('live', 'dead'):
                k.add(s[1])
            else:
                for x in s[1:]:
                    if isinstance(x, list) and x and x[0] in ('c', 'm') and isinstance(x[1], list):
                        op_uses(x, u)
                    elif isinstance(x, list) and x and isinstance(x[0], int) and s[0] == 'setd':
                        u.add(x[0])
                use(u)
        t = b[1]
        u = set()
        if t[0] == 'sw' or t[0] == 'assert':
            op_uses(t[1], u)
        elif t[0] == 'call':
            if isinstance(t[1], list):
                op_uses(t[1][1], u)
            for o in t[2]:
                op_uses(o, u)
            if len(t[3]) > 1:
                u.add(t[3][0])
                place_uses(t[3], u, None)
        elif t[0] == 'drop':
            u.add(t[1][0])
            place_uses(t[1], u, None)
            addr.add(t[1][0]) if len(t[1]) == 1 else None
        elif t[0] == 'ret':
            u.add(0)
        use(u)
        if t[0] == 'call' and len(t[3]) == 1:
            k.add(t[3][0])
        gen.append(g)
        kill.append(k)
    live = [set() for _ in body]
    ch = True
    while ch:
        ch = False
        for i in range(len(body) - 1, -1, -1):
            out = set()
            for s in succs(body[i][1]):
                out |= live[s]
            n = gen[i] | (out - kill[i])
            if n != live[i]:
                live[i] = n
                ch = True
    I.P._live[fn['id']] = (live, addr)
    return live, addr


# -- leaves --------------------------------------------------------------------------
SAME = object()


class Mismatch(Exception):
    pass


def generalise(I, st, a, b, ty_hint, path, plan):
    """Records in plan how leaf values a (header) and b (back edge) differ: path -> ('lin', delta) / ('any',)."""
    if a is b or a == b:
        return
    if isinstance(a, Lin) and isinstance(b, Lin):
        d = st.n(b - a)
        if d.const and d.c == 0:
            return
        plan[path] = ('lin', d.c) if d.const else ('any',)
        return
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a.f) == len(b.f):
        for i, (x, y) in enumerate(zip(a.f, b.f)):
            generalise(I, st, x, y, None, path + (i,), plan)
        return
    if isinstance(a, En) and isinstance(b, En) and a.v == b.v:
        for i, (x, y) in enumerate(zip(a.f, b.f)):
            generalise(I, st, x, y, None, path + (i,), plan)
        return
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and len(a.path) == len(b.path):
        for i, (x, y) in enumerate(zip(a.path, b.path)):
            if x == y:
                continue
            if x[0] == 'x' and y[0] == 'x':
                generalise(I, st, x[1], y[1], None, path + (('p', i),), plan)
            else:
                raise Mismatch('pointer moved')
        if a.meta != b.meta:
            generalise(I, st, a.meta, b.meta, None, path + ('meta',), plan)
        if a.addr != b.addr:
            generalise(I, st, a.addr, b.addr, None, path + ('addr',), plan)
        return
    if isinstance(a, VecV) and isinstance(b, VecV) and a.obj == b.obj:
        generalise(I, st, a.len, b.len, None, path + ('len',), plan)
        return
    if isinstance(a, (bool, Pred)) and isinstance(b, (bool, Pred)):
        plan[path] = ('bool',)
        return
    plan[path] = ('other',)


def rebuild(v, path, k, f):
    if k == len(path):
        return f(v)
    s = path[k]
    if isinstance(v, Agg):
        g = list(v.f)
        g[s] = rebuild(g[s], path, k + 1, f)
        return Agg(g)
    if isinstance(v, En):
        g = list(v.f)
        g[s] = rebuild(g[s], path, k + 1, f)
        return En(v.v, g)
    if isinstance(v, Ptr):
        if s == 'meta':
            return Ptr(v.obj, v.path, rebuild(v.meta, path, k + 1, f), v.addr)
        if s == 'addr':
            return Ptr(v.obj, v.path, v.meta, rebuild(v.addr, path, k + 1, f))
        p = list(v.path)
        p[s[1]] = ('x', rebuild(p[s[1]][1], path, k + 1, f))
        return Ptr(v.obj, p, v.meta, v.addr)
    if isinstance(v, VecV):
        return VecV(v.obj, rebuild(v.len, path, k + 1, f))
    raise Unsupported('loop-carried value %r' % (v,))


def getleaf(v, path):
    for s in path:
        if isinstance(v, (Agg, En)):
            v = v.f[s]
        elif isinstance(v, Ptr):
            v = v.meta if s == 'meta' else v.addr if s == 'addr' else v.path[s[1]][1]
        elif isinstance(v, VecV):
            v = v.len
    return v


def clean_header(I, st, fr, header):
    """Forgets locals that are dead at the header."""
    live, addr = live_in(I, fr.fn)
    lv = live[header]
    for l in range(len(fr.fn['locals'])):
        if l not in lv and l not in addr and (fr.fid, l) in st.mem:
            st.mem[(fr.fid, l)] = UN


def summarise(I, st, fr, header, body, base, stop):
    depth = len(st.frames)
    clean_header(I, st, fr, header)
    fid = fr.fid

    def lstop(s, f, bb):
        if f is None:
            return 'unwind' if len(s.frames) < depth else None
        if f.fid == fid:
            if bb == header:
                return 'back'
            if bb not in body:
                return 'exit'
        return None

    # 1. bounded unrolling while the continuation is decided
    if header not in fr.active:
        fr.active = fr.active + (header,)
    cur, peeled = st, []
    for it in range(UNROLL):
        res = probe(I, cur, depth, lstop)
        backs = [s for s in res if s.status == 'back']
        if not backs:
            return [cur]
        for b in backs:
            clean_header(I, b, b.frames[depth - 1], header)
        peeled.append((cur, backs))
        rest = [s for s in res if s.status not in ('back', 'abort', 'lback')]
        if rest or len(backs) != 1 or it == UNROLL - 1:
            break
        nxt = backs[0].copy()
        nxt.status = None
        nxt.reads = cur.reads
        cur = nxt
    # 2. induction from the first iteration, or after peeling one
    err = None
    for cur, backs in peeled[:2] if not I.unroll else ():
        try:
            if I.hooks is not None:
                r = I.hooks.loop(I, cur, header, body, depth, fid, lstop, backs)
                if r is not None:
                    return r
            return induct(I, cur, header, depth, lstop, backs, fid)
        except Unsupported as e:
            err = err or e
    # 3. no summary: the first iterations are followed one by one, the rest stays undecided
    if (I.peel or I.unroll) and not (I.hooks is not None and getattr(I.hooks, 'nopeel', False)):
        st.ghost['peel', fid, header] = (I.peel, str(err)[:200])
        return [st]
    raise err


def probe(I, st, depth, lstop):
    p = st.copy()
    p.reads = []
    res = I.explore(p, depth, lstop)
    for s in res:
        if s.status == 'unsup':
            raise Unsupported('in a loop: %s' % s.why)
    return res


def canon(st, v):
    """Pointers to the start of an array, written as pointers to its element 0."""
    if isinstance(v, Ptr):
        if not v.path and v.obj is not None and isinstance(st.mem.get(v.obj), Arr):
            return Ptr(v.obj, (('x', K(0)),), v.meta, v.addr)
        return v
    if isinstance(v, (Agg, En)):
        f = [canon(st, x) for x in v.f]
        if all(x is y for x, y in zip(f, v.f)):
            return v
        return Agg(f) if isinstance(v, Agg) else En(v.v, f)
    return v


class Hyp:
    def __init__(self):
        self.plan = {}      # (obj, leaf path) -> ('lin', d) | ('any',) | ('bool',)
        self.arr = {}       # obj -> [(i0, k, template)] in terms of PN
        self.ev = []        # alternatives: tuples of event templates in terms of PN
        self.heads = []     # predicates in terms of PN that hold whenever another iteration starts
        self.pn = new_atom('m', 0, 1 << 40, keep=True)
        self.pid = self.pn.t[0][0]
        self.why = None
        self.inexact = False
        self.retry = 0


def induct(I, cur, header, depth, lstop, backs, fid):
    h = Hyp()
    raw = {}
    for b in backs:
        for obj, v in b.mem.items():
            if isinstance(cur.mem.get(obj), Raw) and isinstance(v, Arr):
                raw[obj] = v.with_log(())
    for obj, v in raw.items():
        cur.mem[obj] = v
    for t in [cur] + backs:
        for obj, v in list(t.mem.items()):
            if isinstance(v, (Agg, En, Ptr)):
                w = canon(t, v)
                if w is not v:
                    t.mem[obj] = w
    phase = Phase(I, fid, header)
    backs = phase.keep(cur, backs, True)
    for b in backs:
        collect(I, cur, b, h.plan)
    for attempt in range(12):
        n = new_atom('n', 0, 1 << 40, keep=True)
        gens = generic(I, cur, h, n)
        mark = max(ATOMS) if ATOMS else 0
        gb = []
        for g in gens:
            if g.facts.infeasible():
                continue
            bs = []
            for s in probe(I, g, depth, lstop):
                if s.status == 'back':
                    clean_header(I, s, s.frames[depth - 1], header)
                    bs.append(s)
            gb.extend((g, s) for s in phase.keep(g, bs))
        h2 = refine(I, cur, h, n, mark, gb)
        if h2:
            break
    else:
        raise Unsupported('no loop invariant found (%r)' % (h.why,))
    n = new_atom('n', 0, 1 << 40, keep=True)
    out = []
    for g in generic(I, cur, h, n):
        if not g.facts.infeasible():
            if h.inexact and not g.n(n).const:
                g.inexact = g.inexact + ('loop',)
            phase.record(cur, g)
            out.append(g)
    return out


class Phase:
    """Loops that run in phases (a cursor that moves on from one range to the next): a leaf with a constant value that some
    iterations keep and others change to another constant. The summary covers the iterations that keep it; one that
    changes it enters the loop anew."""
    LIMIT = 12

    def __init__(self, I, fid, header):
        self.on = getattr(I, 'phases', False)
        self.fid, self.header = fid, header
        self.leaves = set()

    def keep(self, cur, backs, first=False):
        if not self.on:
            return backs
        moved = [set(const_moves(cur, b)) for b in backs]
        if first:
            # what every iteration changes is a counter
            every = set.intersection(*moved) if moved else set()
            for m in moved:
                self.leaves |= m - every
        else:
            for m in moved:
                self.leaves |= {x for x in m if x not in self.counters}
        if first:
            self.counters = set().union(*moved) - self.leaves if moved else set()
        return [b for b, m in zip(backs, moved) if not (m & self.leaves)]

    def record(self, cur, g):
        k = ('phase', self.fid, self.header)
        old = g.ghost.get(k)
        if not self.leaves and not old:
            return
        for obj, path, _ in old[1] if old else ():
            self.leaves.add((obj, path))
        c = (old[0] if old else 0) + 1
        if c > self.LIMIT:
            raise Unsupported('a loop with too many phases')
        g.ghost[k] = (c, tuple((obj, path, constant(cur, getleaf(cur.mem[obj], path))) for obj, path in sorted(self.leaves, key=repr)))


def constant(st, v):
    if isinstance(v, Lin):
        v = st.n(v)
        return v.c if v.const else None
    if isinstance(v, bool):
        return v
    return None


def const_moves(a, b):
    """The leaves that hold one constant in a and another in b."""
    for obj, v in b.mem.items():
        o = a.mem.get(obj, MISSING)
        if o is v or o is MISSING or isinstance(v, (Arr, Raw, Freed)) or isinstance(o, (Arr, Raw, Freed)):
            continue
        p = {}
        try:
            generalise(None, b, o, v, None, (), p)
        except Mismatch:
            continue
        for path, d in p.items():
            # positions of pointers are counters
            if d[0] == 'other' or any(isinstance(x, tuple) or x in ('meta', 'addr') for x in path):
                continue
            x, y = constant(a, getleaf(o, path)), constant(b, getleaf(v, path))
            if x is not None and y is not None and x != y:
                yield obj, path


def phase_moved(st, ph):
    for obj, path, c in ph[1]:
        if obj not in st.mem:
            raise Unsupported('the phase of a loop is lost')
        x = constant(st, getleaf(st.mem[obj], path))
        if x is None:
            raise Unsupported('the phase of a loop is not constant')
        if x != c:
            return True
    return False


def refine(I, cur, h, n, mark, gb):
    """Compares the hypothesis with one generic iteration; True when it is inductive."""
    ok = True
    nid = n.t[0][0]
    to_pn = {nid: h.pn}
    pinned = [(g, s) for g, s in gb if g.n(n).const]
    free = [(g, s) for g, s in gb if not g.n(n).const]
    if not free:
        pinned, free = [], gb
    # conditions common to all back edges
    each = []
    for g, s in free:
        c = []
        for p in s.conds[len(g.conds):]:
            l = p.l
            if any(a > mark for a in l.atoms()):
                l = s.n(l)
                if any(a > mark for a in l.atoms()):
                    continue
            c.append(Pred(p.op, l.subst(to_pn)))
        each.append(c)
    heads = []
    for c in each:
        for p in c:
            if p not in heads and all(p in d or s.test(Pred(p.op, p.l.subst({h.pid: n}))) is True for d, (g, s) in zip(each, free)):
                heads.append(p)
    heads = [strengthen(cur, p, h.pid) for p in heads]
    heads = [p for p in heads if p is not None]
    # what was assumed of the previous iteration and is implied again, without having been tested
    kept = [p for p in h.heads if p not in heads and free and
            all(s.test(Pred(p.op, p.l.subst({h.pid: n}))) is True for g, s in free)]
    heads = [p for p in h.heads if p in heads or p in kept] + [p for p in heads if p not in h.heads]
    for g, s in pinned:
        heads = [p for p in heads if s.test(Pred(p.op, p.l.subst({h.pid: g.n(n)}))) is True]
    h.inexact = not complete(cur, h, n, heads, each, free)
    if heads != h.heads:
        h.why = ('heads', h.heads, heads)
        h.heads = heads
        ok = False
        h.retry += 1
        if h.retry <= 3:
            # the iteration may be different once it knows the condition of the one before
            return False
    for g, s in gb:
        np = {}
        collect(I, g, s, np)
        for key in set(np) | set(h.plan):
            d, o = np.get(key), h.plan.get(key)
            if d is None:
                # unchanged although the hypothesis says it changes
                if o[0] == 'lin':
                    h.plan[key] = ('any',)
                    ok = False
                continue
            if o is None:
                h.plan[key] = d
                ok = False
            elif o != d and o[0] == 'lin':
                h.plan[key] = ('any',) if d[0] in ('lin', 'any') else d
                ok = False
    # array writes
    arr, ev = None, []
    for g, s in free:
        sym = Symbolizer(I, s, n, mark, to_pn, cur)
        a1 = {}
        for obj, v in s.mem.items():
            o = g.mem.get(obj)
            if isinstance(v, Arr) and isinstance(o, Arr) and v.log != o.log:
                if v.log[:len(o.log)] != o.log:
                    raise Unsupported('a loop rewrites the cells of earlier iterations')
                ws = []
                for e in v.log[len(o.log):]:
                    if e[0] != 'w':
                        raise Unsupported('range write in a loop')
                    ix = sym.index(e[1])
                    k = ix.coeff(nid)
                    i0 = ix.subst({nid: K(0)})
                    if k not in (1, -1) or any(x > mark for x in i0.atoms()):
                        raise Unsupported('a loop writes to an index that does not follow its counter')
                    ws.append((i0, k, sym.sym(e[2])))
                a1[obj] = ws
        if arr is None:
            arr = a1
        elif arr != a1:
            raise Unsupported('iterations write different cells')
        t = tuple(sym.sym(e) for e in s.events[len(g.events):])
        if t and t not in ev:
            ev.append(t)
        elif not t and gb and () not in ev:
            ev.append(())
    arr = arr or {}
    for g, s in pinned:
        check_pinned(I, g, s, n, h.pid, arr, ev)
    if arr != h.arr:
        h.why = ('arr', h.arr, arr)
        h.arr = arr
        ok = False
    if ev == [()]:
        ev = []
    if ev != h.ev:
        h.why = ('ev', h.ev, ev)
        h.ev = ev
        ok = False
    return ok


def complete(cur, h, n, heads, each, free):
    """Whether the heads describe exactly when another iteration starts: the iterations' further conditions are
    exhaustive, and what is assumed of the last iteration was so in all earlier ones."""
    for p in heads:
        k = p.l.coeff(h.pid)
        if k and p.op == 'ne':
            return False
        if k > 0 and p.op == 'ge' and cur.test(Pred('ge', p.l.subst({h.pid: K(0)}))) is not True:
            return False
    if not free:
        return True
    rest = []
    for c, (g, s) in zip(each, free):
        d = [q for q in (Pred(p.op, p.l.subst({h.pid: n})) for p in c if p not in heads)]
        if not d:
            return True
        rest.append(d)
    base = free[0][0].copy()
    for p in heads:
        base.assume(Pred(p.op, p.l.subst({h.pid: n})))
    left = [64]

    def covered(s, i):
        # some alternative holds in every case
        left[0] -= 1
        if s.facts.infeasible():
            return True
        if i == len(rest) or left[0] < 0:
            return False
        for q in rest[i]:
            if s.test(q) is True:
                continue
            t = s.copy()
            t.assume(q.neg())
            if not covered(t, i + 1):
                return False
        return True
    return covered(base, 0)


def check_pinned(I, g, s, n, pid, arr, ev):
    """An iteration with a known number must be an instance of the templates."""
    m = g.n(n)
    try:
        objs = set(arr)
        for obj, v in s.mem.items():
            o = g.mem.get(obj)
            if isinstance(v, Arr) and isinstance(o, Arr) and v.log != o.log:
                objs.add(obj)
        for obj in objs:
            v, o = s.mem.get(obj), g.mem.get(obj)
            new = v.log[len(o.log):]
            ws = arr.get(obj, ())
            if v.log[:len(o.log)] != o.log or len(new) != len(ws):
                raise Unsupported('iterations write different cells')
            for e, (i0, k, t) in zip(new, ws):
                if e[0] != 'w' or not s.facts.implies_eq(e[1] - i0 - m.scale(k)) or \
                        normal(s, instantiate(I, s.copy(), t, pid, m)) != normal(s, e[2]):
                    raise Unsupported('iterations write different cells')
        t = normal(s, s.events[len(g.events):])
        for a in ev or [()]:
            if normal(s, instantiate(I, s.copy(), a, pid, m)) == t:
                break
        else:
            raise Unsupported('the first iteration has other effects (%r / %r)' % (t, ev))
    except Split:
        raise Unsupported('the first iteration differs')


def normal(s, v):
    if isinstance(v, Lin):
        return s.n(v)
    if isinstance(v, (tuple, list)):
        return tuple(normal(s, x) for x in v)
    if isinstance(v, Agg):
        return Agg([normal(s, x) for x in v.f])
    if isinstance(v, En):
        return En(v.v, [normal(s, x) for x in v.f])
    if isinstance(v, Opq):
        return Opq(v.tag, [normal(s, x) for x in v.a])
    if isinstance(v, Dropped):
        return Dropped(normal(s, v.v))
    if isinstance(v, Pred):
        return Pred(v.op, s.n(v.l))
    if isinstance(v, Ptr):
        return Ptr(v.obj, tuple(('x', s.n(p[1])) if p[0] == 'x' else p for p in v.path), normal(s, v.meta), normal(s, v.addr))
    return v


def strengthen(cur, p, pid):
    """x(m) != 0 for all earlier m, with x decreasing to 0 in unit steps from x(0) >= 0, is x(m) >= 1."""
    if p.op == 'ne':
        k = p.l.coeff(pid)
        l0 = p.l.subst({pid: K(0)})
        if k == -1 and cur.facts.implies_ge(l0):
            return Pred('ge', p.l - 1)
        if k == 1 and cur.facts.implies_ge(-l0):
            return Pred('ge', -p.l - 1)
        return p if k == 0 else p
    return p


class Read:
    """The value found at (a field of) cell ix of an array as it was before the loop."""
    __slots__ = ('arr', 'ix', 'proj')

    def __init__(self, arr, ix, proj):
        self.arr, self.ix, self.proj = arr, ix, proj

    def __eq__(self, o):
        return isinstance(o, Read) and self.arr is o.arr and self.ix == o.ix and self.proj == o.proj

    def __hash__(self):
        return hash((id(self.arr), self.ix, self.proj))

    def __repr__(self):
        return 'read(%s[%r]%s)' % (self.arr.name, self.ix, ''.join('.%d' % p for p in self.proj))


def reads_in(t):
    """The arrays a template reads."""
    out = []
    if isinstance(t, Read):
        out.append(t.arr)
    elif isinstance(t, (tuple, list)):
        for x in t:
            out += [a for a in reads_in(x) if all(a is not b for b in out)]
    elif isinstance(t, (Agg, En)):
        out = reads_in(list(t.f))
    elif isinstance(t, Opq):
        out = reads_in(list(t.a))
    elif isinstance(t, Dropped):
        out = reads_in(t.v)
    return out


class Symbolizer:
    def __init__(self, I, s, n, mark, to_pn, cur):
        self.I, self.s, self.n, self.mark, self.to_pn = I, s, n, mark, to_pn
        self.nid = n.t[0][0]
        self.pnid = to_pn[self.nid].t[0][0]
        self.map = {}
        for a, ix, v in s.reads or ():
            ix = self.index(ix)
            if any(x > mark for x in ix.atoms()):
                continue
            # the same cell of the array as it was before the loop
            a0 = cur.mem.get(a.name)
            if isinstance(a0, Arr) and a0 is not a:
                try:
                    if I.arr_cell(s.copy(), a0, ix) != v:
                        continue
                except Split:
                    continue
                a = a0
            self.add(v, a, ix.subst(to_pn), ())

    def index(self, ix):
        """An index in terms of the loop counter, which the facts of this iteration may have pinned."""
        return self.counted(self.s.n(ix))

    def counted(self, v):
        c = self.s.n(self.n)
        if c != self.n and not v.coeff(self.nid):
            for k in {v.coeff(x) // c.coeff(x) for x in c.atoms() if x > self.mark and v.coeff(x) % c.coeff(x) == 0} or {1, -1}:
                d = v - c.scale(k)
                if k and not any(x > self.mark for x in d.atoms()):
                    return self.n.scale(k) + d
        return v

    def add(self, v, a, ix, proj):
        if not ix.coeff(self.pnid):
            return
        try:
            self.map.setdefault(v, Read(a, ix, proj))
        except TypeError:
            return
        if isinstance(v, Lin):
            self.map.setdefault(self.s.n(v), Read(a, ix, proj))
        if isinstance(v, Agg):
            for i, x in enumerate(v.f):
                self.add(x, a, ix, proj + (i,))

    def local(self, v):
        return any(x > self.mark for x in atoms_of(v)) or has_entry(v)

    def sym(self, v):
        if isinstance(v, Lin):
            v = self.s.n(v)
            r = self.map.get(v)
            if r is not None and not v.const and v.coeff(self.nid) == 0:
                return r
            if any(x > self.mark for x in v.atoms()):
                if r is None:
                    # affine in one read value
                    loc = [x for x in v.atoms() if x > self.mark]
                    if len(loc) == 1:
                        for key, rd in self.map.items():
                            if isinstance(key, Lin) and set(key.atoms()) & set(loc):
                                c1, c2 = v.coeff(loc[0]), key.coeff(loc[0])
                                if c2 and c1 % c2 == 0:
                                    rest = v - key.scale(c1 // c2)
                                    if not any(x > self.mark for x in rest.atoms()):
                                        return ('aff', rd, c1 // c2, rest.subst(self.to_pn))
                    w = self.counted(v)
                    if w is not v:
                        return w.subst(self.to_pn)
                    return ('?', v)
                return r
            return v.subst(self.to_pn)
        if isinstance(v, (Agg, En, Opq, Ptr, Dropped)):
            if isinstance(v, (Agg, Opq)):
                try:
                    r = self.map.get(v)
                except TypeError:
                    r = None
                if r is not None:
                    return r
            if isinstance(v, Agg):
                return Agg([self.sym(x) for x in v.f])
            if isinstance(v, En):
                return En(v.v, [self.sym(x) for x in v.f])
            if isinstance(v, Opq):
                return Opq(v.tag, [self.sym(x) for x in v.a])
            if isinstance(v, Dropped):
                return Dropped(self.sym(v.v))
            return Ptr(v.obj, tuple(('x', self.sym(x[1])) if x[0] == 'x' else x for x in v.path),
                       self.sym(v.meta), self.sym(v.addr))
        if isinstance(v, Pred):
            return Pred(v.op, self.s.n(v.l).subst(self.to_pn))
        if isinstance(v, tuple):
            return tuple(self.sym(x) for x in v)
        return v


def has_entry(v):
    return isinstance(v, Opq)


def instantiate(I, st, t, pid, m):
    """The value of a template at iteration m."""
    if isinstance(t, Read):
        v = I.arr_cell(st, t.arr, t.ix.subst({pid: m}))
        for p in t.proj:
            v = v.f[p]
        return v
    if isinstance(t, Lin):
        return t.subst({pid: m})
    if isinstance(t, tuple):
        if t and t[0] == 'aff':
            b = instantiate(I, st, t[1], pid, m)
            return b.scale(t[2]) + t[3].subst({pid: m})
        if t and t[0] == '?':
            return new_atom('it', None, None, exact=False)
        return tuple(instantiate(I, st, x, pid, m) for x in t)
    if isinstance(t, Agg):
        return Agg([instantiate(I, st, x, pid, m) for x in t.f])
    if isinstance(t, En):
        return En(t.v, [instantiate(I, st, x, pid, m) for x in t.f])
    if isinstance(t, Opq):
        return Opq(t.tag, [instantiate(I, st, x, pid, m) for x in t.a])
    if isinstance(t, Dropped):
        return Dropped(instantiate(I, st, t.v, pid, m))
    if isinstance(t, Ptr):
        return Ptr(t.obj, tuple(('x', instantiate(I, st, x[1], pid, m)) if x[0] == 'x' else x for x in t.path),
                   instantiate(I, st, t.meta, pid, m), instantiate(I, st, t.addr, pid, m))
    if isinstance(t, Pred):
        return Pred(t.op, t.l.subst({pid: m}))
    return t


def collect(I, a, b, plan):
    """Differences between the header state a and the back-edge state b, array logs excepted."""
    for obj, v in b.mem.items():
        o = a.mem.get(obj, MISSING)
        if o is v:
            continue
        if o is MISSING:
            if isinstance(obj, tuple) and (isinstance(obj[0], int) or obj[0] == 'const'):
                continue
            raise Unsupported('allocation in a loop')
        if isinstance(v, Arr):
            if not isinstance(o, Arr) or v.base != o.base:
                raise Unsupported('an array is replaced in a loop')
            continue
        if isinstance(v, (Raw, Freed)) or isinstance(o, (Raw, Freed, Arr)):
            if isinstance(o, (Raw, Freed)) and type(v) is type(o):
                continue
            raise Unsupported('a block is freed or replaced in a loop')
        p = {}
        try:
            generalise(I, b, o, v, None, (), p)
        except Mismatch as e:
            raise Unsupported('loop-carried value: %s' % e)
        for k, d in p.items():
            if d[0] == 'other':
                raise Unsupported('loop-carried value changes its shape')
            key = (obj, k)
            if key in plan and plan[key] != d:
                d = ('any',) if d[0] in ('lin', 'any') else d
            plan[key] = d
    for obj in a.mem:
        if obj not in b.mem and not (isinstance(obj, tuple) and isinstance(obj[0], int)):
            raise Unsupported('an object disappears in a loop')


def generic(I, cur, h, n):
    """The states at the start of iteration n >= 0 admitted by the hypothesis."""
    s = cur.copy()
    for (obj, path), d in h.plan.items():
        if obj not in s.mem:
            continue
        v = s.mem[obj]
        leaf = getleaf(v, path)
        if d[0] == 'lin':
            nv = leaf + n.scale(d[1])
        elif d[0] == 'any':
            if not isinstance(leaf, Lin):
                raise Unsupported('loop-carried %r' % (leaf,))
            nv = new_atom('loop', 0, (1 << 64) - 1, exact=False)
        else:
            nv = Pred('ne', new_atom('loopb', 0, 1, exact=False))
        s.mem[obj] = rebuild(v, path, 0, lambda _, nv=nv: nv)
    for obj, ws in h.arr.items():
        a = s.mem[obj]
        log = a.log
        for i0, k, t in ws:
            lo, hi = (i0, i0 + n) if k == 1 else (i0 - n + 1, i0 + 1)
            def cell(I, st, ix, i0=i0, k=k, t=t):
                return instantiate(I, st, t, h.pid, (ix - i0).scale(k))
            log = log + (('r', st_n(s, lo), st_n(s, hi), cell, (i0, k, t, h.pid)),)
        s.mem[obj] = a.with_log(log)
    if h.ev:
        s.events = s.events + (('loop', h.pid, n, tuple(h.ev)),)
    s.loopctx = s.loopctx + (n,)
    # what the previous iteration's condition implies now
    later = []
    for p in h.heads:
        q = Pred(p.op, p.l.subst({h.pid: n - 1}))
        q0 = Pred(p.op, p.l.subst({h.pid: K(-1)}))
        if cur.test(q0) is True:
            s.assume(q)
        else:
            later.append(q)
    if not later:
        return [s]
    s0 = s.copy()
    s0.eq(n)
    s.ge(n - 1)
    for q in later:
        s.assume(q)
    return [s0, s]


def st_n(s, l):
    return s.n(l)
