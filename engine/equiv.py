"""Lockstep comparison of two analysis graphs (an implementation and a specification,
or a writer and a reader).

Both graphs are walked together from loop head to loop head. The observables of the two
sides must agree in order, the branch facts of both sides prune combinations that cannot
occur together, and at every pair of loop heads the loop variables are related by
equalities that are guessed on first arrival and kept only while every arrival maintains
them (greatest fixpoint). No path is executed and no solver is called: all comparisons
are on normalised provenance terms."""
import os
from terms import *
import terms
from interp import decide as decide1, canon, Undecided, Ev, lin_split as lin_split_, is_nonneg

ANY = mk("any")
DEBUG = bool(os.environ.get("VERIF_DEBUG_REL"))


def diff_of(L):
    """x - y as (x, y) with None for zero, or None"""
    if len(L) == 1 and L[0][1] in (1, -1):
        return (L[0][0], None) if L[0][1] == 1 else (None, L[0][0])
    if len(L) == 2 and {L[0][1], L[1][1]} == {1, -1}:
        return (L[0][0], L[1][0]) if L[0][1] == 1 else (L[1][0], L[0][0])
    return None


def zone_of(f):
    """(x, y, c) when the test f is about x - y + c"""
    try:
        return f._zone
    except AttributeError:
        c, L = lin_split_(f.args[0])
        d = diff_of(L)
        f._zone = None if d is None else (d[0], d[1], c)
        return f._zone


def zone_max(x, y, facts):
    """least c with x - y <= c implied by the difference facts (a zone), or None"""
    edges = []          # u - v <= w
    atoms = {x, y}
    for f, v in facts.items():
        if f.op == "startswith" and v:
            # a prefix is no longer than the whole
            t = mk("pos", sub(length(f.args[1]), length(f.args[0])))
            z = zone_of(t) if t.op == "pos" else None
            if z is not None:
                edges.append((z[0], z[1], -z[2]))
                atoms.update(z[:2])
            continue
        if f.op == "eq" and v:
            # equal sequences are equally long
            t = mk("pos", sub(length(f.args[0]), length(f.args[1])))
            z = zone_of(t) if t.op == "pos" else None
            if z is not None and (z[0] in atoms or z[1] in atoms):
                edges += [(z[0], z[1], -z[2]), (z[1], z[0], z[2])]
                atoms.update(z[:2])
            continue
        if f.op not in ("pos", "eq0"):
            continue
        z = zone_of(f)
        if z is None:
            continue
        u, w, c = z
        atoms.add(u)
        atoms.add(w)
        if f.op == "eq0":
            if v:
                edges += [(u, w, -c), (w, u, c)]
        elif v:             # c + u - w >= 1
            edges.append((w, u, c - 1))
        else:               # c + u - w <= 0
            edges.append((u, w, -c))
    for a in atoms:
        if a is not None and is_nonneg(a):
            edges.append((None, a, 0))
    dist = {x: 0}
    for _ in range(len(atoms) + 1):
        ch = False
        for u, w, k in edges:
            if u in dist and (w not in dist or dist[u] + k < dist[w]):
                dist[w] = dist[u] + k
                ch = True
        if not ch:
            break
    return dist.get(y)


def decide(p, facts):
    r = decide1(p, facts)
    if r is not None:
        return r
    if p.op == "not":
        r = decide(p.args[0], facts)
        return None if r is None else not r
    if p.op in ("pos", "eq0"):
        c, L = lin_split_(p.args[0])
        d = diff_of(L)
        if d is None:
            return None
        hi = zone_max(d[0], d[1], facts)
        lo = zone_max(d[1], d[0], facts)
        hi = None if hi is None else hi + c
        lo = None if lo is None else c - lo
        if p.op == "pos":
            if lo is not None and lo > 0:
                return True
            if hi is not None and hi <= 0:
                return False
        else:
            if lo is not None and lo > 0 or hi is not None and hi < 0:
                return False
            if lo is not None and lo == 0 == hi:
                return True
    # a prefix of the same length is the whole
    if p.op == "startswith":
        for q in (mk("eq", p.args[0], p.args[1]), mk("eq", p.args[1], p.args[0])):
            r = facts.get(q)
            if r is True or r is False and samelen(p.args, facts):
                return r
    elif p.op == "eq":
        for q in (mk("startswith", p.args[0], p.args[1]), mk("startswith", p.args[1], p.args[0])):
            r = facts.get(q)
            if r is False or r is True and samelen(p.args, facts):
                return r
        d = sub(length(p.args[0]), length(p.args[1]))
        for q in (mk("eq0", d), mk("eq0", neg(d))):
            if q.op == "eq0" and facts.get(q) is False:
                return False
    return None


def samelen(args, facts):
    a, b = (length(x) for x in args)
    if a is b:
        return True
    d = sub(a, b)
    return decide(mk("pos", d), facts) is False and decide(mk("pos", neg(d)), facts) is False


class Mismatch:
    def __init__(self, kind, msg, at=None, path=None):
        self.kind, self.msg, self.at, self.path = kind, msg, at, path

    def __repr__(self):
        return "%s: %s [%s]" % (self.kind, self.msg, self.at)


class Split(Exception):
    def __init__(self, p):
        self.p = p


def _mentions(t, op):
    return any(x.op == op for x in walk(t))


MINMAX = {}


def has_minmax(t):
    r = MINMAX.get(t)
    if r is None:
        r = MINMAX[t] = any(x.op in ("min", "max") for x in walk(t))
    return r


def nothing(v, facts):
    """an optional value known to be absent"""
    if v.op in ("call", "mapget", "fld", "index") and (facts.get(mk("is", v, "Some")) is False or facts.get(mk("is", v, "None")) is True):
        return NONE
    return v


def resolve(t, facts):
    """min and max replaced by the operand the facts select"""
    if not has_minmax(t):
        return t
    for x in walk(t):
        if x.op in ("min", "max") and len(x.args) == 2:
            a, b = x.args
            r = True if decide(Not(terms.lt(b, a)), facts) is True else False if decide(Not(terms.lt(a, b)), facts) is True else None
            if r is not None:
                return resolve(subst(t, {x: a if r == (x.op == "min") else b}), facts)
    return t


class Facts:
    """a set of branch facts with contradiction detection"""

    def __init__(self, d=None):
        self.d = dict(d) if d else {}

    def copy(self):
        return Facts(self.d)

    def add(self, p, v):
        """False if contradictory"""
        p = resolve(p, self.d)
        while p.op == "not":
            p, v = p.args[0], not v
        if p.op == "bool":
            return p.args[0] == v
        r = decide(p, self.d)
        if r is not None:
            if r != v:
                return False
            if p in self.d:
                return True
        self.d[p] = v
        if p.op in ("and", "or") and (p.op == "and") == v:
            for q in p.args:
                if not self.add(q, v):
                    return False
        if p.op == "eq" and v:
            for q in list(self.d):
                if q.op in ("is",) and q.args[0] in p.args:
                    pass
        return True

    def consistent(self):
        # which of two is the smaller may be known by now
        for p, v in list(self.d.items()):
            if has_minmax(p):
                q = resolve(p, {x: y for x, y in self.d.items() if x is not p})
                if q is not p:
                    del self.d[p]
                    if not self.add(q, v):
                        return False
        for p, v in self.d.items():
            d = dict(self.d)
            del d[p]
            r = decide(p, d)
            if r is not None and r != v:
                return False
        # x == "a" and x == "b"
        eqs = {}
        for p, v in self.d.items():
            if p.op == "eq" and v:
                a, b = p.args
                if is_const(b):
                    a, b = b, a
                if is_const(a):
                    if b in eqs and eqs[b] is not a:
                        return False
                    eqs[b] = a
        return True


def mapped_ev(ev, sb):
    def f(x):
        if isinstance(x, T):
            return subst(x, sb)
        if isinstance(x, tuple):
            return tuple(f(y) for y in x)
        return x
    return Ev(ev.kind, f(tuple(ev.args)), ev.at, ev.facts, ev.path)


class PathEdge:
    def __init__(self, dst, phi):
        self.dst, self.phi = dst, phi


class PathEnd:
    """a return or panic reached through skipped heads"""

    def __init__(self, n, sb):
        self.id = (n.id, tuple(sorted((p.id, v.id) for p, v in sb.items())))
        self.kind, self.at, self.facts = n.kind, n.at, n.facts
        self.value = subst(n.value, sb) if isinstance(n.value, T) else n.value
        self.mem = {r: subst(v, sb) if isinstance(v, T) else v for r, v in n.mem.items()} if n.mem else n.mem
        self.out = n.out


class Product:
    level = 0
    REGEN = 3
    MAXPAIRS = 400
    MAXPATHS = 20000

    def __init__(self, gi, gs, obs=None, match=None, ends=None, same_hook=None, guess=None, panic_ok=None, finals=None, assume=None, norm=None, wrap64=False, nopanic=False):
        self.nopanic = nopanic          # not even where the specification leaves the case open
        self.wrap64 = wrap64            # do not assume that 64-bit sums stay in range
        self.gi, self.gs = gi, gs
        self.obs = (lambda ev, side: obs(ev, side) or hidden_obs(ev, side)) if obs else default_obs
        self.match_hook = match
        self.ends_hook = ends
        self.same_hook = same_hook
        self.guess_hook = guess
        self.panic_ok = panic_ok or (lambda ev: False)
        self.finals = finals            # list of (root_impl, root_spec) to compare at return
        self.norm = norm
        self.assume = assume            # callable(F: Facts) -> bool, extra feasibility
        self.rel = {}
        self.facts = {}
        self.cand = {}
        self.pathcache = {}
        self.skipcache = {}
        self.livecache = {}
        self.cycles = None
        self.cur = None
        self.shapes_ = None
        self.dropped = {}
        self.regen = {}
        self.ints_ = None
        self.choices_ = None
        self.lens = []                  # lengths that counters are bounded by
        self.ext = {}                   # per pair: definitions / position of the reader (see wire.py)
        self.obligations = 0
        self.npairs = 0

    # hooks of the writer/reader comparison
    def ext_root(self):
        return None

    def ext_sub(self, ext, sg):
        pass

    def ext_head(self, ext, re, es):
        return ext

    def ext_merge(self, old, new):
        return old

    def ext_split(self, ext):
        return ext

    def varies(self, v):
        """no constant relation is guessed for a loop variable starting at v"""
        return False

    def skip_phi(self, p, v):
        return False

    def sub(self, t, m):
        t = subst(t, m) if m else t
        return self.norm(t) if self.norm else t

    # -- paths between stops
    def skipped(self, g):
        """loop heads that are not stops: every cycle still has one. level 1: heads entered from one
        place only; level 2: heads (outermost first) that no cycle needs, so that nested loops are
        compared as one flat loop"""
        r = self.skipcache.get(id(g))
        if r is not None:
            return r
        out = set()
        if self.level:
            heads = [n for n in g.nodes if n.kind == "head"]
            indeg = {}
            for n in g.nodes:
                for e in n.out:
                    indeg[e.dst.id] = indeg.get(e.dst.id, 0) + 1
            for h in sorted(heads, key=lambda n: n.id):
                if h is g.root or self.level == 1 and indeg.get(h.id, 0) > 1 and self.repeats(g, h):
                    continue
                stack, seen, loop = [h], set(), False
                while stack and not loop:
                    for e in stack.pop().out:
                        d = e.dst
                        if d is h:
                            loop = True
                            break
                        if d.id in seen or d.kind in ("ret", "panic") or d.kind == "head" and d.id not in out:
                            continue
                        seen.add(d.id)
                        stack.append(d)
                if not loop:
                    out.add(h.id)
        self.skipcache[id(g)] = out
        return out

    def repeats(self, g, h):
        """some edge comes back to h from a node that is only reached through h"""
        seen, stack = {g.root.id}, [g.root]
        while stack:
            for e in stack.pop().out:
                if e.dst is not h and e.dst.id not in seen:
                    seen.add(e.dst.id)
                    stack.append(e.dst)
        return any(e.dst is h for n in g.nodes if n.id not in seen for e in n.out)

    def paths(self, g, n):
        k = (id(g), n.id)
        r = self.pathcache.get(k)
        if r is not None:
            return r
        skip = self.skipped(g)
        out = []
        stack = [(n, [], dict(n.facts), None, 0)]
        first = True
        while stack:
            m, evs, facts, sb, depth = stack.pop()
            if not first and m.kind in ("ret", "panic"):
                raise AssertionError
            first = False
            if depth > 400:
                raise Undecided("path too long")
            for e in m.out:
                f2 = dict(facts)
                bad = False
                for p, v in e.facts.items():
                    if sb:
                        p = subst(p, sb)
                        while p.op == "not":
                            p, v = p.args[0], not v
                        if p.op == "bool":
                            if p.args[0] != v:
                                bad = True
                                break
                            continue
                    if p in f2:
                        if f2[p] is not v:
                            bad = True
                            break
                    else:
                        f2[p] = v
                if bad:
                    continue
                ev2 = evs + [mapped_ev(ev, sb) for ev in e.ev] if sb and e.ev else evs + e.ev
                d = e.dst
                e2 = e
                if sb:
                    e2 = PathEdge(d, {p: subst(v, sb) for p, v in e.phi.items()})
                    for p, v in sb.items():
                        e2.phi.setdefault(p, v)
                if d.kind in ("ret", "panic") and sb:
                    d = PathEnd(d, sb)
                if d.kind in ("ret", "panic") or d.kind == "head" and d.id not in skip:
                    out.append((d, ev2, f2, e2))
                elif d.id in skip:
                    sb2 = dict(e2.phi)
                    for p, v in d.facts.items():
                        p = subst(p, sb2)
                        while p.op == "not":
                            p, v = p.args[0], not v
                        if p.op != "bool":
                            f2.setdefault(p, v)
                    stack.append((d, ev2, f2, sb2, depth + 1))
                else:
                    stack.append((d, ev2, f2, sb, depth + 1))
                if len(out) > self.MAXPATHS:
                    raise Undecided("too many paths")
        self.pathcache[k] = out
        return out

    def live(self, g, n):
        """loop variables whose current value can still matter at node n"""
        L = self.livecache.get(id(g))
        if L is None:
            L = self.livecache[id(g)] = liveness(g)
        return L.get(n.id, frozenset())

    def ext_pend(self, t, conv, re):
        return tuple(conv(x) if isinstance(x, T) else x for x in t)

    # -- value agreement
    def same(self, a, b, F, depth=0):
        if a is b or b is ANY:
            return True
        if depth > 60:
            return False
        a, b = canon(a), canon(b)
        if a is b:
            return True
        if self.same_hook:
            r = self.same_hook(self, a, b, F)
            if r is not None:
                return r
        boolish = ("bool", "not", "pos", "eq0", "eq", "has", "is", "and", "or", "flt", "fle")
        if a.op in boolish or b.op in boolish:
            if a.op in boolish and b.op in boolish or "bool" in (a.op, b.op):
                ra, rb = decide(a, F.d), decide(b, F.d)
                if ra is not None and rb is not None:
                    return ra == rb
                if ra is None and rb is None and a.op == b.op and len(a.args) == len(b.args) and self.args_same(a, b, F, depth):
                    return True
                raise Split(a if ra is None else b)
        if a.op == "b2i" or b.op == "b2i":
            for x in (a, b):
                if x.op == "b2i" and decide(x.args[0], F.d) is None:
                    raise Split(x.args[0])
            a, b = (I(int(decide(x.args[0], F.d))) if x.op == "b2i" else x for x in (a, b))
            if a is b:
                return True
        if a.op in ("int", "lin") or b.op in ("int", "lin") or a.op in ("min", "max") or b.op in ("min", "max"):
            if self.int_same(a, b, F, depth):
                return True
        for x, y in ((a, b), (b, a)):
            if x.op == "agg" and y.op == "upd":
                u = {}
                w = y
                while w.op == "upd":
                    u.setdefault(w.args[1], w.args[2])
                    w = w.args[0]
                if w.op == "as" and w.args[1] == x.args[1]:
                    return all(self.same(fv, u.get(str(i)) or mk("fld", w, str(i)), F, depth + 1) if x is a else
                               self.same(u.get(str(i)) or mk("fld", w, str(i)), fv, F, depth + 1) for i, fv in enumerate(x.args[2:]))
            if x.op == "agg" and x.args[1] is not None and y.op != "agg":
                p = mk("is", y, x.args[1])
                r = decide(p, F.d)
                if r is None:
                    if x.args[0] in ("Option", "Result"):
                        raise Split(p)
                    return False
                if not r:
                    return False
                for i, fv in enumerate(x.args[2:]):
                    z = mk("fld", mk("as", y, x.args[1]), str(i))
                    if not (self.same(fv, z, F, depth + 1) if x is a else self.same(z, fv, F, depth + 1)):
                        return False
                return True
            if x.op == "agg" and x.args[1] is None and y.op in ("upd", "fld", "index", "mapget", "arg", "call", "phi") and len(x.args) > 2:
                # a value built from parts, and one known as a whole
                fs = [str(i) for i in range(len(x.args) - 2)] if x.args[0] == "tuple" else self.gi.eng.fieldnames(x.args[0], None)
                if fs and len(fs) == len(x.args) - 2:
                    zs = [terms._fld_norm(y, f) for f in fs]
                    return all(self.same(fv, z, F, depth + 1) if x is a else self.same(z, fv, F, depth + 1) for fv, z in zip(x.args[2:], zs))
        if (a.op == "upd" or b.op == "upd") and a.op != "agg" and b.op != "agg":
            ua, ub = {}, {}
            x, y = a, b
            while x.op == "upd":
                ua.setdefault(x.args[1], x.args[2])
                x = x.args[0]
            while y.op == "upd":
                ub.setdefault(y.args[1], y.args[2])
                y = y.args[0]
            if (len(ua) + len(ub)) and self.same(x, y, F, depth + 1):
                return all(self.same(ua.get(f) or mk("fld", x, f), ub.get(f) or mk("fld", y, f), F, depth + 1) for f in set(ua) | set(ub))
        for x, y in ((a, b), (b, a)):
            # inserting a member, removing a stranger
            if x.op == "mput" and x.args[2] is UNIT and decide(mhas(x.args[0], x.args[1]), F.d) is True or x.op == "mdel" and decide(mhas(x.args[0], x.args[1]), F.d) is False:
                return self.same(x.args[0], y, F, depth + 1) if x is a else self.same(y, x.args[0], F, depth + 1)
        if (a.op == "vset") != (b.op == "vset"):
            x, y = (a, b) if a.op == "vset" else (b, a)
            z = index(x.args[0], x.args[1])
            if self.same(*((x.args[2], z) if x is a else (z, x.args[2])), F, depth + 1):
                return self.same(x.args[0], y, F, depth + 1) if x is a else self.same(y, x.args[0], F, depth + 1)
        if a.op == "cond" or b.op == "cond":
            raise Split(a.args[0] if a.op == "cond" else b.args[0])
        if a.op == b.op and len(a.args) == len(b.args):
            if self.args_same(a, b, F, depth):
                return True
            if a.op in ("fadd", "fmul") and len(a.args) == 2 and self.same(a.args[0], b.args[1], F, depth + 1) and self.same(a.args[1], b.args[0], F, depth + 1):
                return True
        if decide(terms.eq(a, b), F.d) is True:
            return True
        # vectors written differently
        return False

    def args_same(self, a, b, F, depth):
        return all(self.arg_same(x, y, F, depth) for x, y in zip(a.args, b.args))

    def arg_same(self, x, y, F, depth):
        if isinstance(x, T) and isinstance(y, T):
            return self.same(x, y, F, depth + 1)
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(self.arg_same(p, q, F, depth) for p, q in zip(x, y))
        return x == y

    def int_same(self, a, b, F, depth):
        d = sub(a, b)
        if d is I(0):
            return True
        if decide(ieq(a, b), F.d) is True:
            return True
        for x in walk(d):
            if x.op in ("min", "max"):
                p = terms.lt(x.args[0], x.args[1])
                r = decide(p, F.d)
                if r is None:
                    raise Split(p)
                keep = x.args[0] if (r == (x.op == "min")) else x.args[1]
                return self.int_same(subst(a, {x: keep}), subst(b, {x: keep}), F, depth)
        ca, da = lin_parts(a)
        cb, db = lin_parts(b)
        if ca != cb or len(da) != len(db):
            return False
        if a.op != "lin" and b.op != "lin":
            return False
        rest = list(db.items())
        for k, v in da.items():
            for i, (k2, v2) in enumerate(rest):
                if v == v2 and self.same(k, k2, F, depth + 1):
                    del rest[i]
                    break
            else:
                return False
        return True

    # -- the walk
    def run(self):
        for it in range(400):
            self.bad = []
            self.changed = False
            self.walk()
            if not self.changed:
                return self.bad
        raise Undecided("no fixpoint in the product")

    def walk(self):
        root = (self.gi.root, self.gs.root, (), ())
        k0 = self.key(root)
        if k0 not in self.rel:
            self.rel[k0] = {}
            self.facts[k0] = {}
            self.ext[k0] = self.ext_root()
        self.npairs = 0
        self.obligations = 0
        seen = {k0}
        work = [root]
        visits = 0
        while work:
            st = work.pop()
            visits += 1
            if visits > 40 * self.MAXPAIRS or len(seen) > self.MAXPAIRS:
                raise Undecided("too many pairs")
            self.weaker = {}
            for nxt in self.visit(st):
                k = self.key(nxt)
                if k not in seen:
                    seen.add(k)
                    work.append(nxt)
            # what was assumed about these pairs got weaker: look at them again
            for k, w in self.weaker.items():
                if k in seen and w not in work:
                    work.append(w)
            if len(self.bad) > 12:
                return
        self.npairs = len(seen)

    def key(self, st):
        return (st[0].id, st[1].id, st[2], st[3])

    def is_spec(self, p):
        return p.args[0] >= self.gs.eng.headbase > self.gi.eng.headbase

    def moves(self, g, n):
        if n.kind in ("ret", "panic"):
            return [(n, [], {}, None)]
        return self.paths(g, n)

    def visit(self, st):
        ni, ns, qi, qs = st
        k = self.cur = self.key(st)
        sg = {p: c[0] for p, c in self.rel[k].items() if c}
        for _ in range(6):
            n = {p: subst(c, sg) for p, c in sg.items()}
            if n == sg:
                break
            sg = n
        self.ext_sub(self.ext[k], sg)
        base = Facts()
        for facts in (self.facts[k], ns.facts, ni.facts):
            for p, v in sorted(facts.items(), key=lambda e: has_minmax(e[0])):
                if not base.add(self.sub(p, sg), v):
                    return []
        for g in (self.gs, self.gi):
            for p in bounds(g):
                if not base.add(self.sub(p, sg), False):
                    return []
        # the other candidates hold as well
        for p, cs in self.rel[k].items():
            if len(cs) > 1 and p in self.ints():
                n = 0
                for c in cs[1:]:
                    if c.op not in ("phi", "len", "int", "lin"):
                        continue
                    q = ieq(sg[p], self.sub(c, sg))
                    if q.op == "eq0" and diff_of(lin_split_(q.args[0])[1]) is not None and q not in base.d:
                        if decide1(q, base.d) is False:
                            return []
                        base.d[q] = True
                        n += 1
                        if n >= 4:
                            break
        stay_i = [(ni, [], {}, None)]
        stay_s = [(ns, [], {}, None)]
        mi = stay_i if qi else self.moves(self.gi, ni)
        ms = stay_s if qs else self.moves(self.gs, ns)
        if len(mi) > 1 and len(ms) > 1:
            mi, ms = self.feasible(mi, sg, base), self.feasible(ms, sg, base)
        nxt = []
        many = len(mi) > 1 and len(ms) > 1
        if many:
            gi = [[(self.sub(p, sg), v) for p, v in m[2].items()] for m in mi]
            gs = [{self.sub(p, sg): v for p, v in m[2].items()} for m in ms]
        for a, pi in enumerate(mi):
            for b, ps in enumerate(ms):
                if many and any(gs[b].get(p, v) != v for p, v in gi[a]):
                    continue
                r = self.step(st, pi, ps, dict(sg), base)
                nxt += r
                if k in self.weaker:
                    return nxt      # its own assumptions changed: it is visited again
        return nxt

    def feasible(self, moves, sg, base):
        """the moves whose conditions agree with the base facts"""
        out = []
        for m in moves:
            F = base.copy()
            if all(F.add(self.sub(p, sg), v) for p, v in m[2].items()):
                out.append(m)
        return out

    def step(self, st, pi, ps, sg, base):
        ni, ns, qi, qs = st
        di, evi, fi, ei = pi
        ds, evs, fs, es = ps
        if di.kind == "panic" and evi and self.panic_ok(evi[-1]):
            return []
        toks_i = list(qi) + [t for t in (self.obs(ev, "i") for ev in evi) if t is not None]
        toks_s = list(qs) + [t for t in (self.obs(ev, "s") for ev in evs) if t is not None]
        k = 0
        pend = []
        ext = self.ext_split(self.ext[self.key(st)])
        nsg = len(sg)
        n = min(len(toks_i), len(toks_s))
        diff = None
        while k < n:
            ti, ts = toks_i[k], toks_s[k]
            if ti[0] != ts[0] or len(ti) != len(ts):
                diff = (ti, ts)
                break
            if self.match_hook:
                r = self.match_hook(self, ti, ts, sg, ext)
                if r is False:
                    diff = (ti, ts)
                    break
                if isinstance(r, list):
                    pend += r
                    k += 1
                    continue
            for x, y in zip(ti[1:], ts[1:]):
                if isinstance(x, T) and isinstance(y, T):
                    pend.append((x, y, "argument of %s" % (ti[0],)))
                elif x != y:
                    diff = (ti, ts)
            if diff:
                break
            k += 1
        li, ls = (), ()
        if diff is None:
            li, ls = tuple(toks_i[k:]), tuple(toks_s[k:])
            if li and ds.kind in ("ret", "panic") and not (ds.kind == "ret" and ds.value is ANY):
                diff = (li[0], None)
            if ls and di.kind in ("ret", "panic"):
                diff = (None, ls[0])
            if len(li) + len(ls) > 6:
                diff = (li[0] if li else None, ls[0] if ls else None)
        F = base.copy()
        if len(sg) != nsg:
            F = Facts()
            for p, v in base.d.items():
                if not F.add(self.sub(p, sg), v):
                    return []
        for facts in (fs, fi):
            for p, v in sorted(facts.items(), key=lambda e: has_minmax(e[0])):
                if p.op == "ovf" and v and not self.wrap64 and p.args[0] == "add" and p.args[2] >= 64:
                    return []       # counters of 64 bits do not wrap
                q = self.sub(p, sg)
                if not F.add(q, v):
                    return []
        if not F.consistent():
            return []
        if self.assume and not self.assume(F):
            return []
        self.hsub = {p: c for p, cs in self.rel[self.key(st)].items() for c in cs[:1] if c.op == "phi"}
        return self.settle(pi, ps, sg, F, diff, pend, li, ls, ext)

    def settle(self, pi, ps, sg, F, diff, pend, li, ls, ext, depth=0):
        """compare under facts F; forks F on demand"""
        try:
            return self.settle1(pi, ps, sg, F, diff, pend, li, ls, ext)
        except Split as s:
            if depth > 8:
                raise Undecided("too many case splits")
            r = []
            for v in (True, False):
                G = F.copy()
                if G.add(s.p, v) and G.consistent():
                    r += self.settle(pi, ps, sg, G, diff, pend, li, ls, ext, depth + 1)
            return r

    def report(self, kind, msg, pi, F):
        di, evi = pi[0], pi[1]
        at = evi[-1].at if evi else di.at
        m = Mismatch(kind, msg, at, None)
        m.facts = F.d
        self.bad.append(m)
        return []

    def settle1(self, pi, ps, sg, F, diff, pend, li, ls, ext):
        di, evi, fi, ei = pi
        ds, evs, fs, es = ps
        if ds.kind == "ret" and ds.value is ANY and not (self.nopanic and di.kind == "panic"):
            return []          # the specification leaves this case open
        for x, y, why in pend:
            self.obligations += 1
            x, y = self.sub(x, sg), self.sub(y, sg)
            if not self.same(x, y, F):
                return self.report("value", "%s: the code uses %s, the specification %s" % (why, show(x), show(y)), pi, F)
        if di.kind == "panic" and ds.kind != "panic" and not ls and not li:
            return self.report("panic", "the code can panic (%s)" % ", ".join(show(a) for a in (evi[-1].args if evi else ()) if isinstance(a, T)), pi, F)
        if diff is not None:
            a, b = diff
            return self.report("effect", "the code does %s where the specification has %s" % (show_tok(a, sg), show_tok(b, sg)), pi, F)
        end_i, end_s = di.kind in ("ret", "panic"), ds.kind in ("ret", "panic")
        if end_i and end_s:
            if di.kind != ds.kind:
                return self.report("panic", "the code %s where the specification %s" % (("panics", "returns") if di.kind == "panic" else ("returns", "rejects the case")), pi, F)
            if di.kind == "panic":
                return []
            self.obligations += 1
            if self.ends_hook:
                r = self.ends_hook(self, di, ds, sg, F, ext)
                if r is not None:
                    return self.report("result", r, pi, F)
                return []
            x, y = self.sub(di.value, sg), self.sub(ds.value, sg)
            if not self.same(x, y, F):
                return self.report("result", "the code returns %s, the specification %s" % (show(x), show(y)), pi, F)
            for r, v in di.mem.items():
                if r[0] == "A" and isinstance(r[1], tuple):
                    y = ds.mem.get(r, r[1][1])
                    if not self.same(self.sub(v, sg), self.sub(y, sg), F):
                        return self.report("state", "the code writes through %s: %s" % (show(r[1][1]), show(v)), pi, F)
            for ri, rs in self.finals or ():
                self.obligations += 1
                x, y = di.mem.get(ri), ds.mem.get(rs)
                if x is None or y is None:
                    return self.report("state", "final value of %s is not tracked" % (ri,), pi, F)
                x, y = self.sub(x, sg), self.sub(y, sg)
                if not self.same(x, y, F):
                    return self.report("state", "the code leaves %s = %s, the specification %s" % (ri[-1], show(x), show(y)), pi, F)
            return []
        # at least one side is at a loop head: maintain the relation
        pe = ei.phi if ei is not None else {}
        V = {p: v for p, v in sg.items() if p.op == "phi"}
        for p, v in pe.items():
            V[p] = self.sub(v, sg)
        V = {p: nothing(resolve(canon(v), F.d), F.d) for p, v in V.items()}
        W = {p: nothing(self.sub(v, sg), F.d) for p, v in es.phi.items()} if es is not None else {}
        V.update(W)
        RAW = dict(pe)
        RAW.update(es.phi if es is not None else {})
        re = set(pe) | set(W)
        # pending observables are expressed in the variables after the assignment
        if li or ls:
            inv = {}
            for p, v in V.items():
                if p in re:
                    c, L = lin_split_(v)
                    if L == ((p, 1),):
                        inv[p] = sub(p, I(c))
            def conv(t):
                t = self.sub(t, sg)
                bad = [x for x in walk(t) if x in re and x not in inv]
                if bad:
                    raise Undecided("a pending effect depends on a variable of an earlier iteration")
                return self.sub(t, inv)
            li = tuple(tuple(conv(x) if isinstance(x, T) else x for x in t) for t in li)
            ls = tuple(self.ext_pend(t, conv, re) for t in ls)
        nst = (di, ds, li, ls)
        key = self.key(nst)
        carried = {p: v for p, v in F.d.items() if not any(x in re for x in walk(p))} if re else dict(F.d)
        next = self.ext_head(ext, re, es)
        bounds_ = list(self.lens)
        if self.lens:
            bounds_ += [q for q in re if V.get(q) is not None and V[q].op in ("int", "lin", "phi", "len") and not self.skip_phi(q, V[q])]
        for L0 in bounds_:
            L = V[L0] if L0 in re else L0
            for p in re:
                v = V.get(p)
                if L0 is not p and v is not None and v.op in ("int", "lin", "phi") and decide(pos(sub(v, L)), F.d) is False:
                    q, b = canon_pos(p, L0), False
                    if q.op == "not":
                        q, b = q.args[0], True
                    carried[q] = b
        for q in self.shapes():
            xs = [x for x in walk(q) if x.op == "phi"]
            if any(x in re for x in xs) and all(x in re or x in V for x in xs) and q not in carried:
                b = decide(self.sub(self.sub(q, {p: v for p, v in V.items() if p in re}), sg), F.d)
                if b is not None:
                    carried[q] = b
        if key not in self.rel:
            lv = self.matters(di, ds, li, ls)
            self.rel[key] = self.guess(di, ds, V, W, F, re, RAW, lv=lv)
            self.facts[key] = carried
            self.ext[key] = next
            self.changed = True
            return [nst]
        rel = self.rel[key]
        VW = {p: v for p, v in V.items() if p in re}
        lost = []
        for p in list(rel):
            keep = []
            for c in rel[p]:
                want = self.sub(self.sub(c, VW), sg)
                got = V.get(p)
                if got is not None and self.same_nosplit(got, want, F):
                    keep.append(c)
                    continue
                raw = RAW.get(p)
                if raw is not None and sg.get(p) is not None and sg[p] is not c and contains(raw, p):
                    # the candidate under its own hypothesis
                    sg2 = dict(sg)
                    sg2[p] = self.sub(c, sg)
                    if self.same_nosplit(canon(self.sub(raw, sg2)), want, F):
                        keep.append(c)
            if DEBUG and len(keep) != len(rel[p]):
                print("drop", show(p), [show(c) for c in rel[p] if c not in keep], "got", show(V.get(p)) if V.get(p) else None, "want", [show(self.sub(self.sub(c, VW), sg)) for c in rel[p] if c not in keep])
            if len(keep) != len(rel[p]):
                self.weaken(nst)
                self.dropped.setdefault((key, p), set()).update(c for c in rel[p] if c not in keep)
                if keep:
                    rel[p] = keep
                else:
                    del rel[p]
                    lost.append(p)
        for p in lost:
            # guess again from what arrives now; every arrival is checked against it later
            n = self.regen.get((key, p), 0)
            if n < self.REGEN and p in re:
                self.regen[(key, p)] = n + 1
                g = self.guess(di, ds, V, W, F, re, RAW, only=p, lv=self.matters(di, ds, li, ls)).get(p, ())
                g = [c for c in g if c not in self.dropped[(key, p)]]
                if g:
                    if DEBUG:
                        print("again", show(p), [show(c) for c in g])
                    rel[p] = g
        m = self.ext_merge(self.ext[key], next)
        if m is not self.ext[key]:
            self.ext[key] = m
            self.weaken(nst)
        old = self.facts[key]
        nf = {p: v for p, v in old.items() if carried.get(p) == v or decide(p, carried) == v}
        if len(nf) != len(old):
            self.facts[key] = nf
            self.weaken(nst)
        return [nst]

    def constant(self, p):
        """p may keep one value while its loop runs: no edge round the loop obviously gives it another"""
        return p not in self.moved()

    def shapes(self):
        """tests for the variant of a loop variable, made anywhere"""
        if self.shapes_ is None:
            qs = {}
            for g in (self.gi, self.gs):
                for n in g.nodes:
                    for e in n.out:
                        for q in e.facts:
                            for x in walk(q):
                                if x.op == "is" and x.args[0].op == "phi" and not self.skip_phi(x.args[0], x.args[0]):
                                    qs[x] = True
            self.shapes_ = sorted(qs, key=lambda x: x.id)
        return self.shapes_

    def moving(self, p):
        return p in self.moved()

    def moved(self):
        if self.cycles is None:
            self.cycles = set()
            for g in (self.gi, self.gs):
                self.cycles |= movers(g)
        return self.cycles

    def matters(self, di, ds, li, ls):
        lv = set(self.live(self.gi, di)) | self.live(self.gs, ds)
        for t in li + ls:
            for x in t:
                if isinstance(x, T):
                    lv.update(y for y in walk(x) if y.op == "phi")
        return lv

    def weaken(self, st):
        self.changed = True
        self.weaker[self.key(st)] = st

    def same_nosplit(self, a, b, F):
        try:
            return self.same(a, b, F)
        except Split as s:
            for v in (True, False):
                G = F.copy()
                if G.add(s.p, v) and G.consistent():
                    if not self.same_nosplit(a, b, G):
                        return False
            return True

    def ints(self):
        """loop variables that are integers, going by what they are assigned"""
        if self.ints_ is None:
            flow, todo = {}, []
            for g in (self.gi, self.gs):
                for n in g.nodes:
                    for e in n.out:
                        for p, v in e.phi.items():
                            if v.op == "phi":
                                flow.setdefault(v, []).append(p)
                                flow.setdefault(p, []).append(v)
                            elif v.op in ("int", "lin", "len", "min", "max"):
                                todo.append(p)
            out = set()
            while todo:
                p = todo.pop()
                if p not in out:
                    out.add(p)
                    todo += flow.get(p, ())
            self.ints_ = out
        return self.ints_

    def choices(self):
        """terms of the specification that depend on the smaller or larger of two, and on no loop"""
        if self.choices_ is None:
            cs = {}
            for n in self.gs.nodes:
                for e in n.out:
                    for t in [a for ev in e.ev for a in ev.args if isinstance(a, T)] + list(e.phi.values()) + ([e.dst.value] if e.dst.kind == "ret" and isinstance(e.dst.value, T) else []):
                        for x in walk(t):
                            if x.op not in ("phi", "agg") and has_minmax(x) and not any(y.op == "phi" for y in walk(x)):
                                cs[x] = True
            self.choices_ = sorted(cs, key=lambda x: x.id)[:12]
        return self.choices_

    def guess(self, di, ds, V, W, F, re, RAW, only=None, lv=None):
        out = {}
        stale = lambda c: lv is not None and any(x.op == "phi" and x not in lv for x in walk(c))
        surely = ("int", "lin", "len", "min")
        ints = ("int", "lin", "len", "phi", "fld", "index", "min")
        intvars = self.ints()

        def stable(t):
            return not any(x in re for x in walk(t) if x.op == "phi")

        def fixed(p, v):
            """p may keep the value v it has now"""
            if not stable(v) or self.varies(v):
                return False
            if not self.moving(p):
                return True
            # a variable the loop changes: only while another head stands for its other values
            return v.op in ("agg", "bool") if is_const(v) else not self.is_spec(p)
        for p, v in V.items():
            # relations between variables that keep their values stay as they are
            cs = [c for c in self.rel.get(self.cur, {}).get(p, ()) if stable(c)] if p not in re else []
            if p.op != "phi" or self.skip_phi(p, v) or only is not None and p is not only:
                continue
            if self.is_spec(p):
                if fixed(p, v):
                    cs.append(v)
                others = {s: w for s, w in W.items() if s.id < p.id}
            else:
                others = dict(W)
                others.update({s: w for s, w in V.items() if not self.is_spec(s) and s in re and s.id < p.id})
            others = {s: w for s, w in others.items() if not self.skip_phi(s, w)}
            for s, w in others.items():
                if self.same_nosplit(v, w, F):
                    cs.append(s)
            raw = self.sub(RAW[p], self.hsub) if p in RAW else v
            for s, w in others.items():
                for x, y in ((v, w), (raw, RAW.get(s, w))):
                    if y.op not in ("int", "bool", "str", "mnew", "vec") and y is not x and contains(x, y):
                        cs.append(self.sub(x, {y: s}))
            for x, k in ((v, 0), (raw, 1)):
                m = {}
                for s, w in others.items():
                    y = RAW.get(s, w) if k else w
                    if y.op not in ("int", "bool", "str", "mnew", "vec") and y is not x and contains(x, y):
                        m.setdefault(y, s)
                if len(m) > 1:
                    cs.append(self.sub(x, m))
            for c in list(cs):
                # a constant position may be the current value of a counter
                if not _mentions(c, "index"):
                    continue
                for x in [x for x in walk(c) if x.op == "index" and x.args[1].op == "int"]:
                    for s, w in others.items():
                        if w is x.args[1] and s in intvars and len(cs) < 40:
                            cs.append(subst(c, {x: index(x.args[0], s)}))
            if self.guess_hook:
                cs += self.guess_hook(self, p, v, V, W, F)
            if not self.is_spec(p) and not self.moving(p) and not is_const(v):
                # what the specification writes as the smaller of two is one of them here
                for c in self.choices():
                    if c is not v and (c.op == v.op or c.op in ("min", "max", "ite")) and self.same_nosplit(v, c, F):
                        cs.append(c)
            if fixed(p, v):
                cs.append(v)
            if v.op in ints and p in intvars:
                if self.is_spec(p):
                    # a counter of the items collected so far
                    for s, w in W.items():
                        if s.id > p.id and w.op in LISTS and not self.skip_phi(s, w):
                            n = terms.length(w)
                            if n is v or self.same_nosplit(v, n, F):
                                cs.append(terms.length(s))
                for s, w in others.items():
                    if w.op in LISTS or v.op == "len":
                        n = terms.length(w)
                        if n is v or w.op in LISTS and self.same_nosplit(v, n, F):
                            cs.append(terms.length(s))
                for s, w in others.items():
                    if w.op in ints and (v.op in surely or w.op in surely) and s in intvars:
                        d = sub(v, w)
                        if stable(d):
                            cs.append(add(s, d))
                        sm = add(v, w)
                        if stable(sm):
                            cs.append(sub(sm, s))
            ded = []
            for c in cs:
                if c not in ded and not contains(c, p):
                    ded.append(c)
            if ded:
                mv = self.moving(p)
                ded.sort(key=lambda c: (stale(c), mv and stable(c), c.op == "lin" and len(c.args[1]) > 1))
                out[p] = ded
        return out


def bounds(g):
    """upper bounds of the lengths of loop variables: proposed from the tests on them, kept while every
    edge into their loop maintains all of them (the greatest inductive set)"""
    r = g.__dict__.get("bounds_")
    if r is not None:
        return r
    lens = {}
    for p in g.phis:
        lens[length(p)] = p
    cand = {}
    for n in g.nodes:
        for e in n.out or ():
            for f in e.facts:
                if f.op not in ("pos", "eq0"):
                    continue
                c, L = lin_split_(f.args[0])
                if len(L) == 1 and L[0][1] in (1, -1) and L[0][0] in lens and 2 <= abs(c) <= 64:
                    cand.setdefault(L[0][0], set()).update((abs(c) - 1, abs(c), abs(c) + 1))
    every = {k for ks in cand.values() for k in ks}
    r = []
    if every:
        # lengths that go together are bounded by the same constants
        need = list(cand)
        for l in need:
            for _, v in g.phis[lens[l]]:
                for x in lin_split_(length(v))[1]:
                    if x[0] in lens and x[0] not in need:
                        need.append(x[0])
        ok = {(l, k) for l in need for k in every}
        while ok:
            hyp = {}
            for l, k in ok:
                hyp[l] = min(k, hyp.get(l, k))
            gone = set()
            for l in {l for l, k in ok}:
                for e, v in g.phis[lens[l]]:
                    F = Facts()
                    live = all(F.add(mk("pos", add(x, I(-k))), False) for x, k in hyp.items())
                    for p, x in list(e.facts.items()):
                        live = live and F.add(p, x)
                    if not live:
                        continue
                    for k in [k for m, k in ok if m is l]:
                        if decide(mk("pos", add(length(v), I(-k))), F.d) is not False:
                            gone.add((l, k))
            if not gone:
                break
            ok -= gone
        hyp = {}
        for l, k in ok:
            hyp[l] = min(k, hyp.get(l, k))
        r = [mk("pos", add(l, I(-k))) for l, k in hyp.items()]
    for p, ins in g.phis.items():
        # what starts at a constant and only grows
        low = None
        for _, v in ins:
            if v.op == "int":
                low = v.args[0] if low is None else min(low, v.args[0])
            elif v is not p and not (v.op == "lin" and v.args[0] >= 0 and v.args[1] == ((p, 1),)):
                low = None
                break
        if low is not None and low > 0:
            r.append(mk("pos", sub(I(low), p)))
    g.bounds_ = r
    return r


def movers(g):
    """loop variables that an edge round their loop may change"""
    dom = dominators(g)
    back, entry = {}, {}
    for n in g.nodes:
        for e in n.out:
            for p, v in e.phi.items():
                (back if n.id in dom and e.dst.id in dom[n.id] else entry).setdefault(p, []).append(v)
    still = set(back) | set(entry)

    def comes_to(v, p, depth=0):
        if v is p:
            return True
        if v.op != "phi" or v not in still or depth > 20:
            return False
        # a variable of an inner loop, kept there
        l = entry.get(v, ())
        return bool(l) and all(comes_to(w, p, depth + 1) for w in l)
    changed = True
    while changed:
        changed = False
        for p in list(still):
            if not all(comes_to(v, p) for v in back.get(p, ())):
                still.discard(p)
                changed = True
    return (set(back) | set(entry)) - still


def dominators(g):
    order, seen, stack = [], {g.root.id}, [(g.root, iter(g.root.out))]
    while stack:
        n, it = stack[-1]
        for e in it:
            if e.dst.id not in seen:
                seen.add(e.dst.id)
                stack.append((e.dst, iter(e.dst.out)))
                break
        else:
            order.append(n)
            stack.pop()
    order.reverse()
    preds = {}
    for n in order:
        for e in n.out:
            preds.setdefault(e.dst.id, []).append(n.id)
    num = {n.id: i for i, n in enumerate(order)}
    idom = {g.root.id: g.root.id}
    changed = True
    while changed:
        changed = False
        for n in order[1:]:
            d = None
            for q in preds[n.id]:
                if q in idom:
                    if d is None:
                        d = q
                    else:
                        x, y = q, d
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        d = x
            if idom.get(n.id) != d:
                idom[n.id] = d
                changed = True
    dom = {}
    for n in order:
        d = dom[n.id] = {n.id}
        x = n.id
        while idom[x] != x:
            x = idom[x]
            d.add(x)
    return dom


def liveness(g):
    phis = {}

    def vars_(t):
        r = phis.get(t)
        if r is None:
            r = phis[t] = frozenset(x for x in walk(t) if x.op == "phi")
        return r
    base, preds = {}, {}
    for n in g.nodes:
        u = set()
        for p in n.facts:
            u |= vars_(p)
        if n.kind in ("ret", "panic"):
            if isinstance(n.value, T):
                u |= vars_(n.value)
            for r, v in n.mem.items():
                if r[0] == "A" and isinstance(v, T):
                    u |= vars_(v)
        for e in n.out:
            for p in e.facts:
                u |= vars_(p)
            for ev in e.ev:
                for a in ev.args:
                    if isinstance(a, T):
                        u |= vars_(a)
            preds.setdefault(e.dst.id, []).append(n)
        base[n.id] = u
    live = {n.id: frozenset(base[n.id]) for n in g.nodes}
    work = list(g.nodes)
    while work:
        n = work.pop()
        u = set(base[n.id])
        for e in n.out:
            for p in live[e.dst.id]:
                if p in e.phi:
                    u |= vars_(e.phi[p])
                else:
                    u.add(p)
        if u != live[n.id]:
            live[n.id] = frozenset(u)
            work += preds.get(n.id, ())
    return live


def is_const(t):
    return not any(x.op in ("arg", "call", "phi", "cell", "static", "fresh", "world") for x in walk(t))


LISTS = ("vec", "vpush", "mnew", "mput", "sorted", "vset")


def canon_pos(p, L):
    return pos(sub(p, L))


def rewriter(f):
    """bottom-up rewriting of terms with f(term) -> term or None"""
    from terms import _mapargs
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is None:
            a = _mapargs(t.args, go)
            r = t if a is t.args else rebuild(t.op, a)
            x = f(r)
            if x is not None:
                r = x
            memo[t] = r
        return r
    return go


def show_tok(t, sg=None):
    if t is None:
        return "nothing"
    return "%s(%s)" % (t[0], ", ".join(show(subst(a, sg) if sg else a) if isinstance(a, T) else str(a) for a in t[1:]))


def default_obs(ev, side):
    if ev.kind == "callout":
        return ("call to " + show(ev.args[0]) if False else "callout",) + tuple(ev.args)
    if ev.kind == "observe":
        return ("observe",) + tuple(ev.args)
    if ev.kind in ("lock", "unlock"):
        return (ev.kind,) + tuple(ev.args[:1])
    return hidden_obs(ev, side)


def hidden_obs(ev, side):
    if ev.kind in ("write", "store", "heapwrite", "cellwrite", "unknown"):
        return (ev.kind,) + tuple(ev.args)
    return None
