"""Path-sensitive abstract interpretation of MIR over provenance terms.

States map storage roots to terms. Loop heads join states (per constructor
shape) with phi terms; other merge points identify equal states. The result is
a finite graph whose edges carry events, branch facts and phi inputs; the rules
are queries over that graph. Nothing is executed and no solver is involved."""
import os
import re
import sys
from terms import *
from terms import _mapargs
import terms
from fnview import MirFn
from mirload import norm_name

sys.setrecursionlimit(100000)


class OutOfTime(BaseException):
    pass


class Undecided(Exception):
    pass


class Ctx:
    __slots__ = ("id", "parent", "fn", "site", "depth", "chain")

    def __repr__(self):
        return "c%d" % self.id

    def __lt__(self, o):
        return self.id < o.id


class Ev:
    __slots__ = ("kind", "args", "at", "facts", "path")

    def __init__(self, kind, args, at, facts, path):
        self.kind, self.args, self.at, self.facts, self.path = kind, args, at, facts, path

    def __repr__(self):
        return "%s(%s) @%s" % (self.kind, ", ".join(show(a) if isinstance(a, T) else str(a) for a in self.args), self.at)


class St:
    __slots__ = ("mem", "facts", "ev", "ctx", "block", "idx")

    def copy(self):
        s = St()
        s.mem = dict(self.mem)
        s.facts = self.facts
        s.ev = list(self.ev)
        s.ctx, s.block, s.idx = self.ctx, self.block, self.idx
        return s


# library functions that accept every argument, by the last part of their name
TOTAL = re.compile(r"""(?x) ::( (?!\w*unchecked|(?:wrapping|saturating|overflowing)_(?:div|rem|pow)|next_multiple|next_power|try_from_fn) (checked|wrapping|saturating|overflowing|is|as|into|to|eq|ne|cmp|partial|get|first|last|contains|starts|ends|find|rfind|strip
    |trim|iter|sort|min|max|count|leading|trailing|map|filter|and|or|unwrap_or|size|align|type|try|next|nth|deserialize|debug|duplicate|invalid|escape|eq_ignore)_\w+
    | eq|ne|lt|le|gt|ge|cmp|len|min|max|clone|default|fmt|hash|iter|find|rfind|position|rposition|rev|keys|values|lines|chars|bytes|char_indices|split|rsplit|splitn
    |split_once|rsplit_once|split_whitespace|split_first|split_last|split_terminator|matches|trim|get|first|last|contains|any|all|map|filter|fold|count|next|nth|peek|zip|chain|cycle
    |enumerate|skip|take|scan|inspect|flat_map|flatten|fuse|partition|unzip|max_by|min_by|reduce|cloned|copied|concat|join|concat|entry|push|push_str|pop|clear|retain|dedup
    |black_box|spin_loop|type_name|size_of|align_of|needs_drop|now|elapsed|from|into|new|with_hasher|hasher|finish|write|write_str|format|and|or|xor|ok|err|not|signum|floor|ceil
    |round|sqrt|powi|powf|ln|log10|exp|trunc|fract|to_bits|from_bits|count_ones|rotate_bits|swap_bytes|try_from|try_into|try_reserve|borrow|as_ref|as_mut|take_while|skip_while|step_forward
    |map_while|find_map|filter_map|rfold|last|repeat_with|successors|from_fn|empty|once|set_once|entries|total_cmp|to_vec|log|warn|error|info|debug|into_abi )$
    | ^(serde_json::from_str|Fn::call|FnMut::call_mut|FnOnce::call_once|model::) """)


def closures(a):
    """the functions in a value that are known by name"""
    out, todo, seen = [], [a], set()
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += x
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            if x.op in ("clo", "fn", "mirfn") and isinstance(x.args[0], str):
                out.append(x.args[0])
            todo += x.args
    return out


class Edge:
    __slots__ = ("src", "dst", "ev", "facts", "phi")


class Node:
    __slots__ = ("id", "key", "ctx", "block", "mem", "facts", "kind", "out", "value", "at", "isum", "ins", "phis")

    def __repr__(self):
        return "n%d" % self.id


OPTION = {"None": (), "Some": ("0",)}
RESULT = {"Ok": ("0",), "Err": ("0",)}
TRANSPARENT = {"Box", "Unique", "NonNull", "MaybeUninit", "ManuallyDrop", "MaybeDangling", "UnsafeCell", "Pin"}
WORLD = ("W",)
PANICS = {"panicking::panic", "panicking::panic_fmt", "option::unwrap_failed", "unwrap_failed::unwrap_failed_inner",
          "result::unwrap_failed", "option::expect_failed", "panicking::assert_failed", "panicking::panic_explicit",
          "panicking::panic_bounds_check", "panicking::panic_display", "panicking::unreachable_display"}

NONNEG = set()
NONNEG_OPS = {"len", "clen", "utf8len", "coff", "discr"}
WIDTH = {}


def is_nonneg(t):
    if t.op == "int":
        return t.args[0] >= 0
    if t.op in NONNEG_OPS or t in NONNEG:
        return True
    if t.op == "phi":
        return t in NONNEG
    if t.op == "lin":
        return t.args[0] >= 0 and all(v > 0 and is_nonneg(k) for k, v in t.args[1])
    if t.op in ("mul", "div", "rem", "max"):
        return all(is_nonneg(a) for a in t.args)
    return False


# ---- facts -----------------------------------------------------------------
def lin_split(d):
    try:
        return d._ls
    except AttributeError:
        c, m = lin_parts(d)
        d._ls = c, tuple(sorted(m.items(), key=lambda kv: kv[0].id))
        return d._ls


def bounds(L, facts):
    """interval of the constant-free linear form L (tuple of (atom,coef))"""
    lo, hi = None, None
    negL = tuple((k, -v) for k, v in L)
    for f, v in facts.items():
        if f.op == "pos":
            c2, L2 = lin_split(f.args[0])
            if L2 == L:
                if v:   # c2+L>0 -> L>=1-c2
                    lo = max(lo, 1 - c2) if lo is not None else 1 - c2
                else:
                    hi = min(hi, -c2) if hi is not None else -c2
            elif L2 == negL:
                if v:   # c2-L>0 -> L<=c2-1
                    hi = min(hi, c2 - 1) if hi is not None else c2 - 1
                else:
                    lo = max(lo, c2) if lo is not None else c2
        elif f.op == "eq0" and v:
            c2, L2 = lin_split(f.args[0])
            if L2 == L:
                return -c2, -c2
            if L2 == negL:
                return c2, c2
    # atom-wise
    alo = ahi = 0
    for k, v in L:
        klo = 0 if is_nonneg(k) else None
        khi = None
        if len(L) > 1:
            b = bounds(((k, 1),), facts)
            klo = b[0] if b[0] is not None else klo
            khi = b[1]
        l, h = (klo, khi) if v > 0 else (khi, klo)
        alo = None if (alo is None or l is None) else alo + v * l
        ahi = None if (ahi is None or h is None) else ahi + v * h
    if alo is not None:
        lo = alo if lo is None else max(lo, alo)
    if ahi is not None:
        hi = ahi if hi is None else min(hi, ahi)
    # one disequality at the boundary
    for f, v in facts.items():
        if f.op == "eq0" and not v:
            c2, L2 = lin_split(f.args[0])
            if L2 == L or L2 == negL:
                x = -c2 if L2 == L else c2
                if lo == x:
                    lo += 1
                if hi == x:
                    hi -= 1
    return lo, hi


def decide(p, facts):
    """True / False / None"""
    if p.op == "bool":
        return p.args[0]
    if p.op == "not":
        r = decide(p.args[0], facts)
        return None if r is None else not r
    r = facts.get(p)
    if r is not None:
        return r
    if p.op == "pos":
        c, L = lin_split(p.args[0])
        lo, hi = bounds(L, facts)
        if lo is not None and c + lo > 0:
            return True
        if hi is not None and c + hi <= 0:
            return False
    elif p.op == "eq0":
        c, L = lin_split(p.args[0])
        lo, hi = bounds(L, facts)
        if lo is not None and c + lo > 0:
            return False
        if hi is not None and c + hi < 0:
            return False
        if lo is not None and lo == hi and c + lo == 0:
            return True
    elif p.op == "is":
        for f, v in facts.items():
            if v and f.op == "is" and f.args[0] is p.args[0] and f.args[1] != p.args[1]:
                return False
    elif p.op == "eq":
        a, b = p.args
        for x, y in ((a, b), (b, a)):
            if y.op == "agg" and len(y.args) == 2:
                for f, v in facts.items():
                    if v and f.op == "is" and f.args[0] is x and f.args[1] != y.args[1]:
                        return False
                    if v and f.op == "is" and f.args[0] is x and f.args[1] == y.args[1]:
                        return True
    return None


BOOLOPS = {"and": lambda x, y: x and y, "or": lambda x, y: x or y, "eq": lambda x, y: x == y, "xor": lambda x, y: x != y}
BOOLISH = ("not", "pos", "eq0", "eq", "has", "is", "and", "or", "xor", "flt", "fle", "startswith", "contains", "beq", "bit")


# ---- bits ------------------------------------------------------------------
def to_bits(t, w):
    if t.op == "int":
        v = t.args[0]
        return tuple((v >> i) & 1 for i in range(w))
    if t.op == "bits":
        b = t.args[0]
        return (b + (0,) * w)[:w]
    k = WIDTH.get(t, w)
    return tuple((t, i) if i < k else 0 for i in range(w))


def from_bits(b):
    if all(isinstance(x, int) for x in b):
        return I(sum(x << i for i, x in enumerate(b)))
    n = len(b)
    while n and isinstance(b[n - 1], int) and b[n - 1] == 0:
        n -= 1
    t = b[0][0] if isinstance(b[0], tuple) else None
    if t is not None and t.op != "or" and all(isinstance(x, tuple) and x[0] is t and x[1] == i for i, x in enumerate(b[:n])) and WIDTH.get(t, 64) == n:
        return t
    return mk("bits", b)


def bit_or(x, y):
    if x == 0 and isinstance(x, int):
        return y
    if y == 0 and isinstance(y, int):
        return x
    if x == 1 and isinstance(x, int) or y == 1 and isinstance(y, int):
        return 1
    if x == y:
        return x
    return (mk("orbit", x[0], x[1], y[0], y[1]), 0)


def bit_and(x, y):
    for p, q in ((x, y), (y, x)):
        if isinstance(p, int):
            return q if p else 0
    if x == y:
        return x
    return (mk("andbit", x[0], x[1], y[0], y[1]), 0)


def bit_term(x):
    return mk("bit", x[0], x[1])


def zero_bits(t, w, facts):
    """the bits the facts force to zero"""
    z = set()
    for f, v in facts.items():
        if f.op == "beq" and v:
            for x, y in ((f.args[0], f.args[1]), (f.args[1], f.args[0])):
                if x.op == "int" and x.args[0] == 0 and y.op == "bits":
                    z.update(y.args[0])
        elif f.op == "bit" and not v:
            z.add((f.args[0], f.args[1]))
    return from_bits(tuple(0 if b in z else b for b in to_bits(t, w))) if z else t


def fits(t, w, facts):
    """whether the facts say that t (not negative) has no more than w bits"""
    top = (1 << w) - 1
    return facts.get(lt(I(top), t)) is False


INTCMP = set()


def intcmp(a, b):
    t = mk("icmp", a, b)
    if t.op == "icmp":
        INTCMP.add(t)
    return t


class Runaway(Exception):
    """a loop variable that was unrolled has no bound"""


# ---- engine ----------------------------------------------------------------
class Engine:
    MAX_NODES = 3000
    MAX_STEPS = 600000

    split_cmp = True        # whether branches on comparisons are branches on the relation itself

    def __init__(self, prog, opaque=None, loop_cap=16, leaf_events=True, bits=False, opname=None, recname=None, coarse=False):
        self.coarse = coarse            # states of a loop that differ in what is present are one state
        from models import MODELS
        self.prog = prog
        self.models = MODELS
        self.opaque = opaque or (lambda fid, path: False)
        self.loop_cap = loop_cap
        self.bits = bits
        self.opname = opname            # names some calls (fid, path -> name or (name, number of arguments kept)); these are opaque
        self.recname = recname or {}    # names recursive calls: function -> (name, number of arguments kept)
        self.views = {}
        self.ctxs = {}
        self.places = {}
        self.discr_ty = {}
        self.eligible = set()
        self.unbounded = set()
        self.headids = {}
        self.headbase = 0
        self.argnames = None
        self.fncallees = {}
        self.itargs = set()
        self.inlined = set()
        self.leaves = {}
        self.recs = {}
        self.varying = None

    # -- views / contexts
    def view(self, fid):
        v = self.views.get(fid)
        if v is None:
            v = self.views[fid] = MirFn(self.prog, fid)
        return v

    def mkctx(self, parent, fn, site):
        k = (parent.id if parent else -1, fn.id, site)
        c = self.ctxs.get(k)
        if c is None:
            c = self.ctxs[k] = Ctx()
            c.id = len(self.ctxs)
            c.parent, c.fn, c.site = parent, fn, site
            c.depth = parent.depth + 1 if parent else 0
            c.chain = (parent.chain if parent else frozenset()) | {fn.id}
            if c.depth > 90:
                raise Undecided("call depth")
        return c

    # -- types
    def adt_name(self, t):
        n = self.prog.types[t]
        if n["k"] == "adt":
            return n["name"].split("::")[-1].split("<")[0]
        return n["k"]

    def fieldnames(self, name, var=None):
        """declared field order of a struct / enum variant, by simple type name"""
        c = self.__dict__.setdefault("_fn", {})
        k = (name, var)
        if k not in c:
            c[k] = None
            for n in self.prog.types:
                if n["k"] == "adt" and n["name"].split("::")[-1].split("<")[0] == name:
                    for v in n["variants"]:
                        if var is None and len(n["variants"]) == 1 or v["name"] == var:
                            c[k] = [f[0] for f in v["fields"]]
                    break
        return c[k]

    def variants(self, t):
        return self.prog.types[t]["variants"]

    def int_info(self, t):
        n = self.prog.types[t]
        if n["k"] == "int":
            return n["signed"], n["bits"]
        if n["k"] == "char":
            return False, 32
        if n["k"] == "bool":
            return False, 8
        return None

    def is_intlike(self, t):
        return self.prog.types[self.prog.strip(t)]["k"] in ("int", "char")

    # -- memory
    def read(self, st, root, path):
        v = st.mem.get(root)
        if v is None:
            if root[0] == "C":
                v = mk("cell", root[1])
            elif root[0] == "R":
                v = terms.cellread(root[1], st.mem[WORLD])
            else:
                v = UNDEF
            st.mem[root] = v
        for e in path:
            v = self.proj(v, e)
        return v

    def proj(self, v, e):
        k = e[0]
        if k == "f":
            if v.op == "agg":
                return v.args[2 + e[1]] if 2 + e[1] < len(v.args) else UNDEF
            if v.op == "clo":
                return v.args[1 + e[1]]
            if v.op == "upd":
                if v.args[1] == e[2]:
                    return v.args[2]
                return self.proj(v.args[0], e)
            if v.op == "undef":
                return UNDEF
            return mk("fld", v, e[2])
        if k == "v":
            if v.op == "agg":
                return v if v.args[1] == e[1] else UNDEF
            if v.op == "undef":
                return UNDEF
            return mk("as", v, e[1])
        if k == "ix":
            return index(v, e[1])
        if k == "mv":
            return terms.mapget(v, e[1])
        if k == "sl":
            return terms.slice_(v, e[1], e[2])
        raise Undecided("projection %r" % (e,))

    def setproj(self, v, e, x):
        k = e[0]
        if k == "f":
            if v.op == "agg":
                a = list(v.args)
                if 2 + e[1] < len(a):
                    a[2 + e[1]] = x
                    return mk("agg", *a)
                return v
            if v.op == "clo":
                a = list(v.args)
                a[1 + e[1]] = x
                return mk("clo", *a)
            if self.proj(v, e) is x:
                return v
            if v.op == "upd" and v.args[1] == e[2]:
                return self.setproj(v.args[0], e, x)
            # canonical order of updates
            if v.op == "upd" and v.args[1] > e[2]:
                return mk("upd", self.setproj(v.args[0], e, x), v.args[1], v.args[2])
            return mk("upd", v, e[2], x)
        if k == "v":
            return x
        if k == "ix":
            return terms.vset(v, e[1], x)
        if k == "mv":
            return terms.mput(v, e[1], x)
        if k == "sl":
            return mk("splice", v, e[1], e[2], x)
        raise Undecided("projection")

    def setpath(self, v, path, x):
        if not path:
            return x
        e = path[0]
        return self.setproj(v, e, self.setpath(self.proj(v, e), path[1:], x))

    def write(self, st, root, path, x):
        st.mem[root] = self.setpath(self.read(st, root, ()), path, x)

    def load(self, st, r):
        """content of a mutable reference; identity on other values"""
        return self.read(st, r.args[0], r.args[1]) if r.op == "ref" else r

    def loadall(self, st, r):
        n = 0
        while r.op == "ref":
            r = self.read(st, r.args[0], r.args[1])
            n += 1
            if n > 50:
                raise Undecided("cyclic references")
        return r

    def storeref(self, st, r, x):
        if r.op == "ref":
            self.write(st, r.args[0], r.args[1], x)
            if r.args[0][0] == "S":
                self.event(st, "write", r.args[0][1], x)
        else:
            self.event(st, "store", self.snap(st, r), self.snap(st, x))

    def snap(self, st, v, depth=0):
        if not v.refs:
            return v
        if depth > 12:
            return mk("deep")

        def go(x):
            if not x.refs:
                return x
            if x.op == "ref":
                return self.snap(st, self.read(st, x.args[0], x.args[1]), depth + 1)
            a = _mapargs(x.args, go)
            return x if a is x.args else rebuild(x.op, a)

        return go(v)

    # -- places
    def placeinfo(self, fn, p):
        k = id(p)
        r = self.places.get(k)
        if r is not None:
            return r
        types = self.prog.types
        ty = fn.locals[p[0]]
        out = []
        var = 0
        for e in p[1]:
            if e == "*":
                t = types[ty]
                out.append(("*", t["k"] == "ref" and bool(t.get("mut"))))
                ty = t["elem"] if "elem" in t else (t["args"][0] if t["k"] == "adt" and t["args"] else ty)
                var = 0
            elif e[0] == "f":
                t = types[ty]
                if t["k"] == "adt":
                    n = self.adt_name(ty)
                    if n not in TRANSPARENT:
                        vs = t["variants"]
                        vr = vs[var] if var < len(vs) else None
                        nm = vr["fields"][e[1]][0] if vr and e[1] < len(vr["fields"]) else str(e[1])
                        out.append(("f", e[1], str(nm)))
                elif t["k"] == "closure":
                    out.append(("f", e[1], "up%d" % e[1]))
                else:
                    out.append(("f", e[1], str(e[1])))
                ty = e[2]
                var = 0
            elif e[0] == "v":
                t = types[ty]
                nm = t["variants"][e[1]]["name"] if t["k"] == "adt" else str(e[1])
                var = e[1]
                out.append(("v", nm))
            elif e[0] == "i":
                out.append(("il", e[1]))
                ty = types[ty].get("elem", ty)
                var = 0
            elif e[0] == "ci":
                out.append(("ci", e[1], e[3]))
                ty = types[ty].get("elem", ty)
                var = 0
            elif e[0] == "ss":
                out.append(("ss", e[1], e[2], e[3]))
                var = 0
            else:
                out.append(("?",))
        r = self.places[k] = (p, tuple(out), ty)
        return r

    def locate(self, st, fn, p):
        """-> (root, path) of the place"""
        _, ops, _ = self.placeinfo(fn, p)
        root, path = (st.ctx.id, p[0]), ()
        for o in ops:
            k = o[0]
            if k == "*":
                v = self.read(st, root, path)
                if v.op == "ref":
                    root, path = v.args[0], v.args[1]
                elif o[1] and v.op != "undef":
                    # a mutable reference held in symbolic data: its target is a place of its own
                    root, path = ("A", ("*", v)), ()
                    if root not in st.mem:
                        st.mem[root] = v
            elif k in ("f", "v"):
                path = path + (o,)
            elif k == "il":
                path = path + (("ix", self.loadall(st, self.read(st, (st.ctx.id, o[1]), ()))),)
            elif k == "ci":
                if o[2]:
                    v = self.read(st, root, path)
                    path = path + (("ix", sub(terms.length(v), I(o[1]))),)
                else:
                    path = path + (("ix", I(o[1])),)
            elif k == "ss":
                v = self.read(st, root, path)
                end = sub(terms.length(v), I(o[2])) if o[3] else I(o[2])
                tmp = ("T", st.ctx.id, st.block, len(st.mem))
                st.mem[tmp] = terms.slice_(v, I(o[1]), end)
                root, path = tmp, ()
            else:
                raise Undecided("place projection")
        return root, path

    def const(self, st, c):
        k = c["c"]
        t = c.get("t")
        if k == "int":
            ty = self.prog.types[t]["k"]
            if ty == "bool":
                return B(c["v"])
            return I(c["v"])
        if k == "float":
            return mk("float", repr(float(c["v"])))
        if k == "str":
            return mk("str", c["v"])
        if k == "ref":
            return self.const(st, c["to"])
        if k == "arr":
            return mk("agg", "array", None, *[self.const(st, x) for x in c["v"]])
        if k == "tuple":
            return mk("agg", "tuple", None, *[self.const(st, x) for x in c["v"]])
        if k == "adt":
            ty = self.prog.types[t]
            var = ty["variants"][c.get("var") or 0]["name"] if ty["enum"] else None
            return mk("agg", self.adt_name(t), var, *[self.const(st, x) for x in c["v"]])
        if k == "static":
            return mk("static", c["v"])
        if k == "zst":
            ty = self.prog.types[t]
            if ty["k"] == "fndef":
                return self.fnval(ty["callee"])
            if ty["k"] == "closure":
                return mk("clo", ty["fn"] or ty["name"])
            if ty["k"] == "tuple":
                return UNIT
            if ty["k"] == "array":
                return mk("agg", "array", None)
            if ty["k"] == "adt":
                return mk("agg", self.adt_name(t), ty["variants"][0]["name"] if ty["enum"] and ty["variants"] else None)
            return mk("agg", ty["show"], None)
        if k == "raw":
            ty = self.prog.types[t]
            if ty["k"] == "adt" and ty["enum"]:
                v = int.from_bytes(bytes(c["v"]), "little")
                n = 8 * len(c["v"])
                for vr in ty["variants"]:
                    if vr["discr"] is not None and vr["discr"] % (1 << n) == v % (1 << n):
                        return mk("agg", self.adt_name(t), vr["name"])
            if ty["k"] == "closure" and not c["v"]:
                return mk("clo", ty["fn"] or ty["name"])
            if ty["k"] == "ref":
                to = self.prog.types[ty["elem"]]
                if to is not None and to["k"] == "closure" and not c["v"]:
                    return mk("clo", to["fn"] or to["name"])
                if to is not None and to["k"] == "fndef" and not c["v"]:
                    return self.fnval(to["callee"])
            if ty["k"] == "fndef" and not c["v"]:
                return self.fnval(ty["callee"])
            return mk("raw", str(c["v"]), ty["show"])
        if k == "fnptr":
            return mk("fn", str(c["v"]))
        return mk("const", str(c), self.prog.types[t]["show"] if t is not None else "")

    def fnval(self, callee):
        key = (callee["res"][0] if callee.get("res") else callee["path"]) + ("|" + callee["path"])
        self.fncallees[key] = callee
        return mk("fn", key)

    def operand(self, st, fn, o):
        if o[0] in ("cp", "mv"):
            p = o[1]
            if not p[1]:
                return self.read(st, (st.ctx.id, p[0]), ())
            return self.read(st, *self.locate(st, fn, p))
        if o[0] == "k":
            return self.const(st, o[1])
        return mk("rc", str(o[1]))

    def optype(self, fn, o):
        if o[0] in ("cp", "mv"):
            return self.placeinfo(fn, o[1])[2]
        if o[0] == "k":
            return o[1].get("t")
        return None

    def note(self, t, v):
        """record that v has unsigned type t"""
        if t is None:
            return
        ii = self.int_info(t)
        if ii and not ii[0]:
            if v.op not in ("int", "lin", "bits", "bool"):
                NONNEG.add(v)
                w = WIDTH.get(v)
                if w is None or ii[1] < w:
                    WIDTH[v] = ii[1]

    # -- rvalues
    def rvalue(self, st, fn, rv, dest_ty):
        k = rv[0]
        if k == "use":
            return self.operand(st, fn, rv[1])
        if k == "ref":
            root, path = self.locate(st, fn, rv[2])
            if rv[1] == "m":
                v = self.read(st, root, path)
                if v.op == "ref" and rv[2][1] and rv[2][1][-1] == "*" and False:
                    return v
                return mk("ref", root, path)
            if rv[1] == "raw":
                return mk("ref", root, path)
            return self.read(st, root, path)
        if k == "agg":
            vals = [self.operand(st, fn, o) for o in rv[4]]
            if rv[1] in ("array", "tuple"):
                return mk("agg", rv[1], None, *vals)
            if rv[1] == "closure":
                t = self.prog.types[rv[2]]
                return mk("clo", t["fn"] or t["name"], *vals)
            if rv[1] == "adt":
                t = self.prog.types[rv[2]]
                n = self.adt_name(rv[2])
                if n in TRANSPARENT and vals:
                    return vals[0]
                return mk("agg", n, t["variants"][rv[3]]["name"] if t["enum"] else None, *vals)
            if rv[1] == "union":
                return vals[0] if vals else UNDEF
            return vals[0]
        if k in ("bin", "chk"):
            a = self.operand(st, fn, rv[2])
            b = self.operand(st, fn, rv[3])
            ta, tb = self.optype(fn, rv[2]), self.optype(fn, rv[3])
            self.note(ta, a)
            self.note(tb, b)
            v, ovf = self.binop(st, rv[1], a, b, ta if ta is not None else tb, dest_ty)
            if k == "chk":
                return mk("agg", "tuple", None, v, ovf)
            return v
        if k == "un":
            a = self.operand(st, fn, rv[2])
            if rv[1] == "Not":
                t = self.optype(fn, rv[2])
                if t is not None and self.prog.types[t]["k"] == "bool":
                    return Not(a)
                ii = self.int_info(t)
                return from_bits(tuple((1 - x) if isinstance(x, int) else (mk("notbit", x[0], x[1]), 0) for x in to_bits(a, ii[1])))
            if rv[1] == "Neg":
                t = self.optype(fn, rv[2])
                if t is not None and self.prog.types[t]["k"] == "float":
                    return mk("float", repr(-float(a.args[0]))) if a.op == "float" else mk("fneg", a)
                return neg(a)
            if rv[1] == "PtrMetadata":
                return terms.length(a)
            return mk("un", rv[1], a)
        if k == "cast":
            a = self.operand(st, fn, rv[2])
            ck = rv[1]
            t0 = self.optype(fn, rv[2])
            if ck in ("PtrToPtr", "Transmute") and self.writable(rv[3]) and not self.writable(t0):
                # a shared place made writable behind the compiler's back
                self.event(st, "store", mk("str", "raw pointer"), self.snap(st, a))
            if ck == "IntToInt":
                self.note(t0, a)
                i0, i1 = self.int_info(t0) if t0 is not None else None, self.int_info(rv[3])
                if a.op == "int":
                    v = a.args[0] & ((1 << i1[1]) - 1)
                    if i1[0] and v >> (i1[1] - 1):
                        v -= 1 << i1[1]
                    return I(v)
                if a.op == "bool":
                    return I(1 if a.args[0] else 0)
                if i0 and i1 and (i1[1] < i0[1]):
                    if self.bits:
                        a = zero_bits(a, i0[1], st.facts)
                        return from_bits(to_bits(a, i0[1])[:i1[1]])
                    return a if not i0[0] and fits(a, i1[1] - i1[0], st.facts) else mk("strunc" if i1[0] else "trunc", a, i1[1])
                if i0 and i1 and i0[1] == i1[1] < 64 and i0[0] != i1[0] and self.prog.types[t0]["k"] != "bool":
                    # the same bits read with a sign, or without
                    if a.op == "resign" and a.args[1] == i1[1]:
                        return a.args[0]
                    return a if not i0[0] and fits(a, i1[1] - 1, st.facts) else mk("resign", a, i1[1])
                if i0 and self.prog.types[t0]["k"] == "bool":
                    return mk("b2i", a)
                return a
            if ck == "IntToFloat":
                if a.op == "int":
                    return mk("float", repr(float(a.args[0])))
                return mk(self.float_of(rv[3]), a)
            if ck == "FloatToInt":
                return mk("toint", a)
            if ck == "FloatToFloat":
                return float_cast(a, self.prog.types[t0].get("f") if t0 is not None else None, self.prog.types[rv[3]].get("f"))
            return a
        if k == "discr":
            root, path = self.locate(st, fn, rv[1])
            v = self.read(st, root, path)
            return self.discr(v, self.placeinfo(fn, rv[1])[2])
        if k == "len":
            return terms.length(self.read(st, *self.locate(st, fn, rv[1])))
        if k == "repeat":
            x = self.operand(st, fn, rv[1])
            n = rv[2]
            if isinstance(n, int) and n <= 32:
                return mk("agg", "array", None, *([x] * n))
            return mk("repeat", x, n)
        return mk("rv", str(rv))

    def discr(self, v, t):
        ty = self.prog.types[t]
        if ty["k"] == "adt" and ty["enum"]:
            if v.op == "agg":
                for vr in ty["variants"]:
                    if vr["name"] == v.args[1]:
                        return I(vr["discr"])
                return I(0)
            d = mk("discr", v)
            self.discr_ty[v] = t
            return d
        return I(0)

    def binop(self, st, op, a, b, t, dest_ty):
        FALSE_ = FALSE
        ty = self.prog.types[self.prog.strip(t)] if t is not None else {"k": "?"}
        k = ty["k"]
        if k == "bool":
            if op in ("Eq", "Ne"):
                r = eq(a, b)
                return (r if op == "Eq" else Not(r)), FALSE_
            if op in ("BitAnd", "BitOr", "BitXor"):
                if a.op == "bool" and b.op != "bool":
                    a, b = b, a
                if b.op == "bool":
                    if op == "BitAnd":
                        return (a if b.args[0] else FALSE), FALSE_
                    if op == "BitOr":
                        return (TRUE if b.args[0] else a), FALSE_
                    return (Not(a) if b.args[0] else a), FALSE_
                if a is b:
                    return (a if op != "BitXor" else FALSE), FALSE_
                x, y = sorted((a, b), key=lambda z: z.id)
                return mk({"BitAnd": "and", "BitOr": "or", "BitXor": "xor"}[op], x, y), FALSE_
        if k == "float":
            if op == "Lt":
                return fcmp("lt", a, b), FALSE_
            if op == "Le":
                return fcmp("le", a, b), FALSE_
            if op == "Gt":
                return fcmp("gt", a, b), FALSE_
            if op == "Ge":
                return fcmp("ge", a, b), FALSE_
            if op in ("Eq", "Ne"):
                x, y = sorted((a, b), key=lambda z: z.id)
                r = mk("feq", x, y)
                return (r if op == "Eq" else Not(r)), FALSE_
            n = {"Add": "fadd", "Sub": "fsub", "Mul": "fmul", "Div": "fdiv", "Rem": "frem"}[op]
            return fbin(n, a, b), FALSE_
        if k in ("int", "char"):
            signed, w = self.int_info(self.prog.strip(t))
            if op == "Add" and self.bits and not signed and "bits" in (a.op, b.op):
                x, y = to_bits(a, w), to_bits(b, w)
                if all(p == 0 or q == 0 for p, q in zip(x, y)):     # nothing is carried
                    return from_bits(tuple(q if p == 0 else p for p, q in zip(x, y))), FALSE_
            if op == "Add":
                r = add(a, b)
                if r.op == "int":
                    return r, B(not self.inrange(r.args[0], signed, w))
                return r, self.overflow("add", r, signed, w)
            if op == "Sub":
                r = sub(a, b)
                if r.op == "int":
                    return r, B(not self.inrange(r.args[0], signed, w))
                return r, (lt(a, b) if not signed else mk("ovf", "sub", r, w))
            if op == "Mul":
                r = mul(a, b)
                if r.op == "int":
                    return r, B(not self.inrange(r.args[0], signed, w))
                return r, mk("ovf", "mul", r, w)
            if op in ("Eq", "Ne"):
                r = self.variant_test(a, b) or self.variant_test(b, a) or self.biteq(a, b, w)
                return (r if op == "Eq" else Not(r)), FALSE_
            if op in ("Lt", "Le", "Gt", "Ge"):
                x, y = (a, b) if op in ("Lt", "Ge") else (b, a)
                r = self.bitlt(x, y, w) if self.bits and not signed else lt(x, y)
                return (r if op in ("Lt", "Gt") else Not(r)), FALSE_
            if op == "Cmp":
                if a is b:
                    return agg("Ordering", "Equal"), FALSE_
                return intcmp(a, b), FALSE_
            if op in ("Div", "Rem"):
                if a.op == "int" and b.op == "int" and b.args[0]:
                    x, y = a.args[0], b.args[0]
                    q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                    return I(q if op == "Div" else x - q * y), FALSE_
                if self.bits and not signed and b.op == "int" and b.args[0] > 0 and b.args[0] & (b.args[0] - 1) == 0:
                    n, bits = b.args[0].bit_length() - 1, to_bits(a, w)
                    return from_bits(bits[n:] + (0,) * n if op == "Div" else bits[:n] + (0,) * (w - n)), FALSE_
                return mk("div" if op == "Div" else "rem", a, b), FALSE_
            if op in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
                if b.op == "int":
                    n = b.args[0]
                    bad = B(not (0 <= n < w))
                    bits = to_bits(a, w)
                    if op.startswith("Shl"):
                        return from_bits(((0,) * n + bits)[:w]), bad
                    return from_bits(bits[n:] + (0,) * min(n, w)), bad
                return mk(op.lower()[:3], a, b), mk("ovf", "shift", b, w)
            if op in ("BitAnd", "BitOr", "BitXor"):
                x, y = to_bits(a, w), to_bits(b, w)
                if op == "BitXor":
                    return mk("xor", *sorted((a, b), key=lambda z: z.id)), FALSE_
                f = bit_and if op == "BitAnd" else bit_or
                return from_bits(tuple(f(p, q) for p, q in zip(x, y))), FALSE_
        if op in ("Eq", "Ne"):
            r = eq(a, b)
            return (r if op == "Eq" else Not(r)), FALSE_
        if op == "Offset":
            return mk("offset", a, b), FALSE_
        return mk("bin", op, a, b), FALSE_

    def variant_test(self, a, b):
        """discriminant = constant, as a test of the variant"""
        if a.op == "b2i" and b.op == "int":
            return a.args[0] if b.args[0] == 1 else Not(a.args[0]) if b.args[0] == 0 else FALSE
        if a.op != "discr" or b.op != "int" or a.args[0] not in self.discr_ty:
            return None
        e = a.args[0]
        if self.split_cmp and (e in INTCMP or e.op == "pcmp"):
            return None
        for v in self.prog.types[self.discr_ty[e]].get("variants", ()):
            if v["discr"] == b.args[0]:
                if e.op == "oldval":
                    h = terms.mhas(*e.args)
                    return h if v["name"] == "Some" else Not(h)
                return mk("is", e, v["name"])
        return None

    def overflow(self, op, r, signed, w):
        if op == "add" and not signed and w < 64:
            return lt(I(2 ** w - 1), r)
        return mk("ovf", op, r, w)

    def inrange(self, v, signed, w):
        if signed:
            return -(1 << (w - 1)) <= v < (1 << (w - 1))
        return 0 <= v < (1 << w)

    def bitlt(self, a, b, w):
        """a < b; against a power of two, whether the higher bits are zero"""
        if b.op == "int" and a.op != "int" and b.args[0] > 0 and b.args[0] & (b.args[0] - 1) == 0:
            return self.biteq(from_bits(to_bits(a, w)[b.args[0].bit_length() - 1:]), I(0), w)
        if a.op == "int" and b.op != "int" and a.args[0] & (a.args[0] + 1) == 0:
            return Not(self.biteq(from_bits(to_bits(b, w)[a.args[0].bit_length():]), I(0), w))
        return lt(a, b)

    def biteq(self, a, b, w):
        if a.op == "bits" or b.op == "bits":
            x, y = to_bits(a, w), to_bits(b, w)
            un = []
            for p, q in zip(x, y):
                if p == q:
                    continue
                if isinstance(p, int) and isinstance(q, int):
                    return FALSE
                un.append((p, q))
            if not un:
                return TRUE
            if len(un) == 1:
                p, q = un[0]
                if isinstance(p, int):
                    p, q = q, p
                if isinstance(q, int):
                    t = bit_term(p)
                    return t if q else Not(t)
            return mk("beq", from_bits(x), from_bits(y))
        return ieq(a, b)

    # -- events
    def event(self, st, kind, *args):
        c = st.ctx
        b = st.block
        # attribute the event to the innermost frame of the analysed crate
        best = None
        while c is not None:
            if c.fn.kind == "mir":
                best = (c.fn, b)
                if c.fn.f["local"]:
                    break
            b = c.site
            c = c.parent
        if best is None:
            best = (st.ctx.fn, st.block)
        fn, b = best
        st.ev.append(Ev(kind, args, fn.where(b), st.facts, fn.path))

    # -- forks
    def addfact(self, st, p, v):
        while p.op == "not":
            p, v = p.args[0], not v
        if p.op == "bool":
            return
        st.facts = dict(st.facts)
        st.facts[p] = v
        if p.op in ("and", "or"):
            if (p.op == "and") == v:
                for q in p.args:
                    self.addfact(st, q, v)

    def subst_state(self, st, t, r):
        tid = t.id
        memo = {}

        def go(v):
            if tid not in v.subs:
                return v
            if v is t:
                return r
            x = memo.get(v)
            if x is not None:
                return x
            if v.op == "not" and v.args[0] is t:
                x = Not(r)
            elif v.op in ("agg", "clo"):
                a = tuple(go(y) if isinstance(y, T) else y for y in v.args)
                x = mk(v.op, *a)
            else:
                x = v
            memo[v] = x
            return x

        for root, v in st.mem.items():
            if tid in v.subs:
                st.mem[root] = go(v)

    def fork_bool(self, st, p):
        """-> list of (state, bool)"""
        q = p.args[0] if p.op == "not" else p
        if q.op in BOOLOPS and len(q.args) == 2 and (q.op != "eq" or any(x.op in BOOLISH for x in q.args)):
            out = []
            for s, x in self.fork_bool(st, q.args[0]):
                for s2, y in self.fork_bool(s, q.args[1]):
                    out.append((s2, BOOLOPS[q.op](x, y) != (p.op == "not")))
            return out
        d = decide(p, st.facts)
        if d is not None:
            return [(st, d)]
        if contains(p, UNDEF):
            raise Undecided("a branch on a value the analysis lost in %s" % st.ctx.fn.path)
        out = []
        base = p.args[0] if p.op == "not" else p
        for v in (True, False):
            s = st.copy()
            bv = v if p.op != "not" else not v
            self.addfact(s, base, bv)
            self.subst_state(s, base, B(bv))
            out.append((s, v))
        return out

    def enum_of(self, t):
        """variant table {name: [field names]} of an opaque enum value"""
        ty = self.discr_ty.get(t)
        if ty is not None:
            vs = self.prog.types[ty]["variants"]
            return self.adt_name(ty), {v["name"]: [f[0] for f in v["fields"]] for v in vs}
        return None

    def fork_enum(self, st, t, name, table, only=None):
        """-> list of (state, variant, value)"""
        if t.op == "agg":
            return [(st, t.args[1], t)]
        if t.op == "oldval":
            # what an insertion displaced
            out = []
            for s, b in self.fork_bool(st, terms.mhas(*t.args)):
                val = mk("agg", "Option", "Some", terms.mapget(*t.args)) if b else mk("agg", "Option", "None")
                self.subst_state(s, t, val)
                out.append((s, val.args[1], val))
            return out
        if self.split_cmp and (t in INTCMP or t.op == "pcmp"):
            return self.fork_order(st, t)
        poss = []
        for v in table:
            p = mk("is", t, v)
            d = decide(p, st.facts)
            if d is True:
                poss = [v]
                break
            if d is None:
                poss.append(v)
        out = []
        for v in poss:
            val = mk("agg", name, v, *[mk("fld", mk("as", t, v), str(f)) for f in table[v]])
            s = st if len(poss) == 1 else st.copy()
            if s.facts.get(mk("is", t, v)) is not True:
                self.addfact(s, mk("is", t, v), True)
            self.subst_state(s, t, val)
            out.append((s, v, val))
        return out

    def fork_order(self, st, t):
        """the outcomes of a comparison of numbers, as the tests they stand for"""
        x, y = t.args[:2]
        if t.op == "pcmp":
            tests = [(fcmp("lt", x, y), "Less"), (fcmp("lt", y, x), "Greater"), (fcmp("le", x, y), "Equal")]
        else:
            tests = [(lt(x, y), "Less"), (lt(y, x), "Greater")]
        out = []
        cur = st
        for p, v in tests:
            nxt = None
            for s, b in self.fork_bool(cur, p):
                if b:
                    out.append((s, v))
                else:
                    nxt = s
            cur = nxt
            if cur is None:
                break
        if cur is not None:
            out.append((cur, None if t.op == "pcmp" else "Equal"))
        r = []
        for s, v in out:
            val = mk("agg", "Ordering", v) if v else None
            if t.op == "pcmp":
                val = mk("agg", "Option", "Some", val) if v else mk("agg", "Option", "None")
            self.subst_state(s, t, val)
            r.append((s, val.args[1], val))
        return r

    # -- model expression evaluation
    def mexpr(self, st, e):
        k = e[0]
        if k == "var":
            return self.read(st, (st.ctx.id, e[1]), ())
        if k == "addr":
            return mk("ref", (st.ctx.id, e[1]), ())
        if k == "const":
            v = e[1]
            if v is None:
                return NONE if False else UNIT
            if isinstance(v, bool):
                return B(v)
            if isinstance(v, int):
                return I(v)
            if isinstance(v, float):
                return mk("float", repr(v))
            return v
        from models import BUILTINS
        args = [self.mexpr(st, a) for a in e[2]]
        return BUILTINS[e[1]](self, st, *args)

    # -- calls
    def push(self, st, fn, args, site):
        c = self.mkctx(st.ctx, fn, site)
        if fn.kind == "mir":
            for i, a in enumerate(args):
                st.mem[(c.id, i + 1)] = a
        else:
            if fn.vararg:
                n = len(fn.params)
                for p, a in zip(fn.params, args[:n]):
                    st.mem[(c.id, p)] = a
                st.mem[(c.id, fn.vararg)] = mk("agg", "tuple", None, *args[n:])
            else:
                if len(fn.params) != len(args):
                    raise Undecided("model %s arity %d" % (fn.id, len(args)))
                for p, a in zip(fn.params, args):
                    st.mem[(c.id, p)] = a
        st.ctx, st.block, st.idx = c, 0, 0
        return [st]

    def ret_to(self, st, v):
        """return value v from the current frame to its caller"""
        c = st.ctx
        p = c.parent
        st.ctx = p
        if p is None:
            raise AssertionError
        return self.finish_call(st, p, c.site, v)

    def finish_call(self, st, p, site, v):
        if p.fn.kind == "mir":
            t = p.fn.blocks[site]["t"]
            if t[4] is None:
                self.event(st, "panic", mk("str", "diverge"))
                st.block = -2
                return [st]
            st.block = site
            self.write(st, *self.locate(st, p.fn, t[3]), v)
            self.note(self.placeinfo(p.fn, t[3])[2], v)
            st.block, st.idx = t[4], 0
        else:
            ins = p.fn.blocks[site][-1]
            st.mem[(p.id, ins[1])] = v
            st.block, st.idx = ins[4], 0
        return [st]

    def invoke_value(self, st, f, args, site):
        """call a closure / fn item / opaque function value with args (list)"""
        holder = None
        g = f
        n = 0
        while g.op == "ref":
            holder = g
            g = self.read(st, g.args[0], g.args[1])
            n += 1
            if n > 20:
                raise Undecided("closure reference chain")
        if g.op == "clo":
            fid = g.args[0]
            if self.prog.fns.get(fid):
                fn = self.view(fid)
                if fid in st.ctx.chain:
                    return self.leafcall(st, "rec:" + fn.path, [g] + list(args), site)
                envty = self.prog.types[fn.locals[1]]
                if envty["k"] == "ref" and envty["mut"]:
                    if holder is None:
                        root = ("E", st.ctx.id, site)
                        st.mem[root] = g
                        holder = mk("ref", root, ())
                    env = holder
                else:
                    env = g
                return self.push(st, fn, [env] + list(args), site)
        if g.op == "fn":
            callee = self.fncallees.get(g.args[0])
            if callee is not None:
                return self.call_callee(st, callee, list(args), site, None)
        if g.op == "mirfn":
            return self.push(st, self.view(g.args[0]), list(args), site)
        if g.op == "pyfn":
            return self.finish_call(st, st.ctx, site, self.proj(args[0], ("f", 1, "1")))
        # opaque function value
        sargs = [self.snap(st, a) for a in args]
        r = mk("app", self.snap(st, g), *sargs)
        self.event(st, "callout", self.snap(st, g), *sargs)
        for i, a in enumerate(args):
            for j, x in enumerate(self.inner_refs(st, a)):
                self.storeref(st, x, mk("out", "app%d" % i if x is a else "app%d.%d" % (i, j), r))
        return self.finish_call(st, st.ctx, site, r)

    def writable(self, ti):
        """a reference or pointer that can be written through"""
        t = None if ti is None else self.prog.types[ti]
        return bool(t and t["k"] in ("ref", "ptr") and t.get("mut"))

    def leafcall(self, st, name, args, site, retunit=False, extra=()):
        if st.ctx.fn.kind == "mir":
            t = st.ctx.fn.blocks[site]["t"]
            dt = self.placeinfo(st.ctx.fn, t[3])[2] if t[0] == "call" else None
            if self.writable(dt) and (self.prog.types[dt]["k"] == "ptr" or name.endswith("transmute")) and not any(a.op == "ref" for a in args):
                self.event(st, "store", mk("str", "raw pointer"), *[self.snap(st, a) for a in args])
        sargs = [canon(self.snap(st, a)) for a in args]
        r = mk("call", name, *sargs, *extra)
        self.leaves[name] = self.leaves.get(name, 0) + 1
        self.event(st, "call", name, *sargs)
        for i, a in enumerate(args):
            for j, x in enumerate(self.inner_refs(st, a)):
                self.storeref(st, x, mk("out", name, i if x is a else (i, j), *sargs))
        return self.finish_call(st, st.ctx, site, r)

    def inner_refs(self, st, a):
        """the places that a value handed to unknown code can be used to write to"""
        out, todo = [], [a]
        while todo:
            x = todo.pop()
            if not x.refs:
                continue
            if x.op == "ref":
                if x not in out:
                    out.append(x)
                    todo.append(self.load(st, x))
                continue
            stack = list(x.args)
            while stack:
                y = stack.pop()
                if isinstance(y, tuple):
                    stack += y
                elif hasattr(y, "refs"):
                    todo.append(y)
        return out

    def reccall(self, st, fid, args, site):
        """a call of a function that is already being analysed"""
        nm = self.recname.get(fid)
        if nm:
            self.recs.setdefault(fid, set()).add(tuple(canon(self.snap(st, a)) for a in args[nm[1]:]))
            return self.leafcall(st, nm[0], args[:nm[1]], site, extra=self.world(st))
        return self.leafcall(st, "rec:" + self.prog.fns[fid]["path"], args, site, extra=self.world(st))

    def call_callee(self, st, c, args, site, argtys, checked=False):
        name = norm_name(c["path"])
        fid = c.get("fn")
        exported = fid is not None and self.prog.fns.get(fid) is not None
        local = exported and self.prog.fns[fid]["local"]
        if exported and local and self.opname is not None:
            nm = self.opname(fid, self.prog.fns[fid]["path"])
            if isinstance(nm, tuple) and nm[0] == "=":
                return self.push(st, self.models[nm[1]], args, site)
            if isinstance(nm, tuple):
                return self.leafcall(st, nm[0], args[:nm[1]], site, extra=self.world(st))
            if nm is not None:
                return self.leafcall(st, nm, args, site, extra=self.world(st))
        if exported and local and self.opaque(fid, self.prog.fns[fid]["path"]):
            return self.leafcall(st, "fn:" + self.prog.fns[fid]["path"], args, site, extra=self.world(st))
        if name in PANICS:
            self.event(st, "panic", mk("str", name), *[self.snap(st, a) for a in args[:1]])
            st.block = -2
            return [st]
        if name in ("Fn::call", "FnMut::call_mut", "FnOnce::call_once"):
            tup = args[1]
            targs = list(tup.args[2:]) if tup.op == "agg" else [self.proj(tup, ("f", i, str(i))) for i in range(self.arity(c))]
            return self.invoke_value(st, args[0], targs, site)
        if not local:
            from models import PRE, PYMODELS
            m = PYMODELS.get(name)
            if name in PRE and not checked:
                states, out = [st], []
                for cond in PRE[name](self, st, args):
                    nxt = []
                    for s in states:
                        for s2, b in self.fork_bool(s, cond):
                            if b:
                                nxt.append(s2)
                            else:
                                self.event(s2, "panic", mk("str", "argument of %s out of range" % name))
                                s2.block = -2
                                out.append(s2)
                    states = nxt
                if len(states) == 1 and not out and states[0] is st:
                    pass
                else:
                    for s in states:
                        out += self.call_callee(s, c, args, site, argtys, checked=True)
                    return out
            if m is not None:
                r = m(self, st, c, args, argtys)
                if isinstance(r, T):
                    return self.finish_call(st, st.ctx, site, r)
                if isinstance(r, list):      # list of (state, value)
                    out = []
                    for s, v in r:
                        if isinstance(v, tuple):
                            self.event(s, "panic", mk("str", v[1]))
                            s.block = -2
                            out.append(s)
                        else:
                            out += self.finish_call(s, s.ctx, site, v)
                    return out
                if isinstance(r, tuple):     # (model name, args)
                    if r[0] == "invoke":
                        return self.invoke_value(st, r[1], r[2], site)
                    if r[0] == "panic":
                        self.event(st, "panic", mk("str", r[1]))
                        st.block = -2
                        return [st]
                    if r[0] == "mirfn":
                        if r[1] in st.ctx.chain:
                            return self.reccall(st, r[1], r[2], site)
                        self.inlined.add(r[1])
                        return self.push(st, self.view(r[1]), r[2], site)
                    return self.push(st, self.models[r[0]], r[1], site)
        if exported:
            if fid in st.ctx.chain:
                return self.reccall(st, fid, args, site)
            self.inlined.add(fid)
            fn = self.view(fid)
            sp = fn.f.get("spread")
            if sp:
                args = args[:-1] + list(args[-1].args[2:]) if args[-1].op == "agg" else args
            return self.push(st, fn, args, site)
        # leaf
        nm = self.opname.leaf(name) if hasattr(self.opname, "leaf") else None
        if nm is not None and nm[0] == "=":
            return self.push(st, self.models[nm[1]], args, site)
        if nm is not None:
            return self.leafcall(st, nm[0], args[:nm[1]], site)
        extra = ()
        if not args or c.get("trait"):
            res = c["res"][0] if c.get("res") else c["path"]
            extra = ("@" + res,) if not args else ()
        if not self.harmless(name, args):
            # a library function the engine knows nothing about: it may panic, or call what it is given
            self.event(st, "unknown", mk("str", name), *[self.snap(st, a) for a in args])
        return self.leafcall(st, name, args, site, extra=extra)

    def float_of(self, ti):
        """a number as a 32-bit or as a 64-bit float"""
        return "tofloat64" if self.prog.types[ti].get("f") == "F64" else "tofloat"

    def harmless(self, name, args):
        """calling this library function cannot do more than yield a value and change what it is lent"""
        if self.prog.crate != "indexer_lib":
            return True
        if not TOTAL.search(name):
            return False
        return all(self.inert(f) for a in args for f in closures(a))

    def inert(self, fid, seen=None):
        """running the function cannot panic or reach the outside"""
        seen = set() if seen is None else seen
        if fid in seen:
            return True
        seen.add(fid)
        f = self.prog.fns.get(fid)
        if f is None:
            return bool(TOTAL.search(norm_name(fid)))
        for b in f["blocks"]:
            t = b["t"]
            if t[0] == "assert":
                return False
            if t[0] == "call":
                if t[1][0] != "def":
                    return False
                c = t[1][1]
                if c.get("fn") and self.prog.fns.get(c["fn"]):
                    if not self.inert(c["fn"], seen):
                        return False
                elif not TOTAL.search(norm_name(c["path"])):
                    return False
        return True

    def world(self, st):
        """what a called function of the crate may read besides its arguments: the shared cells, once written"""
        w = st.mem[WORLD]
        return () if w.op == "world" else (w,)

    def arity(self, c):
        for a in c.get("args", []):
            if isinstance(a, int) and self.prog.types[a]["k"] == "tuple":
                return len(self.prog.types[a]["args"])
        return 1

    # -- one block
    def step(self, st):
        """execute from the start of st.block; returns successor states (positioned at a block start)"""
        fn = st.ctx.fn
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Undecided("state budget exceeded in %s" % self.entry)
        if fn.kind == "model":
            return self.step_model(st, fn)
        blk = fn.blocks[st.block]
        for s in blk["s"]:
            if s[0] == "=":
                pl = s[1]
                if not pl[1]:
                    ty = fn.locals[pl[0]]
                    v = self.rvalue(st, fn, s[2], ty)
                    st.mem[(st.ctx.id, pl[0])] = v
                else:
                    ty = self.placeinfo(fn, pl)[2]
                    v = self.rvalue(st, fn, s[2], ty)
                    root, path = self.locate(st, fn, pl)
                    self.write(st, root, path, v)
                    if root[0] == "S":
                        self.event(st, "write", root[1], v)
                self.note(ty, v)
            elif s[0] == "dead":
                pass
        t = blk["t"]
        k = t[0]
        if k == "goto":
            st.block = t[1]
            return [st]
        if k == "switch":
            return self.switch(st, fn, t)
        if k == "return":
            v = self.read(st, (st.ctx.id, 0), ())
            if fn.locals and self.prog.types[fn.locals[0]]["k"] == "tuple" and not self.prog.types[fn.locals[0]]["args"]:
                v = UNIT
            if st.ctx.parent is None:
                st.mem["ret"] = self.snap(st, v)
                st.block = -1
                return [st]
            return self.ret_to(st, v)
        if k == "drop":
            v = self.read(st, *self.locate(st, fn, t[1]))
            n = self.prog.runs_drop(self.placeinfo(fn, t[1])[2])
            if n is not None and v.op != "undef":
                # the destructor's code is not followed: its running is an effect of its own
                self.event(st, "store", mk("str", "drop " + n), self.snap(st, v))
            self.drop(st, v)
            st.block = t[2]
            return [st]
        if k == "assert":
            c = self.operand(st, fn, t[1])
            out = []
            for s, v in self.fork_bool(st, c):
                if v == t[2]:
                    s.block = t[4]
                else:
                    self.event(s, "panic", mk("str", "assert:" + str(t[3][0] if isinstance(t[3], list) else t[3])))
                    s.block = -2
                out.append(s)
            return out
        if k == "call":
            args = [self.operand(st, fn, o) for o in t[2]]
            for o, a in zip(t[2], args):
                self.note(self.optype(fn, o), a)
            if t[1][0] == "dyn":
                f = self.operand(st, fn, t[1][1])
                return self.invoke_value(st, f, args, st.block)
            return self.call_callee(st, t[1][1], args, st.block, t[5] if len(t) > 5 else None)
        if k == "unreachable":
            return []
        if k == "resume":
            return []
        raise Undecided("terminator %s" % k)

    def step_model(self, st, fn):
        for ins in fn.blocks[st.block]:
            k = ins[0]
            if k == "set":
                v = self.mexpr(st, ins[2])
                st.mem[(st.ctx.id, ins[1])] = v
            elif k == "jmp":
                st.block = ins[1]
                return [st]
            elif k == "br":
                c = self.mexpr(st, ins[1])
                out = []
                if isinstance(c, tuple) and c[0] == "isvar":
                    _, t, var = c
                    nm, table = ("Option", OPTION) if var in OPTION else ("Result", RESULT) if var in RESULT else self.enum_of(t) or (None, None)
                    if t.op == "agg":
                        st.block = ins[2] if t.args[1] == var else ins[3]
                        return [st]
                    if table is None:
                        raise Undecided("variant test on %s" % show(t))
                    for s, v, _ in self.fork_enum(st, t, nm, table):
                        s.block = ins[2] if v == var else ins[3]
                        out.append(s)
                    return out
                for s, v in self.fork_bool(st, c):
                    s.block = ins[2] if v else ins[3]
                    out.append(s)
                return out
            elif k == "ret":
                v = self.mexpr(st, ins[1])
                if st.ctx.parent is None:
                    st.mem["ret"] = self.snap(st, v)
                    st.block = -1
                    return [st]
                return self.ret_to(st, v)
            elif k == "call":
                args = [self.mexpr(st, a) for a in ins[3]]
                return self.mcall(st, ins[2], args, st.block)
        raise Undecided("model fell through")

    def mcall(self, st, name, args, site):
        if name == "call":
            return self.invoke_value(st, args[0], args[1:], site)
        if name == "next" or name == "next_back":
            return self.next_(st, args[0], site, name)
        if name == "collect_vec" and args[0].op == "agg" and args[0].args[:2] == ("It", "seq"):
            return self.finish_call(st, st.ctx, site, terms.slice_(*args[0].args[2:]))
        m = self.models.get(name)
        if m is None:
            raise Undecided("unknown model " + name)
        return self.push(st, m, args, site)

    def next_(self, st, r, site, which="next"):
        """advance the iterator behind reference r"""
        if r.op != "ref":
            # an opaque iterator value: cannot advance in place
            root = ("N", st.ctx.id, site)
            st.mem[root] = r
            r = mk("ref", root, ())
        v = self.load(st, r)
        n = 0
        while v.op == "ref":
            r = v
            v = self.load(st, r)
            n += 1
            if n > 20:
                raise Undecided("iterator chain")
        if v.op == "agg" and v.args[0] == "It":
            m = self.models.get(which + "_" + v.args[1])
            if m is None:
                raise Undecided("no %s model for iterator %s" % (which, v.args[1]))
            return self.push(st, m, [r], site)
        if v.op == "agg" and v.args[0] in ("Range", "RangeInclusive", "RangeFrom"):
            return self.push(st, self.models[which + "_" + v.args[0]], [r], site)
        if v.op == "agg" and v.args[0] not in ("It",):
            # a user-defined iterator
            for fid, f in self.prog.fns.items():
                if f and f["local"] and f["path"].endswith("std::iter::Iterator>::next") and ("::" + v.args[0]) in f["path"].split(" as ")[0]:
                    return self.push(st, self.view(fid), [r], site)
            raise Undecided("next on %s" % show(v))
        # opaque iterator: view it as a sequence
        self.itargs.add(v)
        self.write(st, r.args[0], r.args[1], mk("agg", "It", "seq", v, I(0), terms.length(v)))
        return self.push(st, self.models[which + "_seq"], [r], site)

    def cellwrite(self, st, h, x):
        """the contents of all shared cells are one value, which every write renews"""
        self.event(st, "cells", h, x)
        st.mem[WORLD] = terms.wput(st.mem[WORLD], h, x)

    def drop(self, st, v, depth=0):
        if depth > 6 or not v.refs:
            return
        if v.op == "agg":
            if v.args[0] == "MutexGuard":
                r = v.args[2]
                self.event(st, "unlock", r.args[0][1], self.snap(st, self.load(st, r)))
                return
            if v.args[0] == "RefMut":
                r = v.args[2]
                if r.args[0][0] == "R":
                    cur = self.load(st, r)
                    if cur is not v.args[3]:
                        self.cellwrite(st, r.args[0][1], self.snap(st, cur))
                    st.mem.pop(r.args[0], None)
                else:
                    self.event(st, "heapwrite", self.snap(st, self.load(st, r)))
                return
            for a in v.args[2:]:
                self.drop(st, a, depth + 1)

    def switch(self, st, fn, t):
        v = self.operand(st, fn, t[1])
        cases, other = t[3], t[4]
        if v.op == "bool":
            v = I(1 if v.args[0] else 0)
        if v.op == "int":
            ii = self.int_info(t[2]) if isinstance(t[2], int) else None
            for c, b in cases:
                if c == v.args[0] or (ii and (c - v.args[0]) % (1 << ii[1]) == 0):
                    st.block = b
                    return [st]
            st.block = other
            return [st] if other is not None else []
        if v.op == "discr":
            e = v.args[0]
            nm, table = self.enum_of(e)
            ty = self.discr_ty[e]
            dv = {vr["name"]: vr["discr"] for vr in self.prog.types[ty]["variants"]}
            cm = {}
            bits = 128
            for c, b in cases:
                cm[c] = b
            out = []
            for s, var, _ in self.fork_enum(st, e, nm, table):
                d = dv[var]
                b = other
                for c in cm:
                    if c == d or (d < 0 and c in (d + (1 << 8), d + (1 << 16), d + (1 << 32), d + (1 << 64), d + (1 << 128))):
                        b = cm[c]
                if b is None:
                    continue
                s.block = b
                out.append(s)
            return out
        ty = self.prog.types[self.optype(fn, t[1])]
        if ty["k"] == "bool":
            m = dict((c, b) for c, b in cases)
            out = []
            for s, bv in self.fork_bool(st, v):
                s.block = m.get(1 if bv else 0, other)
                out.append(s)
            return out
        out = []
        cur = st
        for c, b in cases:
            p = self.biteq(v, I(c), 64)
            forks = self.fork_bool(cur, p)
            cur = None
            for s, bv in forks:
                if bv:
                    s.block = b
                    out.append(s)
                else:
                    cur = s
            if cur is None:
                break
        if cur is not None and other is not None:
            cur.block = other
            out.append(cur)
        return out

    # -- state canonicalisation
    def gc(self, st):
        live = {}
        c = st.ctx
        if st.block >= 0:
            keep = []
            for l in c.fn.live_in[st.block]:
                keep.append((c.id, l))
            while c.parent is not None:
                p = c.parent
                for l in p.fn.live_after_call(c.site):
                    keep.append((p.id, l))
                c = p
        else:
            keep = ["ret"] if st.block == -1 else []
        work = []
        for r in keep:
            if r in st.mem:
                live[r] = st.mem[r]
                work.append(st.mem[r])
        for r, v in st.mem.items():
            if r[0] in ("A", "W"):
                live[r] = v
                work.append(v)
        while work:
            v = work.pop()
            for root in v.refs:
                if root not in live:
                    if root in st.mem:
                        live[root] = st.mem[root]
                        work.append(st.mem[root])
        st.mem = live

    def skeleton(self, v, loc, out):
        op = v.op
        if op == "agg":
            if self.coarse and v.args[0] == "Option":
                return
            if v.args[1] is not None:
                out.append((loc, v.args[0], v.args[1]))
            for i, a in enumerate(v.args[2:]):
                if isinstance(a, T):
                    self.skeleton(a, loc + (i,), out)
        elif op == "bool" and not self.coarse:
            out.append((loc, v.args[0]))
        elif op == "ref":
            out.append((loc, v.args[0], tuple(e if e[0] in "fv" else e[0] for e in v.args[1])))
        elif op in ("clo", "fn"):
            out.append((loc, v.args[0]))
            if op == "clo":
                for i, a in enumerate(v.args[1:]):
                    self.skeleton(a, loc + (i,), out)
        elif op == "bits" and self.bits:
            out.append((loc, v.id))
        elif op == "int":
            if (self.curhead, loc) in self.eligible:
                if abs(v.args[0]) > 128:
                    raise Runaway((self.curhead, loc))
                out.append((loc, v.args[0]))

    def shape(self, st):
        out = []
        self.curhead = (st.ctx.id, st.block)
        for r in sorted(st.mem, key=str):
            self.skeleton(st.mem[r], (r,), out)
        return tuple(out)

    def widen(self, a, node, loc):
        """a value at a loop head, with the variables known to vary there"""
        if (node.isum, loc) in self.varying:
            return mk("phi", node.isum, loc)
        if a.op == "agg" and a.args[0] != "veclit" and len(a.args) > 2:
            return mk("agg", a.args[0], a.args[1], *[self.widen(x, node, loc + (i,)) for i, x in enumerate(a.args[2:])])
        if a.op in ("entries", "keys", "vals") and terms.single(a.args[0]):
            return mk(a.op, self.widen(a.args[0], node, loc))
        if terms.single(a):
            return mk("mput", a.args[0], a.args[1], self.widen(a.args[2], node, loc + ("only",)))
        if a.op == "clo" and len(a.args) > 1:
            return mk("clo", a.args[0], *[self.widen(x, node, loc + (i,)) for i, x in enumerate(a.args[1:])])
        if a.op == "ref":
            path = []
            for k, x in enumerate(a.args[1]):
                path.append(x if x[0] in "fv" else (x[0],) + tuple(self.widen(u, node, loc + ("p%d.%d" % (k, i),)) for i, u in enumerate(x[1:])))
            return mk("ref", a.args[0], tuple(path))
        return a

    def join(self, a, b, node, loc):
        if a is b:
            return a
        if a.op == "phi" and a.args[0] == node.isum and a.args[1] == loc:
            return a
        if a.op == "agg" and b.op == "agg" and a.args[:2] == b.args[:2] and len(a.args) == len(b.args) and a.args[0] != "veclit":
            return mk("agg", a.args[0], a.args[1], *[self.join(x, y, node, loc + (i,)) for i, (x, y) in enumerate(zip(a.args[2:], b.args[2:]))])
        if a.op in ("entries", "keys", "vals") and b.op == a.op and terms.single(a.args[0]) and terms.single(b.args[0]) and a.args[0].args[1] is b.args[0].args[1]:
            return mk(a.op, self.join(a.args[0], b.args[0], node, loc))
        if terms.single(a) and terms.single(b) and a.args[1] is b.args[1]:
            return mk("mput", a.args[0], a.args[1], self.join(a.args[2], b.args[2], node, loc + ("only",)))
        if a.op == "clo" and b.op == "clo" and a.args[0] == b.args[0] and len(a.args) == len(b.args):
            return mk("clo", a.args[0], *[self.join(x, y, node, loc + (i,)) for i, (x, y) in enumerate(zip(a.args[1:], b.args[1:]))])
        if a.op == "ref" and b.op == "ref" and a.args[0] == b.args[0] and len(a.args[1]) == len(b.args[1]):
            path = []
            for k, (x, y) in enumerate(zip(a.args[1], b.args[1])):
                if x[0] in "fv":
                    path.append(x)
                else:
                    path.append((x[0],) + tuple(self.join(u, w, node, loc + ("p%d.%d" % (k, i),)) for i, (u, w) in enumerate(zip(x[1:], y[1:]))))
            return mk("ref", a.args[0], tuple(path))
        p = mk("phi", node.isum, loc)
        if a in NONNEG or b in NONNEG or (a.op == "int" and a.args[0] >= 0 and b.op in ("int", "lin") and (lin_parts(b)[0] >= 0)):
            pass
        return p

    # -- exploration
    def node_for(self, st):
        """find or create the node for the state at its boundary"""
        self.gc(st)
        if st.block == -1:
            key = ("ret", frozenset((str(r), v.id) for r, v in st.mem.items()))
        elif st.block == -2:
            e = st.ev[-1]
            key = ("panic", e.at, e.args[0].id)
            st.mem = {}
        else:
            if st.block in st.ctx.fn.heads:
                key = ("head", st.ctx.id, st.block, self.shape(st))
            else:
                key = ("at", st.ctx.id, st.block, frozenset((r, v.id) for r, v in st.mem.items()))
        n = self.nodes.get(key)
        if n is None:
            n = Node()
            n.id = len(self.nodes)
            n.key = key
            n.kind = key[0]
            n.ctx, n.block = st.ctx, st.block
            n.mem = dict(st.mem)
            n.facts = dict(st.facts)
            n.out = None
            n.value = st.mem.get("ret")
            n.at = st.ev[-1].at if n.kind == "panic" else (st.ctx.fn.where(st.block) if st.block >= 0 else "return")
            if n.kind == "head":
                h = self.headids.get(key)
                if h is None:
                    h = self.headids[key] = self.headbase + len(self.headids)
                n.isum = h
                self.headinfo[h] = n
                if self.varying:
                    for r in list(n.mem):
                        n.mem[r] = self.widen(n.mem[r], n, (r,))
            self.nodes[key] = n
            if len(self.nodes) > self.MAX_NODES:
                raise Undecided("the loops of %s do not close" % self.entry)
            return n, True
        changed = False
        if n.kind == "head":
            for r in st.mem:
                if r not in n.mem and r[0] == "A" and isinstance(r[1], tuple):
                    n.mem[r] = r[1][1]
                    changed = True
            for r in list(n.mem):
                if r not in st.mem and r[0] == "A" and isinstance(r[1], tuple):
                    st.mem[r] = r[1][1]
                if r not in st.mem:
                    if r[0] in ("A",):
                        continue
                    del n.mem[r]
                    changed = True
                    continue
                j = self.join(n.mem[r], st.mem[r], n, (r,))
                if j is not n.mem[r]:
                    n.mem[r] = j
                    changed = True
        if len(n.facts) and n.facts != st.facts:
            nf = {}
            for f, v in n.facts.items():
                if st.facts.get(f) is v:
                    nf[f] = v
            if len(nf) != len(n.facts):
                n.facts = nf
                changed = True
        return n, changed

    def expand(self, n, final=False):
        st = St()
        st.mem = dict(n.mem)
        st.facts = n.facts
        st.ev = []
        st.ctx, st.block, st.idx = n.ctx, n.block, 0
        stack = [st]
        first = True
        out = []
        while stack:
            s = stack.pop()
            while True:
                if not first and (s.block < 0 or s.ctx.fn.merge[s.block]):
                    arr = dict(s.mem) if final else None
                    facts = s.facts
                    pre = s
                    d, ch = self.node_for(s)
                    e = Edge()
                    e.src, e.dst, e.ev, e.facts = n, d, s.ev, facts
                    e.phi = {}
                    if final:
                        if ch:
                            self.unstable = True
                        if d.kind == "head":
                            for r, v in d.mem.items():
                                if r in s.mem:
                                    self.phi_in(d, v, s.mem[r], (r,), e, s)
                    out.append(e)
                    if ch and not final:
                        self.work.append(d)
                    break
                first = False
                nx = self.step(s)
                if not nx:
                    break
                for y in nx[1:]:
                    stack.append(y)
                s = nx[0]
        n.out = out

    def phi_in(self, d, v, w, loc, e, st):
        if v.op == "phi" and v.args[0] == d.isum and v.args[1] == loc:
            e.phi[v] = self.snap(st, w)
            return
        if v is w:
            return
        if v.op in ("agg", "clo") and v.op == w.op and len(v.args) == len(w.args):
            k = 2 if v.op == "agg" else 1
            for i, (x, y) in enumerate(zip(v.args[k:], w.args[k:])):
                self.phi_in(d, x, y, loc + (i,), e, st)
        if v.op == w.op and v.op in ("entries", "keys", "vals"):
            self.phi_in(d, v.args[0], w.args[0], loc, e, st)
        if terms.single(v) and terms.single(w):
            self.phi_in(d, v.args[2], w.args[2], loc + ("only",), e, st)
        if v.op == "ref" and w.op == "ref" and v.args[0] == w.args[0] and len(v.args[1]) == len(w.args[1]):
            for k, (x, y) in enumerate(zip(v.args[1], w.args[1])):
                if x[0] not in "fv":
                    for i, (u, z) in enumerate(zip(x[1:], y[1:])):
                        self.phi_in(d, u, z, loc + ("p%d.%d" % (k, i),), e, st)

    def run(self, fid, args=None, setup=None):
        """explore function fid; &mut arguments get 'A' roots"""
        fn = self.view(fid) if isinstance(fid, str) else fid
        self.entry = fn.path
        self.restarts = 0
        self.total = 0
        for _ in range(12):
            n = len(self.itargs)
            try:
                g = self.run1(fn, args, setup)
                if len(self.itargs) != n:
                    # arguments used as iterators are sequences from the start
                    g = self.run1(fn, args, setup)
            except Runaway as x:
                # the constants it is compared with do not bound it
                self.unbounded.add(x.args[0])
                self.eligible.discard(x.args[0])
                continue
            new = self.find_bounded(g) - self.unbounded
            if not new - self.eligible:
                return self.again(fn, args, setup, g)
            self.eligible |= new
            self.restarts += 1
        return self.again(fn, args, setup, g)

    REFINE = False
    TIES = False

    def again(self, fn, args, setup, g):
        """the graph once more, knowing what varies at each loop head: values that only differed because an outer
        loop was not yet known to change them are then the same from the start, and facts about them are kept"""
        if not self.REFINE:
            return g
        val = {}
        done = False
        while not done:
            done = True
            for p, ins in g.phis.items():
                if p in val:
                    continue
                vs = {val.get(v, v) for _, v in ins} - {p}
                if len(vs) == 1:
                    val[p] = vs.pop()
                    done = False
        if not val:
            return g
        self.varying = {(p.args[0], p.args[1]) for p in g.phis if p not in val}
        try:
            return self.run1(fn, args, setup)
        finally:
            self.varying = None

    def run_spec(self, name, args, mem):
        """explore a model-language function; args are terms, mem the initial roots"""
        fn = self.models[name]

        def setup(eng, st):
            st.mem.update(mem)
            for p, a in zip(fn.params, args):
                st.mem[(st.ctx.id, p)] = a
            assert len(fn.params) == len(args), (fn.params, args)

        return self.run(fn, None, setup)

    def initial(self, fn, args, setup):
        st = St()
        st.mem = {WORLD: mk("world")}
        st.facts = {}
        st.ev = []
        st.ctx = self.mkctx(None, fn, 0)
        st.block = 0
        st.idx = 0
        for i in range(fn.nargs if fn.kind == "mir" else 0):
            t = fn.locals[i + 1]
            nm = self.argnames[i] if self.argnames and i < len(self.argnames) else fn.name(i + 1)
            a = mk("arg", nm) if args is None or i >= len(args) or args[i] is None else args[i]
            ty = self.prog.types[t]
            if ty["k"] == "ref" and ty["mut"] and a.op != "ref":
                st.mem[("A", nm)] = a
                a = mk("ref", ("A", nm), ())
            self.note(t, a)
            if a in self.itargs and a.op == "arg":
                a = mk("agg", "It", "seq", a, I(0), terms.length(a))
            st.mem[(st.ctx.id, i + 1)] = a
        if setup:
            setup(self, st)
        return st

    def run1(self, fn, args, setup):
        self.nodes = {}
        self.headinfo = {}
        if not self.varying:
            self.headids = {}
        self.work = []
        self.steps = 0
        st = self.initial(fn, args, setup)
        root = Node()
        root.id = 0
        root.key = ("entry",)
        root.kind = "at"
        root.ctx, root.block = st.ctx, 0
        root.mem, root.facts = st.mem, st.facts
        root.out = None
        root.value = None
        root.at = fn.where(0)
        self.nodes[root.key] = root
        self.work = [root]
        while self.work:
            n = self.work.pop(0)
            if n.kind in ("ret", "panic"):
                n.out = []
                continue
            # skip if a newer request is queued
            if n in self.work:
                continue
            self.expand(n)
        for _ in range(60):
            # final sweep over reachable nodes, recording phi inputs
            self.unstable = False
            seen = {root.id: root}
            order = [root]
            q = [root]
            while q:
                n = q.pop(0)
                if n.kind in ("ret", "panic"):
                    n.out = []
                    continue
                self.expand(n, final=True)
                for e in n.out:
                    if e.dst.id not in seen:
                        seen[e.dst.id] = e.dst
                        order.append(e.dst)
                        q.append(e.dst)
            if not self.unstable:
                break
        else:
            raise Undecided("no fixpoint for %s" % self.entry)
        if os.environ.get("VERIF_SIZE"):
            print("size", len(self.nodes), self.entry)
        return Graph(self, fn, root, order)

    def find_bounded(self, g):
        """loop variables compared only with constants: candidates for unrolling"""
        out = set()
        cand = {}
        for n in g.nodes:
            for e in n.out:
                for f in e.facts:
                    if f.op in ("pos", "eq0"):
                        c, L = lin_split(f.args[0])
                        if len(L) == 1 and L[0][0].op == "phi":
                            cand.setdefault(L[0][0], set()).add(abs(c))
        for p, cs in cand.items():
            ins = g.phis.get(p, [])
            ok = True
            step = False
            for e, v in ins:
                c, L = lin_split(v)
                if not L:
                    if abs(c) > 64:
                        ok = False
                elif L == ((p, 1),) and c != 0:
                    step = True
                elif len(L) == 1 and L[0][0].op == "phi":
                    step = True
                else:
                    ok = False
            if ok and step and min(cs) <= self.loop_cap:
                h = self.headinfo[p.args[0]]
                out.add(((h.ctx.id, h.block), p.args[1]))
        return out


def canon(t):
    """eta-contract constructor copies: Some(x@Some.0) -> x"""
    def go(x):
        if x.op == "agg" and x.args[1] is not None and len(x.args) > 2:
            fs = [go(a) for a in x.args[2:]]
            f0 = fs[0]
            if f0.op == "fld" and f0.args[0].op == "as" and f0.args[0].args[1] == x.args[1]:
                base = f0.args[0]
                if all(f.op == "fld" and f.args[0] is base for f in fs):
                    return base.args[0]
            return mk("agg", x.args[0], x.args[1], *fs)
        if x.op == "agg" and x.args[0] == "array" and len(x.args) == 2:
            return mk("vec")
        if x.op in ("agg", "call", "clo"):
            return mk(x.op, *_mapargs(x.args, go))
        return x
    return go(t)


class Graph:
    def __init__(self, eng, fn, root, nodes):
        self.eng = eng
        self.fn = fn
        self.root = root
        self.nodes = nodes
        self.phis = {}
        self.ins = {n.id: [] for n in nodes}
        for n in nodes:
            for e in n.out:
                self.ins[e.dst.id].append(e)
                for p, v in e.phi.items():
                    self.phis.setdefault(p, []).append((e, v))

    @property
    def rets(self):
        return [n for n in self.nodes if n.kind == "ret"]

    @property
    def panics(self):
        return [n for n in self.nodes if n.kind == "panic"]

    def edges(self):
        for n in self.nodes:
            for e in n.out:
                yield e

    def events(self, kind=None, name=None):
        for e in self.edges():
            for ev in e.ev:
                if kind is None or ev.kind == kind:
                    if name is None or ev.args and ev.args[0] == name:
                        yield e, ev

    def argmem(self, n, name):
        return n.mem.get(("A", name))

    def phi_name(self, p):
        h = self.eng.headinfo[p.args[0]]
        loc = p.args[1]
        r = loc[0]
        nm = str(r)
        if isinstance(r, tuple) and isinstance(r[0], int):
            c = next((c for c in self.eng.ctxs.values() if c.id == r[0]), None)
            if c:
                nm = c.fn.name(r[1])
        return nm + "".join(".%s" % x for x in loc[1:])

    def dump(self, out=sys.stdout):
        for n in self.nodes:
            print("n%d %s %s %s" % (n.id, n.kind, n.ctx.fn.path[-50:] if n.kind in ("head", "at") else "", n.at), show(n.value) if n.value is not None else "", file=out)
            if n.kind == "ret":
                for r, v in n.mem.items():
                    if r != "ret":
                        print("     final", r, "=", show(v), file=out)
            if n.kind == "head":
                for r, v in n.mem.items():
                    print("     ", r, "=", show(v), file=out)
            for e in n.out:
                print("   -> n%d" % e.dst.id, file=out)
                for ev in e.ev:
                    print("        ev", ev, file=out)
                for f, v in e.facts.items():
                    if n.facts.get(f) is not v:
                        print("        if", "" if v else "!", show(f), file=out)
                for p, v in e.phi.items():
                    print("        phi", show(p), ":=", show(v), file=out)
