"""Interned provenance terms: the abstract values of the analysis."""


import os
import random


class T:
    __slots__ = ("op", "args", "id", "refs", "subs", "_h", "_ls", "_zone", "__weakref__")

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
_EMPTY = frozenset()
_number = None


def scramble(seed):
    """number terms at random (seed 0: in order of creation). Nothing that is proved depends on the numbers, but which
    relation between loop variables is tried first does."""
    global _number
    r = random.Random(seed)
    _number = (lambda: r.getrandbits(60)) if seed else None


scramble(int(os.environ.get("VERIF_SCRAMBLE") or 0))


def _kids(args):
    for a in args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            yield from _kids(a)


def mk(op, *args):
    key = (op, args)
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = args
    t.id = _number() if _number else len(_tab)
    t._h = hash(t.id * 2654435761)
    refs = _EMPTY
    subs = {t.id}
    for k in _kids(args):
        if k.refs:
            refs = refs | k.refs
        subs |= k.subs
    if op == "ref":
        refs = refs | {args[0]}
    t.refs = refs
    t.subs = frozenset(subs)
    _tab[key] = t
    return t


_base = None


def forget():
    """start anew: terms are numbered in order of creation, and an analysis must not depend on earlier ones.
    Terms made before the first analysis (by the modules themselves) stay."""
    global _base
    if _base is None:
        _base = dict(_tab)
    _tab.clear()
    _tab.update(_base)


def again(t):
    """a term of an earlier analysis, made anew"""
    return rebuild(t.op, tuple(again(a) if isinstance(a, T) else _mapargs(a, again) if isinstance(a, tuple) else a for a in t.args)) if t is not None else None


def kids(t):
    return list(_kids(t.args))


def contains(t, x):
    return x.id in t.subs


def walk(t):
    """all subterms, each once"""
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        stack.extend(_kids(x.args))


def _mapargs(args, f):
    ch = False
    out = []
    for a in args:
        if isinstance(a, T):
            b = f(a)
        elif isinstance(a, tuple):
            b = _mapargs(a, f)
        else:
            b = a
        if b is not a:
            ch = True
        out.append(b)
    return tuple(out) if ch else args


def rebuild(op, args):
    """re-make a term, re-normalising arithmetic/boolean operators"""
    f = _norm.get(op)
    if f:
        return f(*args)
    return mk(op, *args)


def subst(t, m, memo=None):
    """replace terms (dict T->T)"""
    if memo is None:
        memo = {}
    ids = frozenset(k.id for k in m)

    def go(x):
        if not (x.subs & ids):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x in m:
            r = m[x]
        else:
            a = _mapargs(x.args, go)
            r = x if a is x.args else rebuild(x.op, a)
        memo[x] = r
        return r

    return go(t)


# ---- constants -------------------------------------------------------------
def I(v):
    return mk("int", v)


def B(v):
    return mk("bool", bool(v))


TRUE, FALSE = B(True), B(False)
UNIT = mk("agg", "tuple", None)
UNDEF = mk("undef")


def agg(name, var, *fs):
    return mk("agg", name, var, *fs)


def Some(x):
    return agg("Option", "Some", x)


NONE = agg("Option", "None")


def is_const(t):
    return t.op in ("int", "bool", "str", "char", "float")


def is_agg(t, name=None, var=None):
    return t.op == "agg" and (name is None or t.args[0] == name) and (var is None or t.args[1] == var)


def fields(t):
    return t.args[2:]


# ---- linear integer arithmetic --------------------------------------------
def lin_parts(t):
    if t.op == "int":
        return t.args[0], {}
    if t.op == "lin":
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}


def lin_make(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return I(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return mk("lin", c, tuple(sorted(d.items(), key=lambda kv: kv[0].id)))


def add(a, b):
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    for k, v in db.items():
        da[k] = da.get(k, 0) + v
    return lin_make(ca + cb, da)


def neg(a):
    c, d = lin_parts(a)
    return lin_make(-c, {k: -v for k, v in d.items()})


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    if not da:
        return lin_make(ca * cb, {k: v * ca for k, v in db.items()})
    if not db:
        return lin_make(ca * cb, {k: v * cb for k, v in da.items()})
    x, y = sorted((a, b), key=lambda z: z.id)
    return mk("mul", x, y)


# ---- booleans --------------------------------------------------------------
def Not(b):
    if b.op == "bool":
        return B(not b.args[0])
    if b.op == "not":
        return b.args[0]
    return mk("not", b)


def pos(d):
    """integer predicate d > 0, canonical sign"""
    c, m = lin_parts(d)
    if not m:
        return B(c > 0)
    # canonical: the coefficient of the lowest-id atom is positive
    k = min(m, key=lambda z: z.id)
    if m[k] < 0:
        return Not(pos(sub(I(1), d)))
    return mk("pos", d)


def lt(a, b):
    return pos(sub(b, a))


def eq0(d):
    c, m = lin_parts(d)
    if not m:
        return B(c == 0)
    k = min(m, key=lambda z: z.id)
    if m[k] < 0:
        d = neg(d)
    return mk("eq0", d)


def ieq(a, b):
    return eq0(sub(a, b))


def eq(a, b):
    """equality of non-integer values"""
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        if a.op == "int" and b.op == "int":
            return B(a.args == b.args)
        return B(a.op == b.op and a.args == b.args)
    if a.op == "agg" and b.op == "agg" and a.args[0] == b.args[0]:
        if a.args[1] != b.args[1]:
            return FALSE
        if len(a.args) == len(b.args) and len(a.args) == 3:
            return eq(a.args[2], b.args[2])
        if len(a.args) == 2:
            return TRUE
    for x, y in ((a, b), (b, a)):
        if x.op == "bool":
            return y if x.args[0] else Not(y)
    if "int" in (a.op, b.op) or "lin" in (a.op, b.op):
        return ieq(a, b)
    if a.op == "bytes" and b.op == "bytes":
        return eq(a.args[0], b.args[0])
    x, y = sorted((a, b), key=lambda z: z.id)
    return mk("eq", x, y)


def _lin_norm(c, parts):
    out = I(c)
    for k, v in parts:
        out = add(out, mul(k, I(v)))
    return out


NONAN = [False]         # no float is NaN: they are constants and results that are known not to be


def fcmp(op, a, b):
    if op == "gt":
        return fcmp("lt", b, a)
    if op == "ge":
        return fcmp("le", b, a)
    if a.op == "float" and b.op == "float":
        x, y = float(a.args[0]), float(b.args[0])
        return B(x < y if op == "lt" else x <= y)
    if NONAN[0] and op == "le":
        return Not(fcmp("lt", b, a))
    return mk("f" + op, a, b)


def index(v, i):
    op = v.op
    if op == "vec" or (op == "agg" and v.args[0] == "array"):
        o = 0 if op == "vec" else 2
        if i.op == "int" and 0 <= i.args[0] < len(v.args) - o:
            return v.args[o + i.args[0]]
        es = v.args[o:]
        if es and all(e is es[0] for e in es):
            return es[0]
        return mk("index", v, i)
    if op == "repeat":
        return v.args[0]
    if op == "slice":
        return index(v.args[0], add(v.args[1], i))
    if op == "vpush":
        if i is length(v.args[0]):
            return v.args[1]
        return mk("index", v, i)
    if op == "vset":
        if i is v.args[1]:
            return v.args[2]
        d = sub(i, v.args[1])
        if d.op == "int":
            return index(v.args[0], i)
        return mk("index", v, i)
    if op == "vpushf":
        if i is I(0):
            return v.args[0]
        if i.op == "int":
            return index(v.args[1], sub(i, I(1)))
        return mk("index", v, i)
    if op == "windows":
        return slice_(v.args[0], i, add(i, v.args[1]))
    if op in ("keys", "vals", "entries") and i.op == "int" and i.args[0] == 0 and single(v.args[0]):
        m = v.args[0]
        return m.args[1] if op == "keys" else m.args[2] if op == "vals" else mk("agg", "tuple", None, m.args[1], m.args[2])
    if op == "keys":
        return mk("key", v.args[0], i)
    if op == "vals":
        return mapget(v.args[0], mk("key", v.args[0], i))
    if op == "entries":
        k = mk("key", v.args[0], i)
        return mk("agg", "tuple", None, k, mapget(v.args[0], k))
    if op == "cidx":
        return mk("agg", "tuple", None, mk("coff", v.args[0], i), mk("index", mk("chars", v.args[0]), i))
    if op == "zip":
        return mk("agg", "tuple", None, index(v.args[0], i), index(v.args[1], i))
    if op == "revseq":
        return index(v.args[0], sub(sub(length(v.args[0]), I(1)), i))
    return mk("index", v, i)


def cellread(h, w):
    """what cell h holds when the cells are w"""
    x = w
    while True:
        if x.op == "wput":
            if x.args[1] is h:
                return x.args[2]
            if not (x.args[1].op == "fresh" and h.op == "fresh"):
                break
            x = x.args[0]
        elif x.op == "walloc":
            if h is mk("fresh", x.args[0]):
                return x.args[1]
            if h.op != "fresh" and not before(h, x):
                break
            x = x.args[0]
        else:
            break
    return mk("cell", h, x)


def before(h, w):
    """handle h is known since the loop head (or the start) from which the cells w were made: no cell made since is h"""
    b = w
    while b.op in ("wput", "walloc"):
        b = b.args[0]
    if b.op not in ("phi", "world"):
        return False
    at = b.args[0] if b.op == "phi" else None
    return not any(x.op in ("fresh", "walloc", "call") or x.op == "phi" and x.args[0] != at for x in walk(h))


def wput(w, h, x):
    """the cells w after writing x to cell h"""
    if w.op == "wput" and w.args[1] is h:
        w = w.args[0]
    if w.op == "walloc" and h is mk("fresh", w.args[0]):
        return mk("walloc", w.args[0], x)
    return mk("wput", w, h, x)


def single(m):
    """a map built with one entry"""
    return m.op == "mput" and m.args[0].op == "mnew"


def length(v):
    op = v.op
    if single(v):
        return I(1)
    if op == "vec":
        return I(len(v.args))
    if op == "agg" and v.args[0] == "array":
        return I(len(v.args) - 2)
    if op == "str":
        return I(len(v.args[0].encode()))
    if op == "repeat":
        return v.args[1] if isinstance(v.args[1], T) else I(v.args[1])
    if op == "slice":
        return sub(v.args[2], v.args[1])
    if op == "vpush":
        return add(length(v.args[0]), I(1))
    if op in ("vset", "sorted", "revseq"):
        return length(v.args[0])
    if op in ("keys", "vals", "entries"):
        return length(v.args[0])
    if op == "mnew":
        return I(0)
    if op == "cidx":
        return length(mk("chars", v.args[0]))
    if op in ("bytes", "utf8"):
        return length(v.args[0])
    if op == "vpushf":
        return add(length(v.args[1]), I(1))
    if op in ("swaprem", "remv"):
        return sub(length(v.args[0]), I(1))
    if op == "insv":
        return add(length(v.args[0]), I(1))
    if op == "windows":
        return sub(add(length(v.args[0]), I(1)), v.args[1])
    if op == "zip":
        return imin(length(v.args[0]), length(v.args[1]))
    if op == "undef":
        return mk("len", v)
    return mk("len", v)


def imin(a, b):
    if a is b:
        return a
    d = sub(a, b)
    if d.op == "int":
        return a if d.args[0] <= 0 else b
    x, y = sorted((a, b), key=lambda z: z.id)
    return mk("min", x, y)


def imax(a, b):
    if a is b:
        return a
    d = sub(a, b)
    if d.op == "int":
        return a if d.args[0] >= 0 else b
    x, y = sorted((a, b), key=lambda z: z.id)
    return mk("max", x, y)


def slice_(v, a, b):
    if v.op == "slice":
        return slice_(v.args[0], add(v.args[1], a), add(v.args[1], b))
    if a is I(0) and b is length(v):
        return v
    if v.op == "vpush" and b.op != "int" or v.op == "vpush":
        if b is length(v.args[0]) or a.op == "int" and b.op == "int" and length(v.args[0]).op == "int" and b.args[0] <= length(v.args[0]).args[0]:
            return slice_(v.args[0], a, b)
    if v.op == "vec" and a.op == "int" and b.op == "int" and 0 <= a.args[0] <= b.args[0] <= len(v.args):
        return mk("vec", *v.args[a.args[0]:b.args[0]])
    if v.op == "agg" and v.args[0] == "array" and a.op == "int" and b.op == "int" and 0 <= a.args[0] <= b.args[0] <= len(v.args) - 2:
        return mk("agg", "array", None, *v.args[2 + a.args[0]:2 + b.args[0]])
    return mk("slice", v, a, b)


def vset(v, i, x):
    if i.op == "int":
        n = i.args[0]
        if v.op == "vec" and 0 <= n < len(v.args):
            a = list(v.args)
            a[n] = x
            return mk("vec", *a)
        if v.op == "agg" and v.args[0] == "array" and 0 <= n < len(v.args) - 2:
            a = list(v.args)
            a[2 + n] = x
            return mk("agg", *a)
    if index(v, i) is x:
        return v
    if v.op == "vset" and v.args[1] is i:
        return vset(v.args[0], i, x)
    return mk("vset", v, i, x)


VEMPTY = None


def vpush(v, x):
    if v.op == "vec" and len(v.args) < 8:
        return mk("vec", *v.args, x)
    return mk("vpush", v, x)


def isdistinct(a, b):
    return is_const(a) and is_const(b) and a is not b or (a.op in ("int", "lin") or b.op in ("int", "lin")) and sub(a, b).op == "int" and a is not b


def mapget(m, k):
    if m.op == "mput":
        if m.args[1] is k:
            return m.args[2]
        if isdistinct(m.args[1], k):
            return mapget(m.args[0], k)
    if m.op == "mdel" and isdistinct(m.args[1], k):
        return mapget(m.args[0], k)
    return mk("mapget", m, k)


def mhas(m, k):
    if m.op == "mnew":
        return FALSE
    if m.op == "mput":
        if m.args[1] is k:
            return TRUE
        if isdistinct(m.args[1], k):
            return mhas(m.args[0], k)
    if m.op == "mdel":
        if m.args[1] is k:
            return FALSE
        if isdistinct(m.args[1], k):
            return mhas(m.args[0], k)
    if k.op == "key" and k.args[0] is m:
        return TRUE
    return mk("has", m, k)


def without(m, x):
    """m as if its part x had not added its last entry"""
    return x.args[0] if m is x else mk("mput", without(m.args[0], x), m.args[1], m.args[2])


def mput(m, k, v):
    if m.op in ("mput", "mdel") and m.args[1] is k:
        return mput(m.args[0], k, v)
    if m.op == "mput" and k.op == "str" and m.args[1].op == "str":
        # entries under different constant names, in the order of the names
        if m.args[1].args[0] > k.args[0]:
            return mput(mput(m.args[0], k, v), m.args[1], m.args[2])
        x = m
        while x.op == "mput" and x.args[1].op == "str":
            if x.args[1] is k:
                return mput(without(m, x), k, v)
            x = x.args[0]
    if mapget(m, k) is v and v.op == "mapget":
        return m
    return mk("mput", m, k, v)


def mdel(m, k):
    if m.op in ("mput", "mdel") and m.args[1] is k:
        return mdel(m.args[0], k)
    if m.op == "mnew":
        return m
    return mk("mdel", m, k)


def fbin(n, a, b):
    if a.op == "float" and b.op == "float":
        x, y = float(a.args[0]), float(b.args[0])
        try:
            r = {"fadd": x + y, "fsub": x - y, "fmul": x * y}.get(n)
            if n == "fdiv":
                r = x / y
            if r is not None:
                return mk("float", repr(r))
        except ZeroDivisionError:
            pass
    if n in ("fadd", "fmul"):
        a, b = sorted((a, b), key=lambda z: z.id)
        for x, y in ((a, b), (b, a)):
            if n == "fmul" and x.op == "float" and float(x.args[0]) == 1.0:
                return y
    if NONAN[0] is True:
        raise ArithmeticError("floats that may be NaN")
    return mk(n, a, b)


def fld(t, name):
    if t.op == "agg":
        if isinstance(name, int):
            return t.args[2 + name] if 2 + name < len(t.args) else mk("fld", t, name)
    return mk("fld", t, name)


def _fld_norm(t, name):
    while t.op == "upd":
        if t.args[1] == name:
            return t.args[2]
        t = t.args[0]
    b = t.args[0] if t.op == "as" else t
    if b.op == "agg" and isinstance(name, str) and name.isdigit() and 2 + int(name) < len(b.args):
        return b.args[2 + int(name)]
    if b.op == "agg" and t.op == "as" and b.args[1] != t.args[1]:
        return UNDEF
    return mk("fld", t, name)


def _is_norm(t, v):
    return B(t.args[1] == v) if t.op == "agg" else mk("is", t, v)


def ite(c, a, b):
    if c.op == "bool":
        return a if c.args[0] else b
    if c.op == "not":
        return ite(c.args[0], b, a)
    return a if a is b else mk("ite", c, a, b)


_norm = {
    "ite": ite,
    "fadd": lambda a, b: fbin("fadd", a, b), "fmul": lambda a, b: fbin("fmul", a, b),
    "fsub": lambda a, b: fbin("fsub", a, b), "fdiv": lambda a, b: fbin("fdiv", a, b),
    "fld": _fld_norm, "is": _is_norm,
    "lin": _lin_norm, "not": Not, "pos": pos, "eq0": eq0, "eq": eq, "mul": mul,
    "flt": lambda a, b: fcmp("lt", a, b), "fle": lambda a, b: fcmp("le", a, b), "index": index, "len": length,
    "has": mhas, "mapget": mapget, "slice": slice_, "min": imin, "max": imax, "vpush": vpush, "vset": vset,
    "mput": mput, "mdel": mdel, "cell": cellread, "wput": wput,
}


# ---- printing --------------------------------------------------------------
_shown = {}


def show(t, depth=9):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, depth - 1) for x in t) + ")"
        return str(t)
    if depth <= 0:
        return "…"
    o, a = t.op, t.args
    d = depth - 1
    if o == "int" or o == "float":
        return str(a[0])
    if o == "bool":
        return "true" if a[0] else "false"
    if o == "str":
        return repr(a[0])
    if o == "char":
        return repr(chr(a[0])) if a[0] < 0x110000 else str(a[0])
    if o == "agg":
        n = a[0] if a[1] is None else "%s::%s" % (a[0], a[1])
        if a[0] == "tuple":
            n = ""
        return n + "(" + ", ".join(show(x, d) for x in a[2:]) + ")"
    if o == "fld":
        return show(a[0], d) + "." + str(a[1])
    if o == "as":
        return show(a[0], d) + "@" + str(a[1])
    if o == "arg":
        return str(a[0])
    if o == "lin":
        return "(" + " + ".join(([str(a[0])] if a[0] else []) + [("" if v == 1 else "%d*" % v) + show(k, d) for k, v in a[1]]) + ")"
    if o == "index":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    if o == "phi":
        return "φ%d.%s" % (a[0], ".".join(str(x) for x in a[1]))
    if o == "ref":
        return "&%s%s" % (a[0][1] if isinstance(a[0], tuple) and len(a[0]) > 1 and not isinstance(a[0][1], T) else "?", "".join("." + (show(p[-1], d) if isinstance(p[-1], T) else str(p[-1])) for p in a[1]))
    if o == "it":
        return "it:%s<%s>" % (a[0], ", ".join(show(x, d) for x in a[1:] if not (isinstance(x, str) and x.startswith("@"))))
    return "%s(%s)" % (o, ", ".join(show(x, d) for x in a if not (isinstance(x, str) and x.startswith("@"))))


def float_cast(a, f, t):
    if f == t or f is None:
        return a
    if t == "F64":
        return a if a.op == "float" else mk("widen", a)
    if a.op == "widen":
        return a.args[0]
    if a.op == "float":
        import struct
        return mk("float", repr(struct.unpack("f", struct.pack("f", float(a.args[0])))[0])) if abs(float(a.args[0])) < 3e38 else mk("narrow", a)
    return mk("narrow", a)
