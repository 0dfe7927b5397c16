"""Models of the library functions the analysed code calls."""
from terms import *
import terms
from minilang import compile_models
from mirload import norm_name


# ---- helpers ----------------------------------------------------------------
def It(kind, *f):
    return mk("agg", "It", kind, *f)


def seq(v, a=None, b=None):
    a = I(0) if a is None else a
    b = terms.length(v) if b is None else b
    return It("seq", v, a, b)


def sub_ref(r, i, name=None):
    return mk("ref", r.args[0], r.args[1] + (("f", i, str(i)),))


def ix_ref(r, i):
    return mk("ref", r.args[0], r.args[1] + (("ix", i),))


def mv_ref(r, k):
    return mk("ref", r.args[0], r.args[1] + (("mv", k),))


# ---- builtins of the mini language -------------------------------------------
def _fi(r):
    return r


def b_get(eng, st, r, i=None):
    v = eng.load(st, r)
    if i is None:
        return v
    return eng.proj(v, ("f", i.args[0], str(i.args[0])))


def b_set(eng, st, r, i, x):
    eng.write(st, r.args[0], r.args[1] + (("f", i.args[0], str(i.args[0])),), x)
    return UNIT


def b_put(eng, st, r, x):
    eng.storeref(st, r, x)
    return UNIT


def b_sub(eng, st, r, i):
    return sub_ref(r, i.args[0])


def b_isvar(var):
    return lambda eng, st, x: ("isvar", x, var) if x.op != "agg" else B(x.args[1] == var)


def b_un(var):
    def f(eng, st, x):
        if x.op == "agg":
            return x.args[2]
        return mk("fld", mk("as", x, var), "0")
    return f


def itpos(v):
    """position of the next element of an iterator, if it is a plain element count"""
    while v.op == "agg" and v.args[0] == "It" and v.args[1] in ("map", "inspect", "enumpos"):
        v = v.args[2]
    if v.op == "agg" and v.args[0] == "It" and v.args[1] == "seq":
        return v.args[3]
    if v.op == "agg" and v.args[0] == "It" and v.args[1] == "seqmut":
        return v.args[3]
    return None


def b_itpos(eng, st, r):
    v = eng.load(st, r)
    p = itpos(v)
    return p if p is not None else mk("undef")


def b_tup(eng, st, *a):
    return mk("agg", "tuple", None, *a)


def b_tupn(eng, st, x, i):
    return eng.proj(x, ("f", i.args[0], str(i.args[0])))


def b_ixref(eng, st, r, i):
    return ix_ref(eng.load(st, r) if False else r, i)


def b_spush(eng, st, s, c):
    return mk("spush", s, c)


def b_event(eng, st, name, *a):
    eng.event(st, name, *[eng.snap(st, x) if isinstance(x, T) else x for x in a])
    return UNIT


def b_sumadd(eng, st, a, x, isf):
    if a.op == "float" or isf.op == "bool" and isf.args[0]:
        return fbin("fadd", a, x)
    return add(a, x)


def b_mget(eng, st, m, k):
    return mapget(m, k)


def b_fld(eng, st, x, name):
    while x.op == "ref":
        x = eng.load(st, x)
    if x.op == "agg":
        fs = eng.fieldnames(x.args[0], x.args[1])
        if fs and name in fs:
            return x.args[2 + fs.index(name)]
        if name.startswith("_") and name[1:].isdigit():
            return x.args[2 + int(name[1:])]
        raise KeyError("%s has no field %s" % (x.args[0], name))
    if name.startswith("_") and name[1:].isdigit():
        name = name[1:]
    return terms._fld_norm(x, name)


def b_setfld(eng, st, r, name, x):
    """x.name = v: writes through a reference, builds a new value otherwise"""
    v = eng.load(st, r)
    p = None
    if v.op == "agg":
        p = eng.fieldnames(v.args[0], v.args[1]).index(name)
    if r.op == "ref":
        eng.write(st, r.args[0], r.args[1] + (("f", p, name),), x)
        return r
    return eng.setproj(v, ("f", p, name), x)


def b_new(eng, st, ty, *kv):
    d = {kv[i][1:] if kv[i][:1] == "_" and kv[i][1:].isdigit() else kv[i].rstrip("_"): kv[i + 1] for i in range(0, len(kv), 2)}
    name, var = ty.split("::") if "::" in ty else (ty, None)
    fs = eng.fieldnames(name, var)
    if fs is None:
        raise KeyError(ty)
    if set(d) - set(fs):
        raise KeyError("%s has no field %s, it has %s" % (ty, set(d) - set(fs), fs))
    return mk("agg", name, var, *[d.get(f, mk("any")) for f in fs])


def b_auto(f):
    def g(eng, st, *a):
        return f(*[eng.load(st, x) if isinstance(x, T) and x.op == "ref" else x for x in a])
    return g


def b_snap(eng, st, x):
    return eng.snap(st, x)


def b_var(eng, st, x, v, *f):
    """payload of variant v of x"""
    n = f[0] if f else "0"
    n = str(n.args[0]) if isinstance(n, T) else n
    if x.op == "agg":
        if n.isdigit():
            return x.args[2 + int(n)]
        return x.args[2 + eng.fieldnames(x.args[0], x.args[1]).index(n)]
    return mk("fld", mk("as", x, v), n)


def b_call(eng, st, name, *a):
    """a leaf call as an observable"""
    sargs = [canon_(eng.snap(st, x)) for x in a]
    eng.event(st, "call", name, *sargs)
    return mk("call", name, *sargs)


def b_lcall(eng, st, name, *a):
    """a leaf call that changes what it is given by reference"""
    sargs = [canon_(eng.snap(st, x)) for x in a]
    eng.event(st, "call", name, *sargs)
    for i, x in enumerate(a):
        if x.op == "ref":
            eng.storeref(st, x, mk("out", name, i, *sargs))
    return mk("call", name, *sargs)


def bitlist(x, w=64):
    from interp import to_bits
    return to_bits(x, w)


def from_bits_(b):
    from interp import from_bits
    return from_bits(b)


def bitpred(b):
    from interp import bit_term
    return B(bool(b)) if isinstance(b, int) else bit_term(b)


def canon_(t):
    from interp import canon
    return canon(t)



def newcell_(eng, st, x):
    return newcell(eng, st, x)


BUILTINS = {
    "repeat_": lambda e, s, x, n: mk("repeat", x, n),
    "fadd": lambda e, s, a, b: fbin("fadd", a, b), "fmul": lambda e, s, a, b: fbin("fmul", a, b),
    "fle": lambda e, s, a, b: fcmp("le", a, b), "flt": lambda e, s, a, b: fcmp("lt", a, b),
    "x_": lambda e, s: mk("arg", "$x"), "y_": lambda e, s: mk("arg", "$y"),
    "sorted_": lambda e, s, v, d, k, m: mk("sorted", v, d, k, m),
    "Some": lambda e, s, x: Some(x), "Nope": lambda e, s: NONE,
    "Ok": lambda e, s, x: agg("Result", "Ok", x), "Err": lambda e, s, x: agg("Result", "Err", x),
    "is_some": b_isvar("Some"), "is_ok": b_isvar("Ok"), "unsome": b_un("Some"), "unok": b_un("Ok"), "unerr": b_un("Err"),
    "get": b_get, "set": b_set, "put": b_put, "subref": b_sub, "tup": b_tup, "tupn": b_tupn,
    "add": lambda e, s, a, b: add(a, b), "sub_": lambda e, s, a, b: sub(a, b), "lt": lambda e, s, a, b: lt(a, b),
    "ieq": lambda e, s, a, b: ieq(a, b), "length": lambda e, s, v: terms.length(v), "index": lambda e, s, v, i: index(v, i),
    "not_": lambda e, s, b: (b[0], b[1], b[2]) if isinstance(b, tuple) else Not(b), "vec0": lambda e, s: mk("vec"), "vpush": lambda e, s, v, x: vpush(v, x),
    "mnew": lambda e, s: mk("mnew"), "mput": lambda e, s, m, k, v: mput(m, k, v), "mdel": lambda e, s, m, k: mdel(m, k),
    "addovf": lambda e, s, a, b: mk("ovf", "add", add(a, b), 64), "mhas": lambda e, s, m, k: mhas(m, k), "mget": b_mget, "imin": lambda e, s, a, b: imin(a, b),
    "key": lambda e, s, m, i: mk("key", m, i), "val": lambda e, s, m, i: mapget(m, mk("key", m, i)),
    "itpos": b_itpos, "ixref": b_ixref, "mvref": lambda e, s, r, k: mv_ref(r, k), "spush": b_spush, "unit": lambda e, s: UNIT,
    "emptystr": lambda e, s: mk("str", ""), "event": b_event, "sumadd": b_sumadd,
    "seqof": lambda e, s, v: seq(v), "same": lambda e, s, a, b: B(a is b), "addr": None,
    "asiter": lambda e, s, v: as_iter_value(e, s, v),
    "itmk": lambda e, s, kind, *a: It(kind, *a),
    "fld_": b_fld, "setfld_": b_setfld, "index_": b_auto(index), "mul_": b_auto(mul), "gt_": lambda e, s, a, b: lt(b, a),
    "le_": lambda e, s, a, b: Not(lt(b, a)), "ge_": lambda e, s, a, b: Not(lt(a, b)), "same_": lambda e, s, a, b: eq(a, b),
    "in_": b_auto(lambda k, m: mhas(m, k)), "veclit_": lambda e, s, *a: mk("vec", *a), "new": b_new, "snap": b_snap,
    "str_": lambda e, s, x: mk("str", x), "is_": lambda e, s, x, v: B(x.args[1] == v) if x.op == "agg" else mk("is", x, v),
    "var_": lambda e, s, x, v, *f: b_var(e, s, x, v, *f), "any_": lambda e, s: mk("any"), "pcall": b_call, "lcall": b_lcall,
    "pure": lambda e, s, name, *a: mk("call", name, *[canon_(e.snap(s, x)) for x in a]), "term": lambda e, s, op, *a: (ite if op == "ite" else lambda *z: mk(op, *z))(*[e.snap(s, x) if isinstance(x, T) else x for x in a]),
    "keys": b_auto(lambda m: mk("keys", m)), "vals": b_auto(lambda m: mk("vals", m)), "entries": b_auto(lambda m: mk("entries", m)),
    "slice": b_auto(lambda v, a, b: terms.slice_(v, a, b)), "static_": lambda e, s, x: x, "b_": lambda e, s, x: x, "vset": b_auto(lambda v, i, x: terms.vset(v, i, x)),
    "arr": lambda e, s, *a: mk("agg", "array", None, *a), "imax": b_auto(lambda a, b: terms.imax(a, b)), "app": lambda e, s, *a: mk("app", *a),
    "groups": lambda e, s, x, k, m: from_bits_(tuple(bitlist(x)[7 * k.args[0]:7 * k.args[0] + 7] + (0,) * 7)[:7] + (m.args[0],)),
    "fbyte": lambda e, s, x, k: mk("fbyte", x, k.args[0]),
    "done_": lambda e, s, x, k: e.biteq(from_bits_(bitlist(x)[7 * k.args[0]:]), I(0), 64),
    "gather": lambda e, s, v, n, top: from_bits_((sum((bitlist(index(v, I(i)), 8)[:7] for i in range(n.args[0])), ()) + ((top.args[0],) if n.args[0] == 9 else ()) + (0,) * 64)[:64]),
    "cell": lambda e, s, h: terms.cellread(h, s.mem[("W",)]), "newcell": newcell_, "setcell": lambda e, s, h, x: e.cellwrite(s, h, e.snap(s, x)) or UNIT,
    "wcall": lambda e, s, name, *a: b_call(e, s, name, *a, *e.world(s)),
    "bit_": lambda e, s, x, i: bitpred(bitlist(x, 8)[i.args[0]]),
    "eq": lambda e, s, a, b: (ieq(a, b) if False else eq(a, b)),
}


def as_iter_value(eng, st, v):
    """what flat_map/flatten closures return, as an iterator value"""
    if v.op == "agg":
        if v.args[0] in ("It", "Range", "RangeInclusive"):
            return v
        if v.args[0] == "Option":
            return It("opt", v)
        if v.args[0] == "array":
            return seq(v)
        return v
    if v.op == "ref":
        return v
    return seq(v)


SRC = '''
def iter_next(r):
    x = next(r)
    return x

def iter_next_back(r):
    x = next_back(r)
    return x

def next_seq(r):
    i = get(r, 1)
    if lt(i, get(r, 2)):
        x = index(get(r, 0), i)
        set(r, 1, add(i, 1))
        return Some(x)
    return Nope()

def next_back_seq(r):
    e = get(r, 2)
    if lt(get(r, 1), e):
        x = index(get(r, 0), sub_(e, 1))
        set(r, 2, sub_(e, 1))
        return Some(x)
    return Nope()

def next_seqmut(r):
    i = get(r, 1)
    if lt(i, get(r, 2)):
        x = ixref(get(r, 0), i)
        set(r, 1, add(i, 1))
        return Some(x)
    return Nope()

def next_back_seqmut(r):
    e = get(r, 2)
    if lt(get(r, 1), e):
        x = ixref(get(r, 0), sub_(e, 1))
        set(r, 2, sub_(e, 1))
        return Some(x)
    return Nope()

def next_mapmut(r):
    i = get(r, 2)
    if lt(i, get(r, 3)):
        k = key(get(r, 1), i)
        x = mvref(get(r, 0), k)
        set(r, 2, add(i, 1))
        return Some(tup(k, x))
    return Nope()

def next_Range(r):
    a = get(r, 0)
    if lt(a, get(r, 1)):
        set(r, 0, add(a, 1))
        return Some(a)
    return Nope()

def next_back_Range(r):
    b = get(r, 1)
    if lt(get(r, 0), b):
        set(r, 1, sub_(b, 1))
        return Some(sub_(b, 1))
    return Nope()

def next_RangeFrom(r):
    a = get(r, 0)
    set(r, 0, add(a, 1))
    return Some(a)

def next_RangeInclusive(r):
    a = get(r, 0)
    if lt(a, add(get(r, 1), 1)):
        set(r, 0, add(a, 1))
        return Some(a)
    return Nope()

def next_rev(r):
    x = next_back(subref(r, 0))
    return x

def next_back_rev(r):
    x = next(subref(r, 0))
    return x

def next_opt(r):
    x = get(r, 0)
    set(r, 0, Nope())
    return x

def next_map(r):
    x = next(subref(r, 0))
    if is_some(x):
        y = call(subref(r, 1), unsome(x))
        return Some(y)
    return Nope()

def next_back_map(r):
    x = next_back(subref(r, 0))
    if is_some(x):
        y = call(subref(r, 1), unsome(x))
        return Some(y)
    return Nope()

def next_inspect(r):
    x = next(subref(r, 0))
    if is_some(x):
        y = call(subref(r, 1), unsome(x))
    return x

def next_filter(r):
    while True:
        x = next(subref(r, 0))
        if is_some(x):
            b = call(subref(r, 1), unsome(x))
            if b:
                return x
        else:
            return x

def next_back_filter(r):
    while True:
        x = next_back(subref(r, 0))
        if is_some(x):
            b = call(subref(r, 1), unsome(x))
            if b:
                return x
        else:
            return x

def next_filter_map(r):
    while True:
        x = next(subref(r, 0))
        if is_some(x):
            y = call(subref(r, 1), unsome(x))
            if is_some(y):
                return y
        else:
            return Nope()

def next_take_while(r):
    if get(r, 2):
        return Nope()
    x = next(subref(r, 0))
    if is_some(x):
        b = call(subref(r, 1), unsome(x))
        if b:
            return x
        set(r, 2, True)
    return Nope()

def next_map_while(r):
    x = next(subref(r, 0))
    if is_some(x):
        y = call(subref(r, 1), unsome(x))
        return y
    return Nope()

def next_skip_while(r):
    while True:
        x = next(subref(r, 0))
        if is_some(x):
            if get(r, 2):
                return x
            b = call(subref(r, 1), unsome(x))
            if b:
                pass
            else:
                set(r, 2, True)
                return x
        else:
            return Nope()

def next_enumpos(r):
    n = itpos(subref(r, 0))
    x = next(subref(r, 0))
    if is_some(x):
        return Some(tup(n, unsome(x)))
    return Nope()

def next_enum(r):
    x = next(subref(r, 0))
    if is_some(x):
        n = get(r, 1)
        set(r, 1, add(n, 1))
        return Some(tup(n, unsome(x)))
    return Nope()

def next_zip(r):
    x = next(subref(r, 0))
    if is_some(x):
        y = next(subref(r, 1))
        if is_some(y):
            return Some(tup(unsome(x), unsome(y)))
    return Nope()

def next_chain(r):
    if get(r, 2):
        x = next(subref(r, 0))
        if is_some(x):
            return x
        set(r, 2, False)
        set(r, 0, unit())
    y = next(subref(r, 1))
    return y

def next_take(r):
    n = get(r, 1)
    if lt(0, n):
        set(r, 1, sub_(n, 1))
        x = next(subref(r, 0))
        return x
    return Nope()

def next_skip(r):
    while lt(0, get(r, 1)):
        set(r, 1, sub_(get(r, 1), 1))
        x = next(subref(r, 0))
        if is_some(x):
            pass
        else:
            return Nope()
    y = next(subref(r, 0))
    return y

def next_flat(r):
    while True:
        if is_some(get(r, 2)):
            x = next(subref(subref(r, 2), 0))
            if is_some(x):
                return x
        y = next(subref(r, 0))
        if is_some(y):
            z = call(subref(r, 1), unsome(y))
            set(r, 2, Some(asiter(z)))
        else:
            set(r, 2, Nope())
            return Nope()

def next_flatten(r):
    while True:
        if is_some(get(r, 1)):
            x = next(subref(subref(r, 1), 0))
            if is_some(x):
                return x
        y = next(subref(r, 0))
        if is_some(y):
            set(r, 1, Some(asiter(unsome(y))))
        else:
            set(r, 1, Nope())
            return Nope()

def next_peek(r):
    if is_some(get(r, 1)):
        x = unsome(get(r, 1))
        set(r, 1, Nope())
        return x
    y = next(subref(r, 0))
    return y

def peek(r):
    if is_some(get(r, 1)):
        return unsome(get(r, 1))
    y = next(subref(r, 0))
    set(r, 1, Some(y))
    return y

def next_fromfn(r):
    x = call(subref(r, 0))
    return x

def next_succ(r):
    x = get(r, 0)
    if is_some(x):
        y = call(subref(r, 1), unsome(x))
        set(r, 0, y)
    return x

def next_copied(r):
    x = next(subref(r, 0))
    return x

def collect_vec(it):
    v = vec0()
    while True:
        x = next(addr(it))
        if is_some(x):
            v = vpush(v, unsome(x))
        else:
            return v

def eager(it):
    return seqof(collect_vec(it))

def collect_str(it):
    v = emptystr()
    while True:
        x = next(addr(it))
        if is_some(x):
            v = spush(v, unsome(x))
        else:
            return v

def collect_map(it):
    m = mnew()
    while True:
        x = next(addr(it))
        if is_some(x):
            e = unsome(x)
            m = mput(m, tupn(e, 0), tupn(e, 1))
        else:
            return m

def collect_set(it):
    m = mnew()
    while True:
        x = next(addr(it))
        if is_some(x):
            m = mput(m, unsome(x), unit())
        else:
            return m

def collect_unit(it):
    while True:
        x = next(addr(it))
        if is_some(x):
            pass
        else:
            return unit()

def collect_optvec(it):
    v = vec0()
    while True:
        x = next(addr(it))
        if is_some(x):
            y = unsome(x)
            if is_some(y):
                v = vpush(v, unsome(y))
            else:
                return Nope()
        else:
            return Some(v)

def collect_resvec(it):
    v = vec0()
    while True:
        x = next(addr(it))
        if is_some(x):
            y = unsome(x)
            if is_ok(y):
                v = vpush(v, unok(y))
            else:
                return Err(unerr(y))
        else:
            return Ok(v)

def collect_optmap(it):
    v = mnew()
    while True:
        x = next(addr(it))
        if is_some(x):
            y = unsome(x)
            if is_some(y):
                e = unsome(y)
                v = mput(v, tupn(e, 0), tupn(e, 1))
            else:
                return Nope()
        else:
            return Some(v)

def partition(it, f):
    a = vec0()
    b = vec0()
    while True:
        x = next(addr(it))
        if is_some(x):
            c = call(addr(f), unsome(x))
            if c:
                a = vpush(a, unsome(x))
            else:
                b = vpush(b, unsome(x))
        else:
            return tup(a, b)

def extend_vec(r, it):
    while True:
        x = next(addr(it))
        if is_some(x):
            put(r, vpush(get(r), unsome(x)))
        else:
            return unit()

def extend_str(r, it):
    while True:
        x = next(addr(it))
        if is_some(x):
            put(r, spush(get(r), unsome(x)))
        else:
            return unit()

def extend_map(r, it):
    while True:
        x = next(addr(it))
        if is_some(x):
            e = unsome(x)
            put(r, mput(get(r), tupn(e, 0), tupn(e, 1)))
        else:
            return unit()

def extend_set(r, it):
    while True:
        x = next(addr(it))
        if is_some(x):
            put(r, mput(get(r), unsome(x), unit()))
        else:
            return unit()

def fold(it, init, f):
    acc = init
    while True:
        x = next(addr(it))
        if is_some(x):
            acc = call(addr(f), acc, unsome(x))
        else:
            return acc

def try_fold_opt(r, init, f):
    acc = init
    while True:
        x = next(r)
        if is_some(x):
            y = call(addr(f), acc, unsome(x))
            if is_some(y):
                acc = unsome(y)
            else:
                return Nope()
        else:
            return Some(acc)

def reduce(it, f):
    x0 = next(addr(it))
    if is_some(x0):
        acc = unsome(x0)
        while True:
            x = next(addr(it))
            if is_some(x):
                acc = call(addr(f), acc, unsome(x))
            else:
                return Some(acc)
    return Nope()

def for_each(it, f):
    while True:
        x = next(addr(it))
        if is_some(x):
            call(addr(f), unsome(x))
        else:
            return unit()

def find(r, f):
    while True:
        x = next(r)
        if is_some(x):
            b = call(addr(f), unsome(x))
            if b:
                return x
        else:
            return Nope()

def find_map(r, f):
    while True:
        x = next(r)
        if is_some(x):
            y = call(addr(f), unsome(x))
            if is_some(y):
                return y
        else:
            return Nope()

def any(r, f):
    while True:
        x = next(r)
        if is_some(x):
            b = call(addr(f), unsome(x))
            if b:
                return True
        else:
            return False

def all(r, f):
    while True:
        x = next(r)
        if is_some(x):
            b = call(addr(f), unsome(x))
            if b:
                pass
            else:
                return False
        else:
            return True

def position(r, f):
    n = 0
    while True:
        x = next(r)
        if is_some(x):
            b = call(addr(f), unsome(x))
            if b:
                return Some(n)
            n = add(n, 1)
        else:
            return Nope()

def count(it):
    n = 0
    while True:
        x = next(addr(it))
        if is_some(x):
            n = add(n, 1)
        else:
            return n

def sum(it, zero, isf):
    n = zero
    while True:
        x = next(addr(it))
        if is_some(x):
            n = sumadd(n, unsome(x), isf)
        else:
            return n

def last(it):
    y = Nope()
    while True:
        x = next(addr(it))
        if is_some(x):
            y = x
        else:
            return y

def nth(r, n):
    i = 0
    while lt(i, n):
        x = next(r)
        if is_some(x):
            i = add(i, 1)
        else:
            return Nope()
    y = next(r)
    return y

def map_retain(r, f):
    m = get(r)
    i = 0
    out = mnew()
    while lt(i, length(m)):
        k = key(m, i)
        v = mget(m, k)
        b = call(addr(f), k, addr(v))
        if b:
            out = mput(out, k, v)
        i = add(i, 1)
    put(r, out)
    return unit()

def set_retain(r, f):
    m = get(r)
    i = 0
    while lt(i, length(m)):
        k = key(m, i)
        b = call(addr(f), k)
        if b:
            pass
        else:
            put(r, mdel(get(r), k))
        i = add(i, 1)
    return unit()

def vec_retain(r, f):
    v = get(r)
    i = 0
    out = vec0()
    while lt(i, length(v)):
        x = index(v, i)
        b = call(addr(f), x)
        if b:
            out = vpush(out, x)
        i = add(i, 1)
    put(r, out)
    return unit()

def array_map(a, f):
    v = vec0()
    i = 0
    while lt(i, length(a)):
        y = call(addr(f), index(a, i))
        v = vpush(v, y)
        i = add(i, 1)
    return v

def entry_and_modify_occ(e, r, f):
    call(addr(f), r)
    return e

def entry_or_insert_with(r, f):
    x = call(addr(f))
    put(r, x)
    return r

def entry_or_insert_with_key(r, k, f):
    x = call(addr(f), k)
    put(r, x)
    return r

def eq_iter(a, b):
    while True:
        x = next(addr(a))
        y = next(addr(b))
        if is_some(x):
            if is_some(y):
                if eq(unsome(x), unsome(y)):
                    pass
                else:
                    return False
            else:
                return False
        else:
            if is_some(y):
                return False
            return True
'''

MODELS = compile_models(SRC, BUILTINS)

# ---- python models -------------------------------------------------------------
PYMODELS = {}


def model(*names):
    def d(f):
        for n in names:
            PYMODELS[n] = f
        return f
    return d


def tnode(eng, t):
    return eng.prog.types[t]


def strip_name(eng, t):
    """head type name through references"""
    i = eng.prog.strip(t)
    n = eng.prog.types[i]
    if n["k"] == "adt":
        nm = eng.adt_name(i)
        if nm in ("Rc", "Arc", "Ref", "RefMut", "Box", "MutexGuard", "Pin") and n["args"]:
            return strip_name(eng, n["args"][0])
        return nm.replace("AHash", "Hash")
    return n["k"]


def targs(c):
    return [a for a in c.get("args", []) if isinstance(a, int)]


def retty(eng, st):
    c = st.ctx
    if c.fn.kind == "mir" and st.block >= 0:
        t = c.fn.blocks[st.block]["t"]
        if t[0] == "call" and len(t) > 6:
            return t[6]
    return None


def opt(eng, st, p, x):
    """fork on p: Some(x) / None"""
    return [(s, Some(x) if b else NONE) for s, b in eng.fork_bool(st, p)]


def panic_unless(eng, st, p, msg):
    """-> list of ok states; panicking ones are turned into panic states via results"""
    return eng.fork_bool(st, p)


MAPS = ("HashMap", "BTreeMap")
SETS = ("HashSet", "BTreeSet")
VECS = ("Vec", "VecDeque", "slice", "array", "String_")

IDENT = """Clone::clone ToOwned::to_owned ToString::to_string String::as_str String::as_bytes_ Vec::as_slice Vec::into_boxed_slice
Box::new Arc::new Rc::new Option::as_deref_ Borrow::borrow AsRef::as_ref String::into_boxed_str slice::to_vec slice::into_vec
Iterator::copied Iterator::cloned Iterator::by_ref Vec::into_iter_ Iterator::fuse str::to_owned str::to_string Box::leak Box::into_inner
Arc::clone Rc::clone Mutex::new RwLock::new array::as_slice slice::as_ref Vec::as_mut_slice BorrowMut::borrow_mut AsMut::as_mut
Box::from Box::as_ref Box::as_mut Cow::into_owned Vec::from hint::black_box convert::identity array::iter_ String::from_utf8_unchecked
str::to_boxed String::into_string array::as_mut_slice HashMap::clone Box::pin str::as_ref Vec::leak Ref::clone slice::as_slice""".split()


def ident(eng, st, c, a, at):
    return a[0]


for _n in IDENT:
    PYMODELS[_n] = ident


@model("de::missing_field")
def p_missing_field(eng, st, c, args, tys):
    """only an optional part may be absent"""
    t = eng.prog.types[c["args"][0]]
    if t["k"] == "adt" and t["name"].endswith("option::Option"):
        return None
    return mk("agg", "Result", "Err", mk("call", "de::missing_field", canon_(eng.snap(st, args[0]))))



@model("Clone::clone")
def m_clone(eng, st, c, a, at):
    v = a[0]
    # a clone of an object is its value at this point; shared cells stay shared
    if v.op == "ref" and v.args[0][0] not in ("H", "C", "S"):
        v = eng.load(st, v)
    return v


@model("Into::into", "From::from", "TryInto::try_into", "TryFrom::try_from")
def m_from(eng, st, c, a, at):
    name = norm_name(c["path"])
    ts = targs(c)
    if name in ("Into::into", "From::from"):
        if len(ts) >= 2:
            src, dst = (ts[0], ts[1]) if name == "Into::into" else (ts[1], ts[0])
            sk, dk = tnode(eng, src), tnode(eng, dst)
            if dk["k"] == "adt" and eng.adt_name(dst) == "Option" and not (sk["k"] == "adt" and eng.adt_name(src) == "Option"):
                return Some(a[0])
            if dk["k"] == "float" and sk["k"] in ("int",):
                return mk(eng.float_of(dst), a[0]) if a[0].op != "int" else mk("float", repr(float(a[0].args[0])))
            if dk["k"] == "float" and sk["k"] == "float":
                return float_cast(a[0], sk.get("f"), dk.get("f"))
            if sk["k"] == "bool" and dk["k"] == "int":
                return mk("b2i", a[0])
            if dk["k"] == "adt" and eng.adt_name(dst) == "JsValue":
                if sk["k"] in ("int", "uint") and sk.get("bits", 64) <= 32:
                    # these become JavaScript numbers
                    return mk("jsval", mk("tofloat64", a[0]))
                if sk["k"] == "float":
                    return mk("jsval", float_cast(a[0], sk.get("f"), "F64"))
                return mk("jsval", eng.snap(st, a[0]))
            if dk["k"] == "adt" and eng.adt_name(dst).replace("A", "", 1) in ("HashMap",) :
                return a[0]
        return a[0]
    if len(ts) >= 2:
        src, dst = (ts[0], ts[1]) if name == "TryInto::try_into" else (ts[1], ts[0])
        si, di = eng.int_info(src), eng.int_info(dst)
        tn = tnode(eng, dst)
        if tn["k"] == "char":
            return [(s, agg("Result", "Ok", a[0]) if b else agg("Result", "Err", mk("err", "char"))) for s, b in eng.fork_bool(st, mk("ischar", a[0]))]
        if si and di:
            if not si[0] and not di[0] and di[1] >= si[1]:
                return agg("Result", "Ok", a[0])
            hi = (1 << (di[1] - (1 if di[0] else 0)))
            eng.note(src, a[0])
            out = []
            from interp import to_bits, from_bits
            for s, b in eng.fork_bool(st, lt(a[0], I(hi))):
                v = a[0]
                out.append((s, agg("Result", "Ok", v) if b else agg("Result", "Err", mk("err", "int"))))
            return out
        if tn["k"] == "array" or (tn["k"] == "ref" and tnode(eng, tn["elem"])["k"] == "array"):
            an = tn if tn["k"] == "array" else tnode(eng, tn["elem"])
            n = an["len"]
            if isinstance(n, int):
                v = a[0]
                out = []
                for s, b in eng.fork_bool(st, ieq(terms.length(v), I(n))):
                    if b and n <= 32:
                        x = mk("agg", "array", None, *[index(v, I(i)) for i in range(n)])
                    else:
                        x = v
                    out.append((s, agg("Result", "Ok", x) if b else agg("Result", "Err", v)))
                return out
    return None


# ---- smart pointers, cells, locks
@model("Deref::deref")
def m_deref(eng, st, c, a, at):
    v = a[0]
    n = 0
    while v.op == "agg" and v.args[0] in ("MutexGuard", "RefMut", "Ref"):
        v = eng.load(st, v.args[2])
        n += 1
        if n > 5:
            break
    ts = targs(c)
    if ts and tnode(eng, ts[0])["k"] == "adt" and eng.adt_name(ts[0]) == "LazyLock":
        pass
    return v


@model("DerefMut::deref_mut")
def m_derefmut(eng, st, c, a, at):
    v = a[0]
    x = eng.load(st, v)
    if x.op == "agg" and x.args[0] in ("MutexGuard", "RefMut"):
        return x.args[2]
    ts = targs(c)
    if x.op == "ref" and ts and tnode(eng, ts[0])["k"] == "ref":
        return x        # of a reference held in a place
    return v


@model("Lazy::get", "LazyLock::force", "OnceLock::get_or_init", "OnceCell::get_or_init")
def m_lazy(eng, st, c, a, at):
    return a[0]


@model("Mutex::lock", "RwLock::write", "RwLock::read")
def m_lock(eng, st, c, a, at):
    v = a[0]
    eng.event(st, "lock", v)
    root = ("S", v)
    p = mk("poisoned", v)
    out = []
    rt = retty(eng, st)
    for s, b in eng.fork_bool(st, Not(p)):
        if b:
            if root not in s.mem:
                s.mem[root] = mk("locked", v)
            out.append((s, agg("Result", "Ok", agg("MutexGuard", None, mk("ref", root, ())))))
        else:
            if root not in s.mem:
                s.mem[root] = mk("locked", v)
            out.append((s, agg("Result", "Err", agg("PoisonError", None, agg("MutexGuard", None, mk("ref", root, ()))))))
    return out


@model("PoisonError::into_inner")
def m_pinner(eng, st, c, a, at):
    return a[0].args[2] if a[0].op == "agg" else None


def newcell(eng, st, x):
    """a fresh cell: named by the contents of all cells before it was made"""
    w = st.mem[("W",)]
    st.mem[("W",)] = mk("walloc", w, eng.snap(st, x))
    return mk("fresh", w)


@model("RefCell::new", "Cell::new")
def m_cellnew(eng, st, c, a, at):
    return newcell(eng, st, a[0])


def cellref(eng, st, v):
    v = eng.loadall(st, v)
    if ("R", v) in st.mem:
        from interp import Undecided
        raise Undecided("a cell is borrowed while it is already borrowed")
    return mk("ref", ("R", v), ())


@model("RefCell::borrow", "Cell::get", "RefCell::get_mut_")
def m_borrow(eng, st, c, a, at):
    r = cellref(eng, st, a[0])
    v = eng.load(st, r)
    st.mem.pop(r.args[0], None)
    return v


@model("RefCell::borrow_mut")
def m_borrowmut(eng, st, c, a, at):
    r = cellref(eng, st, a[0])
    return agg("RefMut", None, r, eng.load(st, r))


@model("Cell::set")
def m_cellset(eng, st, c, a, at):
    r = cellref(eng, st, a[0])
    eng.cellwrite(st, r.args[0][1], eng.snap(st, a[1]))
    return UNIT


@model("RefCell::replace", "Cell::replace")
def m_cellreplace(eng, st, c, a, at):
    r = cellref(eng, st, a[0])
    old = eng.load(st, r)
    st.mem.pop(r.args[0], None)
    eng.cellwrite(st, r.args[0][1], eng.snap(st, a[1]))
    return old


@model("Box::new_uninit")
def m_newuninit(eng, st, c, a, at):
    root = ("H", st.ctx.id, st.block, "b")
    st.mem[root] = UNDEF
    return mk("ref", root, ())


@model("boxed::box_assume_init_into_vec_unsafe")
def m_boxvec(eng, st, c, a, at):
    v = eng.loadall(st, a[0])
    if v.op == "agg" and v.args[0] == "array":
        return mk("vec", *v.args[2:])
    return v


@model("slice::into_vec")
def m_intovec(eng, st, c, a, at):
    v = eng.loadall(st, a[0])
    if v.op == "agg" and v.args[0] == "array":
        return mk("vec", *v.args[2:])
    return v


@model("slice::to_vec", "Vec::from")
def m_tovec(eng, st, c, a, at):
    v = eng.loadall(st, a[0])
    if v.op == "agg" and v.args[0] == "array":
        return mk("vec", *v.args[2:])
    return v


@model("mem::drop", "mem::forget", "drop_in_place::drop_in_place", "ptr::drop_in_place")
def m_drop(eng, st, c, a, at):
    if "forget" not in c["path"]:
        eng.drop(st, a[0])
    return UNIT


@model("mem::replace", "Option::replace_")
def m_replace(eng, st, c, a, at):
    old = eng.load(st, a[0])
    eng.storeref(st, a[0], a[1])
    return old


@model("mem::swap")
def m_swap(eng, st, c, a, at):
    x, y = eng.load(st, a[0]), eng.load(st, a[1])
    eng.storeref(st, a[0], y)
    eng.storeref(st, a[1], x)
    return UNIT


def default_of(eng, t):
    n = tnode(eng, t)
    k = n["k"]
    if k == "bool":
        return FALSE
    if k in ("int", "char"):
        return I(0)
    if k == "float":
        return mk("float", "0.0")
    if k == "str":
        return mk("str", "")
    if k == "ref":
        return default_of(eng, n["elem"])
    if k == "slice":
        return mk("vec")
    if k == "tuple":
        return mk("agg", "tuple", None, *[default_of(eng, x) for x in n["args"]])
    if k == "array" and isinstance(n["len"], int) and n["len"] <= 32:
        return mk("agg", "array", None, *[default_of(eng, n["elem"])] * n["len"])
    if k == "adt":
        nm = eng.adt_name(t).replace("AHash", "Hash")
        if nm in ("Vec", "VecDeque"):
            return mk("vec")
        if nm == "String":
            return mk("str", "")
        if nm in MAPS or nm in SETS:
            return mk("mnew")
        if nm == "Option":
            return NONE
        if nm in ("Arc", "Rc", "Box") and n["args"]:
            return default_of(eng, n["args"][0])
    return None


@model("Default::default")
def m_default(eng, st, c, a, at):
    ts = targs(c)
    if ts:
        return default_of(eng, ts[0])
    return None


@model("mem::take")
def m_take(eng, st, c, a, at):
    ts = targs(c)
    old = eng.load(st, a[0])
    d = default_of(eng, ts[0]) if ts else None
    eng.storeref(st, a[0], d if d is not None else mk("default"))
    return old


# ---- comparisons
def local_impl(eng, t, trait, meth):
    n = tnode(eng, eng.prog.strip(t))
    if n["k"] == "adt" and n.get("local"):
        nm = n["name"].split("<")[0]
        for p, ids in eng.prog.by_path.items():
            if p.startswith("<") and p.endswith("::" + meth) and (" as " in p) and trait in p:
                self_ = p[1:].split(" as ")[0].split("<")[0].lstrip("&")
                if self_.split("::")[-1] == nm.split("::")[-1]:
                    return ids[0]
    return None


def eqv(eng, st, a, b, t=None):
    a, b = canon_at(eng, st, a), canon_at(eng, st, b)
    if t is not None:
        k = tnode(eng, eng.prog.strip(t))["k"]
        if k in ("int", "char"):
            return ieq(a, b)
        if k == "float":
            x, y = sorted((a, b), key=lambda z: z.id)
            return mk("feq", x, y)
        if k == "str" or k == "adt" and strip_name(eng, t) == "String":
            for x, y in ((a, b), (b, a)):
                if y.op == "str" and y.args[0] == "":
                    return ieq(terms.length(x), I(0))
    return eq(a, b)


def canon_at(eng, st, a):
    from interp import canon
    return canon(eng.snap(st, a))


@model("PartialEq::eq", "PartialEq::ne")
def m_eq(eng, st, c, a, at):
    ts = targs(c)
    neg_ = c["path"].endswith("ne")
    t = ts[0] if ts else None
    if t is not None:
        li = local_impl(eng, t, "PartialEq", "eq")
        if li and not neg_:
            from interp import T as _T
            return ("mirfn", li, [eng.loadall(st, a[0]) if a[0].op == "ref" else a[0], eng.loadall(st, a[1]) if a[1].op == "ref" else a[1]])
    r = eqv(eng, st, a[0], a[1], t)
    return Not(r) if neg_ else r


def ordering_of(eng, st, t):
    return t


def _intcmp(x, y):
    from interp import intcmp
    return intcmp(x, y)


@model("PartialOrd::partial_cmp")
def m_pcmp(eng, st, c, a, at):
    ts = targs(c)
    t = eng.prog.strip(ts[0]) if ts else None
    x, y = canon_at(eng, st, a[0]), canon_at(eng, st, a[1])
    if t is not None:
        k = tnode(eng, t)["k"]
        if k in ("int", "char"):
            return Some(_intcmp(x, y))
        if k in ("bool", "str") or (k == "adt" and eng.adt_name(t) == "String"):
            return Some(mk("icmp", x, y))
        li = local_impl(eng, t, "PartialOrd", "partial_cmp")
        if li:
            return ("mirfn", li, [x, y])
        if k == "float":
            return mk("pcmp", x, y)
    return mk("pcmp", x, y)


@model("Ord::cmp")
def m_cmp(eng, st, c, a, at):
    ts = targs(c)
    x, y = canon_at(eng, st, a[0]), canon_at(eng, st, a[1])
    if ts:
        li = local_impl(eng, ts[0], "Ord", "cmp")
        if li:
            return ("mirfn", li, [x, y])
        if tnode(eng, eng.prog.strip(ts[0]))["k"] in ("int", "char"):
            return _intcmp(x, y)
    return mk("icmp", x, y)


@model("f32::total_cmp", "f64::total_cmp")
def m_totalcmp(eng, st, c, a, at):
    return mk("fcmp", canon_at(eng, st, a[0]), canon_at(eng, st, a[1]))


@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def m_ltle(eng, st, c, a, at):
    op = c["path"].split("::")[-1]
    ts = targs(c)
    t = eng.prog.strip(ts[0]) if ts else None
    x, y = canon_at(eng, st, a[0]), canon_at(eng, st, a[1])
    k = tnode(eng, t)["k"] if t is not None else None
    if k in ("int", "char"):
        return {"lt": lt(x, y), "gt": lt(y, x), "le": Not(lt(y, x)), "ge": Not(lt(x, y))}[op]
    if k == "float":
        return fcmp(op, x, y)
    return None


@model("Ord::min", "cmp::min", "Ord::max", "cmp::max", "intrinsics::integer_min", "intrinsics::integer_max", "usize::min", "usize::max", "num::min", "num::max")
def m_min(eng, st, c, a, at):
    t = targs(c)
    if t and tnode(eng, t[0])["k"] not in ("int", "char"):
        return None
    x, y = eng.snap(st, a[0]), eng.snap(st, a[1])
    return imin(x, y) if "min" in c["path"].split("::")[-1] else imax(x, y)


@model("f32::min", "f32::max", "f64::min", "f64::max")
def m_fmin(eng, st, c, a, at):
    return mk("f" + c["path"].split("::")[-1], *a)


@model("intrinsics::three_way_compare", "intrinsics::compare")
def m_3way(eng, st, c, a, at):
    return _intcmp(a[0], a[1])


@model("Option::cmp_", "Ordering::then_")
def m_never(eng, st, c, a, at):
    return None


# ---- integer helpers
def bits_of(eng, c, argtys):
    for t in targs(c):
        ii = eng.int_info(t)
        if ii:
            return ii
    if argtys:
        ii = eng.int_info(eng.prog.strip(argtys[0]))
        if ii:
            return ii
    return (False, 64)


def arith(name):
    def f(eng, st, c, a, at):
        signed, w = bits_of(eng, c, at)
        op = name.split("_")[-1]
        mode = name.split("_")[0]
        x, y = a[0], a[1]
        r = {"add": add, "sub": sub, "mul": mul}[op](x, y)
        if r.op == "int":
            bad = B(not eng.inrange(r.args[0], signed, w))
        elif op == "sub" and not signed:
            bad = lt(x, y)
        else:
            bad = eng.overflow(op, r, signed, w)
        if mode == "checked":
            return [(s, Some(r) if not b else NONE) for s, b in eng.fork_bool(st, bad)]
        if mode == "saturating":
            lo = I(0) if not signed else I(-(1 << (w - 1)))
            hi = I((1 << w) - 1) if not signed else I((1 << (w - 1)) - 1)
            return [(s, r if not b else (lo if op == "sub" else hi)) for s, b in eng.fork_bool(st, bad)]
        if mode == "overflowing":
            return [(s, agg("tuple", None, r if not b else mk("wrap", r, w), B(b))) for s, b in eng.fork_bool(st, bad)]
        return [(s, r if not b else mk("wrap", r, w)) for s, b in eng.fork_bool(st, bad)]
    return f


for _t in ("num", "u8", "u16", "u32", "u64", "usize", "i32", "i64", "isize", "u128"):
    for _m in ("checked", "saturating", "wrapping", "overflowing"):
        for _o in ("add", "sub", "mul"):
            PYMODELS["%s::%s_%s" % (_t, _m, _o)] = arith("%s_%s" % (_m, _o))

# integer intrinsics used by library bodies
@model("intrinsics::wrapping_add", "intrinsics::unchecked_add")
def m_wadd(eng, st, c, a, at):
    return add(a[0], a[1])


@model("Add::add", "Sub::sub", "Mul::mul", "AddAssign::add_assign", "SubAssign::sub_assign", "MulAssign::mul_assign")
def m_arith(eng, st, c, a, at):
    op = c["path"].split("::")[-1]
    x = eng.loadall(st, a[0]) if a[0].op == "ref" else a[0]
    y = eng.loadall(st, a[1]) if a[1].op == "ref" else a[1]
    ts = targs(c)
    k = tnode(eng, eng.prog.strip(ts[0]))["k"] if ts else None
    if k == "float":
        r = fbin({"add": "fadd", "sub": "fsub", "mul": "fmul"}[op.split("_")[0]], x, y)
        forks = [(st, False)]
    elif k == "int":
        o = op.split("_")[0]
        signed, w = eng.int_info(eng.prog.strip(ts[0]))
        r = {"add": add, "sub": sub, "mul": mul}[o](x, y)
        if r.op == "int":
            bad = B(not eng.inrange(r.args[0], signed, w))
        elif o == "sub" and not signed:
            bad = lt(x, y)
        else:
            bad = eng.overflow(o, r, signed, w)
        forks = eng.fork_bool(st, bad)
    else:
        if strip_name(eng, ts[0]) == "String" if ts else False:
            r = mk("scat", x, y)
            forks = [(st, False)]
        else:
            return None
    out = []
    for s, b in forks:
        if b:
            out.append((s, ("panic", "assert:Overflow")))
            continue
        if op.endswith("_assign"):
            eng.storeref(s, a[0], r)
            out.append((s, UNIT))
        else:
            out.append((s, r))
    return out


@model("f32::to_be_bytes", "f64::to_be_bytes")
def m_ftb(eng, st, c, a, at):
    n = 4 if "f32" in c["path"] else 8
    return mk("agg", "array", None, *[mk("fbyte", a[0], i) for i in range(n)])


@model("f32::to_le_bytes", "f64::to_le_bytes", "f32::to_ne_bytes")
def m_ftl(eng, st, c, a, at):
    n = 4 if "f32" in c["path"] else 8
    return mk("agg", "array", None, *[mk("fbyte", a[0], i) for i in reversed(range(n))])


def fjoin(es):
    if all(e.op == "fbyte" and e.args[0] is es[0].args[0] and e.args[1] == i for i, e in enumerate(es)):
        return es[0].args[0]
    return mk("fjoin", *es)


terms._norm["fjoin"] = lambda *es: fjoin(es)


@model("f32::from_be_bytes", "f64::from_be_bytes")
def m_ffb(eng, st, c, a, at):
    n = 4 if "f32" in c["path"] else 8
    return fjoin([index(a[0], I(i)) for i in range(n)])


@model("f32::from_le_bytes", "f64::from_le_bytes", "f32::from_ne_bytes")
def m_ffl(eng, st, c, a, at):
    n = 4 if "f32" in c["path"] else 8
    return fjoin([index(a[0], I(i)) for i in reversed(range(n))])


@model("f32::to_bits", "f64::to_bits")
def m_fbits(eng, st, c, a, at):
    return mk("fbits", a[0])


@model("f32::from_bits", "f64::from_bits")
def m_ffbits(eng, st, c, a, at):
    return a[0].args[0] if a[0].op == "fbits" else mk("ofbits", a[0])


def int_bytes(order):
    def f(eng, st, c, a, at):
        from interp import to_bits, from_bits
        w = bits_of(eng, c, at)[1]
        b = to_bits(a[0], w)
        bs = [from_bits(b[i * 8:i * 8 + 8]) for i in range(w // 8)]
        if order == "be":
            bs.reverse()
        return mk("agg", "array", None, *bs)
    return f


def from_int_bytes(order):
    def f(eng, st, c, a, at):
        from interp import to_bits, from_bits
        n = terms.length(a[0]).args[0]
        es = [index(a[0], I(i)) for i in range(n)]
        if order == "be":
            es.reverse()
        b = ()
        for e in es:
            b += to_bits(e, 8)
        return from_bits(b)
    return f


for _t in ("num", "u16", "u32", "u64", "usize"):
    for _o in ("be", "le"):
        PYMODELS["%s::to_%s_bytes" % (_t, _o)] = int_bytes(_o)
        PYMODELS["%s::from_%s_bytes" % (_t, _o)] = from_int_bytes(_o)


# ---- chars and strings
@model("methods::from_u32", "char::from_u32", "convert::from_u32")
def m_fromu32(eng, st, c, a, at):
    return opt(eng, st, mk("ischar", a[0]), a[0])


@model("methods::to_digit", "char::to_digit")
def m_todigit(eng, st, c, a, at):
    return opt(eng, st, mk("isdigit", a[0], a[1]), mk("digit", a[0], a[1]))


@model("methods::to_lowercase", "char::to_lowercase")
def m_lower(eng, st, c, a, at):
    return seq(mk("lower", a[0]))


@model("methods::to_ascii_lowercase", "char::to_ascii_lowercase")
def m_alower(eng, st, c, a, at):
    return mk("alower", a[0])


@model("str::to_lowercase", "String::to_lowercase")
def m_slower(eng, st, c, a, at):
    return mk("slower", eng.loadall(st, a[0]))


@model("str::chars", "String::chars")
def m_chars(eng, st, c, a, at):
    return seq(mk("chars", eng.loadall(st, a[0])))


@model("str::char_indices", "String::char_indices")
def m_cidx(eng, st, c, a, at):
    return seq(mk("cidx", eng.loadall(st, a[0])))


@model("str::bytes", "String::bytes")
def m_bytes(eng, st, c, a, at):
    return seq(bytes_of(eng.loadall(st, a[0])))


@model("str::as_bytes", "String::as_bytes", "String::into_bytes", "str::into_boxed_bytes")
def m_asbytes(eng, st, c, a, at):
    return bytes_of(eng.loadall(st, a[0]))


def bytes_of(v):
    if v.op == "utf8":
        return v.args[0]
    if v.op == "slice" and v.args[0].op == "utf8":
        return slice_(v.args[0].args[0], v.args[1], v.args[2])
    return mk("bytes", v)


terms._norm["bytes"] = bytes_of


@model("String::from_utf8", "str::from_utf8", "converts::from_utf8")
def m_fromutf8(eng, st, c, a, at):
    v = eng.loadall(st, a[0])
    if v.op == "bytes":
        return agg("Result", "Ok", v.args[0])
    return [(s, agg("Result", "Ok", mk("utf8", v)) if b else agg("Result", "Err", mk("err", "utf8"))) for s, b in eng.fork_bool(st, mk("isutf8", v))]


@model("String::from_utf8_lossy")
def m_lossy(eng, st, c, a, at):
    return mk("lossy", eng.loadall(st, a[0]))


@model("String::new", "String::with_capacity")
def m_snew(eng, st, c, a, at):
    if a:
        eng.event(st, "capacity", eng.snap(st, a[0]))
    return mk("str", "")


@model("String::push")
def m_spush(eng, st, c, a, at):
    eng.storeref(st, a[0], mk("spush", eng.load(st, a[0]), a[1]))
    return UNIT


@model("String::push_str")
def m_spushstr(eng, st, c, a, at):
    eng.storeref(st, a[0], mk("scat", eng.load(st, a[0]), eng.loadall(st, a[1])))
    return UNIT


@model("str::split")
def m_split(eng, st, c, a, at):
    return seq(mk("split", eng.loadall(st, a[0]), eng.snap(st, a[1])))


@model("str::split_whitespace")
def m_splitw(eng, st, c, a, at):
    return seq(mk("splitw", eng.loadall(st, a[0])))


@model("str::starts_with")
def m_starts(eng, st, c, a, at):
    return mk("startswith", eng.loadall(st, a[0]), eng.loadall(st, a[1]))


@model("str::is_char_boundary")
def m_isb(eng, st, c, a, at):
    return isboundary(a[0], a[1])


def isboundary(s, i):
    if i is I(0) or i is terms.length(s):
        return TRUE
    if i.op == "coff" and i.args[0] is s:
        return TRUE
    return mk("isboundary", s, i)


terms._norm["isboundary"] = isboundary


@model("str::parse")
def m_parse(eng, st, c, a, at):
    ts = targs(c)
    t = eng.prog.show_ty(ts[-1]) if ts else "?"
    v = eng.loadall(st, a[0])
    return [(s, agg("Result", "Ok", mk("parsed", v, t)) if b else agg("Result", "Err", mk("err", "parse"))) for s, b in eng.fork_bool(st, mk("parses", v, t))]


# ---- vectors and slices
@model("Vec::new", "VecDeque::new", "Vec::with_capacity", "VecDeque::with_capacity")
def m_vnew(eng, st, c, a, at):
    if a:
        eng.event(st, "capacity", eng.snap(st, a[0]))
    return mk("vec")


@model("Vec::reserve", "String::reserve", "HashMap::reserve", "VecDeque::reserve", "Vec::reserve_exact")
def m_reserve(eng, st, c, a, at):
    eng.event(st, "capacity", eng.snap(st, a[1]))
    return UNIT


@model("Vec::shrink_to_fit", "HashMap::shrink_to_fit", "Vec::dedup_")
def m_nop(eng, st, c, a, at):
    return UNIT


@model("vec::from_elem")
def m_fromelem(eng, st, c, a, at):
    eng.event(st, "capacity", eng.snap(st, a[1]))
    if a[1].op == "int" and 0 <= a[1].args[0] <= 8:
        return mk("vec", *[a[0]] * a[1].args[0])
    return mk("repeat", a[0], a[1])


@model("Vec::len", "slice::len", "str::len", "String::len", "VecDeque::len", "HashMap::len", "HashSet::len", "ExactSizeIterator::len", "array::len", "BTreeMap::len")
def m_len(eng, st, c, a, at):
    v = eng.loadall(st, a[0])
    if v.op == "agg" and v.args[0] == "It":
        if v.args[1] == "seq":
            return sub(v.args[4], v.args[3])
        return None
    r = terms.length(v)
    return r


@model("Vec::is_empty", "slice::is_empty", "str::is_empty", "String::is_empty", "VecDeque::is_empty", "HashMap::is_empty", "HashSet::is_empty", "BTreeMap::is_empty")
def m_isempty(eng, st, c, a, at):
    v = eng.loadall(st, a[0])
    return ieq(terms.length(v), I(0))


@model("Vec::push", "VecDeque::push_back")
def m_push(eng, st, c, a, at):
    r = a[0]
    if r.op != "ref":
        eng.event(st, "call", "Vec::push", eng.snap(st, r), eng.snap(st, a[1]))
        return UNIT
    eng.storeref(st, r, vpush(eng.load(st, r), a[1]))
    return UNIT


@model("VecDeque::push_front")
def m_pushfront(eng, st, c, a, at):
    r = a[0]
    v = eng.load(st, r)
    if v.op == "vec" and len(v.args) < 8:
        eng.storeref(st, r, mk("vec", a[1], *v.args))
    else:
        eng.storeref(st, r, mk("vpushf", a[1], v))
    return UNIT


@model("VecDeque::pop_back", "Vec::pop")
def m_pop(eng, st, c, a, at):
    r = a[0]
    v = eng.load(st, r)
    n = terms.length(v)
    out = []
    for s, b in eng.fork_bool(st, lt(I(0), n)):
        if b:
            x = index(v, sub(n, I(1)))
            eng.storeref(s, r, slice_(v, I(0), sub(n, I(1))))
            out.append((s, Some(x)))
        else:
            out.append((s, NONE))
    return out


@model("VecDeque::pop_front")
def m_popf(eng, st, c, a, at):
    r = a[0]
    v = eng.load(st, r)
    n = terms.length(v)
    out = []
    for s, b in eng.fork_bool(st, lt(I(0), n)):
        if b:
            eng.storeref(s, r, slice_(v, I(1), n))
            out.append((s, Some(index(v, I(0)))))
        else:
            out.append((s, NONE))
    return out


@model("Vec::truncate", "VecDeque::truncate")
def m_trunc(eng, st, c, a, at):
    v = eng.load(st, a[0])
    out = []
    for s, b in eng.fork_bool(st, lt(a[1], terms.length(v))):
        if b:
            eng.storeref(s, a[0], slice_(v, I(0), a[1]))
        out.append((s, UNIT))
    return out


@model("Vec::clear", "VecDeque::clear", "String::clear")
def m_clear(eng, st, c, a, at):
    eng.storeref(st, a[0], mk("vec") if "String" not in c["path"] else mk("str", ""))
    return UNIT


def bounds_fork(eng, st, i, n, f, msg="index out of bounds"):
    out = []
    for s, b in eng.fork_bool(st, lt(i, n)):
        if b:
            out.append((s, f(s)))
        else:
            out.append((s, ("panic", msg)))
    return out


@model("Vec::swap_remove", "Vec::remove")
def m_swaprem(eng, st, c, a, at):
    r = a[0]
    v = eng.load(st, r)
    op = "swaprem" if "swap_remove" in c["path"] else "remv"

    def f(s):
        eng.storeref(s, r, mk(op, v, a[1]))
        return index(v, a[1])
    return bounds_fork(eng, st, a[1], terms.length(v), f, "swap_remove out of bounds")


@model("Vec::insert")
def m_vinsert(eng, st, c, a, at):
    r = a[0]
    v = eng.load(st, r)
    eng.storeref(st, r, mk("insv", v, a[1], a[2]))
    return UNIT


@model("slice::swap")
def m_vswap(eng, st, c, a, at):
    r = a[0]
    v = eng.load(st, r)
    n = terms.length(v)
    x, y = index(v, a[1]), index(v, a[2])
    out = []
    for s, b in eng.fork_bool(st, lt(a[1], n)):
        if not b:
            out.append((s, ("panic", "index out of bounds")))
            continue
        for s2, b2 in eng.fork_bool(s, lt(a[2], n)):
            if not b2:
                out.append((s2, ("panic", "index out of bounds")))
                continue
            eng.storeref(s2, r, vset(vset(v, a[1], y), a[2], x))
            out.append((s2, UNIT))
    return out


@model("slice::rotate_left", "slice::rotate_right")
def m_rot(eng, st, c, a, at):
    r = a[0]
    v = eng.load(st, r)
    k = a[1]
    if v.op == "agg" and v.args[0] == "array" and k.op == "int":
        es = list(v.args[2:])
        n = len(es)
        kk = k.args[0] if "left" in c["path"] else n - k.args[0]
        if 0 <= kk <= n:
            eng.storeref(st, r, mk("agg", "array", None, *(es[kk:] + es[:kk])))
            return UNIT
    eng.storeref(st, r, mk("rotated", v, k))
    return UNIT


def range_of(eng, st, x, n):
    """(start, end) of a range value over a sequence of length n, or None"""
    if x.op == "agg":
        k = x.args[0]
        if k == "Range":
            return x.args[2], x.args[3]
        if k == "RangeTo":
            return I(0), x.args[2]
        if k == "RangeFrom":
            return x.args[2], n
        if k == "RangeFull":
            return I(0), n
        if k == "RangeInclusive":
            return x.args[2], add(x.args[3], I(1))
        if k == "RangeToInclusive":
            return I(0), add(x.args[2], I(1))
    return None


@model("slice::copy_within")
def m_copyw(eng, st, c, a, at):
    r = a[0]
    v = eng.load(st, r)
    n = terms.length(v)
    rg = range_of(eng, st, a[1], n)
    if v.op == "agg" and v.args[0] == "array" and rg and all(t.op == "int" for t in (rg[0], rg[1], a[2])):
        es = list(v.args[2:])
        s, e, d = rg[0].args[0], rg[1].args[0], a[2].args[0]
        part = es[s:e]
        if d + len(part) <= len(es):
            es[d:d + len(part)] = part
            eng.storeref(st, r, mk("agg", "array", None, *es))
            return UNIT
    eng.storeref(st, r, mk("copied", v, *(rg or ()), a[2]))
    return UNIT


@model("slice::copy_from_slice", "slice::clone_from_slice")
def m_copyfrom(eng, st, c, a, at):
    eng.storeref(st, a[0], eng.loadall(st, a[1]))
    return UNIT


@model("slice::fill")
def m_fill(eng, st, c, a, at):
    v = eng.load(st, a[0])
    n = terms.length(v)
    if v.op == "agg" and v.args[0] == "array":
        eng.storeref(st, a[0], mk("agg", "array", None, *[a[1]] * n.args[0]))
    else:
        eng.storeref(st, a[0], mk("repeat", a[1], n))
    return UNIT


def is_str(eng, c, at=None):
    ts = targs(c)
    return bool(ts) and strip_name(eng, ts[0]) in ("str", "String")


def do_index(eng, st, c, v, x, mut=None, panics=True):
    """list of (state, value or panic) for v[x]; with panics=False results are Options"""
    ts = targs(c)
    nm = strip_name(eng, ts[0]) if ts else ""
    wrap = (lambda y: y) if panics else Some
    bad = ("panic", "index out of bounds") if panics else NONE
    if nm in MAPS or (norm_name(c["path"]).startswith("HashMap")):
        out = []
        for s, b in eng.fork_bool(st, mhas(v, x)):
            out.append((s, wrap(mapget(v, x) if mut is None else mv_ref(mut, x)) if b else bad))
        return out
    n = terms.length(v)
    rg = range_of(eng, st, x, n)
    if rg is not None:
        lo, hi = rg
        out = []
        for s, b in eng.fork_bool(st, Not(lt(hi, lo))):
            if not b:
                out.append((s, bad))
                continue
            for s2, b2 in eng.fork_bool(s, Not(lt(n, hi))):
                if not b2:
                    out.append((s2, bad))
                    continue
                todo = [s2]
                if is_str(eng, c):
                    for q in (lo, hi):
                        nt = []
                        for z in todo:
                            for s3, b3 in eng.fork_bool(z, isboundary(v, q)):
                                if b3:
                                    nt.append(s3)
                                else:
                                    out.append((s3, bad))
                        todo = nt
                for z in todo:
                    if mut is None:
                        out.append((z, wrap(slice_(v, lo, hi))))
                    else:
                        out.append((z, wrap(mk("ref", mut.args[0], mut.args[1] + (("sl", lo, hi),)))))
        return out
    out = []
    for s, b in eng.fork_bool(st, lt(x, n)):
        out.append((s, wrap(index(v, x) if mut is None else ix_ref(mut, x)) if b else bad))
    return out


@model("Index::index")
def m_index(eng, st, c, a, at):
    ts = targs(c)
    if ts and tnode(eng, eng.prog.strip(ts[0])).get("local"):
        return None
    return do_index(eng, st, c, eng.loadall(st, a[0]), eng.snap(st, a[1]))


@model("IndexMut::index_mut")
def m_indexmut(eng, st, c, a, at):
    r = a[0]
    if r.op != "ref":
        return None
    while eng.load(st, r).op == "ref":
        r = eng.load(st, r)
    return do_index(eng, st, c, eng.load(st, r), eng.snap(st, a[1]), mut=r)


@model("slice::get", "Array::get_", "Vec::get", "str::get", "VecDeque::get", "String::get")
def m_get(eng, st, c, a, at):
    v = eng.loadall(st, a[0])
    cc = dict(c)
    if "str" in norm_name(c["path"]).split("::")[0].lower():
        x = a[1]
        # string slicing: boundary conditions
        n = terms.length(v)
        rg = range_of(eng, st, x, n)
        if rg:
            out = []
            for s, b in eng.fork_bool(st, Not(lt(rg[1], rg[0]))):
                if not b:
                    out.append((s, NONE))
                    continue
                for s2, b2 in eng.fork_bool(s, Not(lt(n, rg[1]))):
                    if not b2:
                        out.append((s2, NONE))
                        continue
                    todo = [s2]
                    for q in rg:
                        nt = []
                        for z in todo:
                            for s3, b3 in eng.fork_bool(z, isboundary(v, q)):
                                if b3:
                                    nt.append(s3)
                                else:
                                    out.append((s3, NONE))
                        todo = nt
                    out += [(z, Some(slice_(v, *rg))) for z in todo]
            return out
    return do_index(eng, st, {"args": [], "path": "slice::get"}, v, eng.snap(st, a[1]), panics=False)


@model("slice::get_mut", "Vec::get_mut", "VecDeque::get_mut")
def m_getmut(eng, st, c, a, at):
    r = a[0]
    if r.op != "ref":
        return None
    while eng.load(st, r).op == "ref":
        r = eng.load(st, r)
    return do_index(eng, st, {"args": [], "path": "slice::get"}, eng.load(st, r), eng.snap(st, a[1]), mut=r, panics=False)


@model("slice::first", "Vec::first", "VecDeque::front", "VecDeque::front_mut", "slice::first_mut")
def m_first(eng, st, c, a, at):
    v = eng.loadall(st, a[0])
    if c["path"].endswith("_mut"):
        return opt(eng, st, lt(I(0), terms.length(v)), ix_ref(a[0], I(0)))
    return opt(eng, st, lt(I(0), terms.length(v)), index(v, I(0)))


@model("slice::last", "Vec::last", "VecDeque::back", "VecDeque::back_mut", "slice::last_mut")
def m_last(eng, st, c, a, at):
    v = eng.loadall(st, a[0])
    n = terms.length(v)
    if c["path"].endswith("_mut"):
        return opt(eng, st, lt(I(0), n), ix_ref(a[0], sub(n, I(1))))
    return opt(eng, st, lt(I(0), n), index(v, sub(n, I(1))))


@model("slice::split_first")
def m_splitfirst(eng, st, c, a, at):
    v = eng.loadall(st, a[0])
    n = terms.length(v)
    return opt(eng, st, lt(I(0), n), agg("tuple", None, index(v, I(0)), slice_(v, I(1), n)))


@model("slice::split_last")
def m_splitlast(eng, st, c, a, at):
    v = eng.loadall(st, a[0])
    n = terms.length(v)
    return opt(eng, st, lt(I(0), n), agg("tuple", None, index(v, sub(n, I(1))), slice_(v, I(0), sub(n, I(1)))))


@model("slice::split_at", "str::split_at")
def m_splitat(eng, st, c, a, at):
    v = eng.loadall(st, a[0])
    n = terms.length(v)
    out = []
    for s, b in eng.fork_bool(st, Not(lt(n, a[1]))):
        out.append((s, agg("tuple", None, slice_(v, I(0), a[1]), slice_(v, a[1], n)) if b else ("panic", "split_at")))
    return out


@model("slice::split_at_checked")
def m_splitatc(eng, st, c, a, at):
    v = eng.loadall(st, a[0])
    n = terms.length(v)
    return opt(eng, st, Not(lt(n, a[1])), agg("tuple", None, slice_(v, I(0), a[1]), slice_(v, a[1], n)))


@model("slice::contains", "Vec::contains")
def m_contains(eng, st, c, a, at):
    v = eng.loadall(st, a[0])
    return mk("member", v, eng.loadall(st, a[1]))


@model("slice::iter", "Vec::iter", "VecDeque::iter", "Array::iter_", "array::iter")
def m_iter(eng, st, c, a, at):
    return seq(eng.loadall(st, a[0]))


@model("slice::windows")
def m_windows(eng, st, c, a, at):
    return seq(mk("windows", eng.loadall(st, a[0]), a[1]))


@model("slice::iter_mut", "Vec::iter_mut", "VecDeque::iter_mut")
def m_itermut(eng, st, c, a, at):
    r = a[0]
    if r.op != "ref":
        return None
    while eng.load(st, r).op == "ref":
        r = eng.load(st, r)
    return It("seqmut", r, I(0), terms.length(eng.load(st, r)))


COMPARE = """
def k1(f, x):
    r = call(f, x)
    return r

def k2(f, x, y):
    r = call(f, x, y)
    return r
"""
X_, Y_ = mk("arg", "$x"), mk("arg", "$y")


def sub_engine(eng):
    from interp import Engine
    from minilang import compile_models
    e = Engine(eng.prog, opaque=eng.opaque, opname=eng.opname, bits=eng.bits)
    e.models = dict(eng.models)
    e.models.update(compile_models(COMPARE, BUILTINS))
    e.headbase = eng.headbase + 500000
    e.split_cmp = False
    e.fncallees.update(eng.fncallees)
    return e


def comparison(eng, kind, f):
    """(direction, key of $x, mode) of what a sort compares by, ("cmp", result, None), or None"""
    from interp import Undecided
    cache = eng.__dict__.setdefault("comparisons", {})
    if (kind, f) in cache:
        return cache[(kind, f)]
    if kind == "by_ord":
        e = sub_engine(eng)
        try:
            g = e.run(f, [X_, Y_], lambda eng_, st: None)
        except Undecided:
            g = None
    else:
        e = sub_engine(eng)
        key = kind.endswith("_key")
        try:
            g = e.run_spec("k1" if key else "k2", [f, X_] if key else [f, X_, Y_], {})
        except Undecided:
            g = None
    r = None
    if g is not None:
        eng.inlined |= e.inlined
        r = compared(g, kind.endswith("_key"))
    cache[(kind, f)] = r
    return r


def ispay(v):
    """the ordering inside a partial comparison"""
    return v.op == "fld" and v.args[0].op == "as" and v.args[0].args[0].op == "pcmp"


def value_tree(g):
    """the value returned by a loop-free graph as one term: ite(test, value, value), tests in canonical order"""
    paths = []

    def walk(n, facts):
        if len(paths) > 64:
            return
        if n.kind == "ret":
            paths.append((facts, n.value))
        for e in n.out:
            f = dict(facts)
            for t, v in e.facts.items():
                if t.op == "is" and t.args[1] in ("None", "Err"):
                    t, v = mk("is", t.args[0], {"None": "Some", "Err": "Ok"}[t.args[1]]), not v
                f[t] = bool(v)
            walk(e.dst, f)

    def tree(ps):
        if len({v for f, v in ps}) == 1:
            return ps[0][1]
        atoms = sorted({a for f, v in ps for a in f}, key=lambda a: show(a, 40))
        if not atoms:
            return None
        a = atoms[0]
        k = lambda b: [({x: y for x, y in f.items() if x is not a}, v) for f, v in ps if f.get(a, b) == b]
        t, f = k(True), k(False)
        if not t or not f:
            return tree(t or f)
        t, f = tree(t), tree(f)
        if t is None or f is None:
            return None
        return ite(a, t, f)

    walk(g.nodes[0], {})
    return tree(paths) if paths and len(paths) <= 64 else None


def compared(g, key):
    if any(n.kind in ("panic", "head") for n in g.nodes):
        return None
    rets = {n.value for n in g.nodes if n.kind == "ret"}
    mode = "ord"
    if not key and len(rets) == 2:
        # partial_cmp(..).unwrap_or(Equal)
        e = [v for v in rets if v.op == "agg" and v.args[1] == "Equal"]
        s = [v for v in rets if ispay(v) or v.op == "reverse" and ispay(v.args[0])]
        if e and s:
            rets = set(s)
    v = rets.pop() if len(rets) == 1 else value_tree(g)
    if v is None:
        return None
    d = "asc"
    if key:
        while v.op == "agg" and v.args[0] == "Reverse":
            v, d = v.args[2], "desc" if d == "asc" else "asc"
        return (d, v, mode)
    c = v
    while v.op == "reverse":
        v, d = v.args[0], "desc" if d == "asc" else "asc"
    if ispay(v):
        v = v.args[0].args[0]
    if v.op not in ("icmp", "fcmp", "pcmp"):
        return ("cmp", c, "fn")
    mode = {"icmp": "ord", "fcmp": "total", "pcmp": "partial"}[v.op]
    a, b = v.args[:2]
    if contains(a, Y_) or contains(b, X_):
        a, b, d = b, a, "desc" if d == "asc" else "asc"
    if contains(a, Y_) or contains(b, X_) or subst(a, {X_: Y_}) is not b:
        return ("cmp", c, "fn")
    return (d, a, mode)


def tieless(c):
    """elements that compare equal are the same: the key is the whole element, or numbers it, or holds all of it"""
    k = c[1]
    if k is X_:
        return True
    if getattr(k, "op", "") == "fld" and k.args[1] in ("serialization_id", "id"):
        return True
    if getattr(k, "op", "") == "agg" and c[2] == "ord":
        return any(tieless((c[0], x, c[2])) for x in k.args[2:])
    return False


def do_sort(eng, st, r, kind, f, unstable=False):
    """sorts the list behind r; an unstable sort is told apart unless ties cannot be seen"""
    v = eng.load(st, r)
    c = comparison(eng, kind, f) if f is not None else ("asc", X_, "ord")
    if c is None:
        c = (kind, f, None)
    if unstable and not type(eng).TIES and not tieless(c):
        c = (c[0], c[1], "%s~" % c[2])
    eng.event(st, "sort", c[0], eng.snap(st, v), c[1])
    eng.storeref(st, r, mk("sorted", v, *c))
    return UNIT


@model("slice::sort", "slice::sort_unstable", "Vec::sort")
def m_sort(eng, st, c, a, at):
    ts = targs(c)
    li = None
    if ts:
        li = local_impl(eng, ts[0], "Ord", "cmp")
    return do_sort(eng, st, a[0], "by_ord" if li else "natural", li, "unstable" in c["path"])


@model("slice::sort_by", "slice::sort_by_key", "slice::sort_by_cached_key", "slice::sort_unstable_by", "slice::sort_unstable_by_key")
def m_sortby(eng, st, c, a, at):
    k = norm_name(c["path"]).split("::")[1]
    f = eng.snap(st, eng.loadall(st, a[1]) if a[1].op == "ref" else a[1])
    return do_sort(eng, st, a[0], k.replace("_unstable", "").replace("_cached", ""), f, "unstable" in k)


@model("Ordering::reverse")
def m_reverse_ord(eng, st, c, a, at):
    v = a[0]
    if v.op in ("icmp", "fcmp", "pcmp"):
        return mk(v.op, v.args[1], v.args[0])
    if ispay(v):
        p = v.args[0].args[0]
        return mk("fld", mk("as", mk("pcmp", p.args[1], p.args[0]), "Some"), "0")
    if v.op == "agg" and v.args[1] in ("Less", "Greater", "Equal"):
        return mk("agg", v.args[0], {"Less": "Greater", "Greater": "Less", "Equal": "Equal"}[v.args[1]])
    return mk("reverse", v)


@model("slice::reverse")
def m_reverse(eng, st, c, a, at):
    v = eng.load(st, a[0])
    eng.storeref(st, a[0], mk("revseq", v) if v.op != "revseq" else v.args[0])
    return UNIT


@model("slice::concat", "slice::join")
def m_concat(eng, st, c, a, at):
    return mk("concat", *[eng.snap(st, x) for x in a])


@model("Vec::extend_from_slice")
def m_efs(eng, st, c, a, at):
    return ("extend_vec", [a[0], seq(eng.loadall(st, a[1]))])


@model("Vec::append", "VecDeque::append")
def m_append(eng, st, c, a, at):
    v = eng.load(st, a[1])
    eng.storeref(st, a[1], mk("vec"))
    return ("extend_vec", [a[0], seq(v)])


@model("Vec::drain", "HashMap::drain", "HashSet::drain", "VecDeque::drain")
def m_drain(eng, st, c, a, at):
    v = eng.load(st, a[0])
    nm = norm_name(c["path"]).split("::")[0]
    if nm == "HashMap":
        eng.storeref(st, a[0], mk("mnew"))
        return seq(mk("entries", v))
    if nm == "HashSet":
        eng.storeref(st, a[0], mk("mnew"))
        return seq(mk("keys", v))
    n = terms.length(v)
    rg = range_of(eng, st, a[1], n) if len(a) > 1 else (I(0), n)
    if rg and rg[0] is I(0) and rg[1] is n:
        eng.storeref(st, a[0], mk("vec"))
        return seq(v)
    eng.storeref(st, a[0], mk("drained", v, *(rg or ())))
    return seq(slice_(v, *rg))


@model("Vec::retain", "VecDeque::retain")
def m_vretain(eng, st, c, a, at):
    return ("vec_retain", [a[0], a[1]])


@model("Vec::dedup")
def m_dedup(eng, st, c, a, at):
    eng.storeref(st, a[0], mk("dedup", eng.load(st, a[0])))
    return UNIT


@model("array::map")
def m_amap(eng, st, c, a, at):
    v = a[0]
    return ("array_map", [v, a[1]])


# ---- maps and sets
@model("HashMap::new", "HashSet::new", "HashMap::with_capacity", "HashSet::with_capacity", "BTreeMap::new", "BTreeSet::new", "HashMap::with_hasher", "HashMap::with_capacity_and_hasher", "HashSet::with_hasher", "HashSet::with_capacity_and_hasher")
def m_mnew(eng, st, c, a, at):
    if a and "capacity" in c["path"]:
        eng.event(st, "capacity", eng.snap(st, a[0]))
    return mk("mnew")


def mapargs(eng, st, a):
    return eng.loadall(st, a[0]), eng.snap(st, a[1])


@model("HashMap::get", "BTreeMap::get", "HashSet::get")
def m_mget(eng, st, c, a, at):
    m, k = mapargs(eng, st, a)
    return opt(eng, st, mhas(m, k), mapget(m, k))


def mapref(eng, st, r):
    if r.op != "ref":
        return mk("ref", ("C", r), ())
    n = 0
    while eng.load(st, r).op == "ref":
        r = eng.load(st, r)
        n += 1
        if n > 20:
            break
    x = eng.load(st, r)
    if x.op == "agg" and x.args[0] in ("MutexGuard", "RefMut"):
        return mapref(eng, st, x.args[2])
    return r


@model("HashMap::get_mut", "BTreeMap::get_mut")
def m_mgetmut(eng, st, c, a, at):
    r = mapref(eng, st, a[0])
    m, k = eng.load(st, r), eng.snap(st, a[1])
    return opt(eng, st, mhas(m, k), mv_ref(r, k))


@model("HashMap::contains_key", "HashSet::contains", "BTreeMap::contains_key", "BTreeSet::contains")
def m_mhas(eng, st, c, a, at):
    m, k = mapargs(eng, st, a)
    return mhas(m, k)


@model("HashMap::insert", "BTreeMap::insert")
def m_minsert(eng, st, c, a, at):
    r = mapref(eng, st, a[0])
    m, k = eng.load(st, r), eng.snap(st, a[1])
    h = mhas(m, k)
    eng.storeref(st, r, mput(m, k, a[2]))
    if h is TRUE:
        return Some(mapget(m, k))
    if h is FALSE:
        return NONE
    t = mk("oldval", m, k)
    rt = retty(eng, st)
    if rt is not None:
        eng.discr_ty[t] = rt
    return t


@model("HashSet::insert", "BTreeSet::insert")
def m_sinsert(eng, st, c, a, at):
    r = mapref(eng, st, a[0])
    m, k = eng.load(st, r), eng.snap(st, a[1])
    eng.storeref(st, r, mput(m, k, UNIT))
    return Not(mhas(m, k))


@model("HashMap::remove", "BTreeMap::remove")
def m_mremove(eng, st, c, a, at):
    r = mapref(eng, st, a[0])
    m, k = eng.load(st, r), eng.snap(st, a[1])
    out = []
    for s, b in eng.fork_bool(st, mhas(m, k)):
        if b:
            eng.storeref(s, r, mdel(m, k))
        out.append((s, Some(mapget(m, k)) if b else NONE))
    return out


@model("HashSet::remove", "BTreeSet::remove", "HashSet::take")
def m_sremove(eng, st, c, a, at):
    r = mapref(eng, st, a[0])
    m, k = eng.load(st, r), eng.snap(st, a[1])
    out = []
    for s, b in eng.fork_bool(st, mhas(m, k)):
        if b:
            eng.storeref(s, r, mdel(m, k))
        out.append((s, B(b)))
    return out


@model("HashMap::clear", "HashSet::clear")
def m_mclear(eng, st, c, a, at):
    eng.storeref(st, mapref(eng, st, a[0]), mk("mnew"))
    return UNIT


@model("HashMap::entry", "BTreeMap::entry")
def m_entry(eng, st, c, a, at):
    r = mapref(eng, st, a[0])
    m, k = eng.load(st, r), eng.snap(st, a[1])
    out = []
    for s, b in eng.fork_bool(st, mhas(m, k)):
        if b:
            out.append((s, agg("Entry", "Occupied", agg("OccupiedEntry", None, r, k))))
        else:
            out.append((s, agg("Entry", "Vacant", agg("VacantEntry", None, r, k))))
    return out


def entry_parts(eng, st, e):
    e = eng.loadall(st, e) if e.op == "ref" else e
    if e.op != "agg":
        return None
    if e.args[0] == "Entry":
        return e.args[1] == "Occupied", e.args[2].args[2], e.args[2].args[3]
    return e.args[0] == "OccupiedEntry", e.args[2], e.args[3]


@model("Entry::and_modify")
def m_andmod(eng, st, c, a, at):
    occ, r, k = entry_parts(eng, st, a[0])
    if not occ:
        return a[0]
    return ("entry_and_modify_occ", [a[0], mv_ref(r, k), a[1]])


@model("Entry::or_insert")
def m_orins(eng, st, c, a, at):
    occ, r, k = entry_parts(eng, st, a[0])
    if not occ:
        eng.storeref(st, r, mput(eng.load(st, r), k, a[1]))
    return mv_ref(r, k)


@model("Entry::or_insert_with")
def m_orinsw(eng, st, c, a, at):
    occ, r, k = entry_parts(eng, st, a[0])
    if occ:
        return mv_ref(r, k)
    return ("entry_or_insert_with", [mv_ref(r, k), a[1]])


@model("Entry::or_insert_with_key")
def m_orinswk(eng, st, c, a, at):
    occ, r, k = entry_parts(eng, st, a[0])
    if occ:
        return mv_ref(r, k)
    return ("entry_or_insert_with_key", [mv_ref(r, k), k, a[1]])


@model("Entry::or_default")
def m_ordef(eng, st, c, a, at):
    occ, r, k = entry_parts(eng, st, a[0])
    if not occ:
        ts = targs(c)
        d = None
        rt = retty(eng, st)
        if rt is not None:
            d = default_of(eng, eng.prog.types[rt]["elem"])
        if d is None:
            return None
        eng.storeref(st, r, mput(eng.load(st, r), k, d))
    return mv_ref(r, k)


@model("Entry::key", "OccupiedEntry::key", "VacantEntry::key")
def m_ekey(eng, st, c, a, at):
    return entry_parts(eng, st, a[0])[2]


@model("OccupiedEntry::get")
def m_oget(eng, st, c, a, at):
    occ, r, k = entry_parts(eng, st, a[0])
    return mapget(eng.load(st, r), k)


@model("OccupiedEntry::get_mut", "OccupiedEntry::into_mut")
def m_ogetmut(eng, st, c, a, at):
    occ, r, k = entry_parts(eng, st, a[0])
    return mv_ref(r, k)


@model("OccupiedEntry::insert")
def m_oins(eng, st, c, a, at):
    occ, r, k = entry_parts(eng, st, a[0])
    m = eng.load(st, r)
    eng.storeref(st, r, mput(m, k, a[1]))
    return mapget(m, k)


@model("OccupiedEntry::remove", "OccupiedEntry::remove_entry")
def m_oremove(eng, st, c, a, at):
    occ, r, k = entry_parts(eng, st, a[0])
    m = eng.load(st, r)
    eng.storeref(st, r, mdel(m, k))
    return mapget(m, k) if c["path"].endswith("remove") else agg("tuple", None, k, mapget(m, k))


@model("VacantEntry::insert")
def m_vins(eng, st, c, a, at):
    occ, r, k = entry_parts(eng, st, a[0])
    eng.storeref(st, r, mput(eng.load(st, r), k, a[1]))
    return mv_ref(r, k)


@model("HashMap::iter", "BTreeMap::iter")
def m_miter(eng, st, c, a, at):
    return seq(mk("entries", eng.loadall(st, a[0])))


@model("HashMap::keys", "HashSet::iter", "HashMap::into_keys", "BTreeMap::keys", "BTreeSet::iter")
def m_mkeys(eng, st, c, a, at):
    return seq(mk("keys", eng.loadall(st, a[0])))


@model("HashMap::values", "HashMap::into_values", "BTreeMap::values")
def m_mvals(eng, st, c, a, at):
    return seq(mk("vals", eng.loadall(st, a[0])))


@model("HashMap::iter_mut")
def m_mitermut(eng, st, c, a, at):
    r = mapref(eng, st, a[0])
    m = eng.load(st, r)
    return It("mapmut", r, m, I(0), terms.length(m))


@model("HashMap::values_mut")
def m_mvalsmut(eng, st, c, a, at):
    r = mapref(eng, st, a[0])
    m = eng.load(st, r)
    return It("map", It("mapmut", r, m, I(0), terms.length(m)), mk("pyfn", "snd"))


@model("HashMap::retain", "BTreeMap::retain")
def m_mretain(eng, st, c, a, at):
    return ("map_retain", [mapref(eng, st, a[0]), a[1]])


@model("HashSet::retain")
def m_sretain(eng, st, c, a, at):
    return ("set_retain", [mapref(eng, st, a[0]), a[1]])


# ---- iterators
@model("IntoIterator::into_iter", "HashMap::into_iter", "Vec::into_iter")
def m_intoiter(eng, st, c, a, at):
    ts = targs(c)
    v = a[0]
    t = ts[0] if ts else (at[0] if at else None)
    if t is None:
        return None
    tn = tnode(eng, t)
    if tn["k"] == "ref" and tn["mut"]:
        nm = strip_name(eng, t)
        if nm in ("Vec", "VecDeque", "slice", "array"):
            return m_itermut(eng, st, c, a, at)
        if nm in MAPS:
            return m_mitermut(eng, st, c, a, at)
        return v
    nm = strip_name(eng, t)
    if nm in ("Vec", "VecDeque", "slice", "array"):
        return seq(eng.loadall(st, v))
    if nm in MAPS:
        return seq(mk("entries", eng.loadall(st, v)))
    if nm in SETS:
        return seq(mk("keys", eng.loadall(st, v)))
    if nm == "Option":
        return It("opt", eng.loadall(st, v) if v.op == "ref" else v)
    if nm == "Array":
        return None
    if tn["k"] != "ref" and v.op in ("arg", "fld", "index", "call") and not str(nm).startswith("Range"):
        return seq(v)       # an iterator the caller supplied
    return v


@model("Option::iter", "Option::into_iter")
def m_optiter(eng, st, c, a, at):
    return It("opt", eng.loadall(st, a[0]))


@model("Iterator::next")
def m_next(eng, st, c, a, at):
    return ("iter_next", [a[0]])


@model("DoubleEndedIterator::next_back")
def m_nextback(eng, st, c, a, at):
    return ("iter_next_back", [a[0]])


@model("Iterator::map")
def m_map(eng, st, c, a, at):
    return It("map", a[0], a[1])


@model("Iterator::inspect")
def m_inspect(eng, st, c, a, at):
    return It("inspect", a[0], a[1])


@model("Iterator::filter")
def m_filter(eng, st, c, a, at):
    return It("filter", a[0], a[1])


@model("Iterator::filter_map")
def m_filtermap(eng, st, c, a, at):
    return It("filter_map", a[0], a[1])


@model("Iterator::take_while")
def m_takewhile(eng, st, c, a, at):
    return It("take_while", a[0], a[1], FALSE)


@model("Iterator::map_while")
def m_mapwhile(eng, st, c, a, at):
    return It("map_while", a[0], a[1])


@model("Iterator::skip_while")
def m_skipwhile(eng, st, c, a, at):
    return It("skip_while", a[0], a[1], FALSE)


def pure_value(eng, st, f, var=X_):
    """f(var) as one term when it is a loop-free function without effects, else None"""
    from interp import Undecided
    f = eng.snap(st, f)
    cache = eng.__dict__.setdefault("pures", {})
    if (f, var) in cache:
        return cache[f, var]
    e = sub_engine(eng)
    e.nested = getattr(eng, "nested", 0) + 1
    v = None
    try:
        g = e.run_spec("k1", [f, var], {})
        if not any(n.kind in ("panic", "head") for n in g.nodes) and not any(ev.kind != "call" for n in g.nodes for x in n.out for ev in x.ev):
            v = value_tree(g)
            eng.inlined |= e.inlined
    except (Undecided, KeyError):
        v = None
    cache[f, var] = v
    return v


def whole(it):
    """the sequence an iterator runs over, when it is a plain one"""
    if it.op == "agg" and it.args[:2] == ("It", "seq"):
        return slice_(it.args[2], it.args[3], it.args[4])
    return None


def cat(parts):
    out = []
    for p in parts:
        out += list(p.args) if p.op == "cat" else [p]
    return out[0] if len(out) == 1 else mk("cat", *out)


def nesting(t):
    """how deep sequences are nested in t"""
    return max([1 + nesting(x.args[1]) for x in walk(t) if x.op == "flat"] or [0])


def flat(s, lam, var):
    """the sequences lam for the elements var of s, one after the other"""
    if s.op == "cat":
        return cat([flat(p, lam, var) for p in s.args])
    el = s.args[2:] if s.op == "agg" and s.args[0] == "array" else s.args if s.op == "vec" else None
    if el is not None and 0 < len(el) <= 8:
        return cat([subst(lam, {var: x}) for x in el])
    if lam.op == "flat" and not contains(lam.args[1], var):
        return mk("flat", flat(s, lam.args[0], var), lam.args[1])
    n = nesting(lam)
    return mk("flat", s, subst(lam, {var: mk("arg", "$x%d" % n) if n else X_}))


@model("Iterator::flat_map")
def m_flatmap(eng, st, c, a, at):
    s = whole(a[0])
    if s is not None:
        var = mk("arg", "$v%d" % getattr(eng, "nested", 0))
        v = pure_value(eng, st, a[1], var)
        if v is not None:
            v = whole(v)
        if v is not None and contains(v, var):
            return seq(flat(s, v, var))
    return It("flat", a[0], a[1], NONE)


@model("Iterator::flatten")
def m_flatten(eng, st, c, a, at):
    o = a[0]
    if o.op == "agg" and o.args[:2] == ("It", "opt") and o.args[2].op == "agg":
        # of one list, or of none
        x = o.args[2]
        return as_iter_value(eng, st, eng.snap(st, x.args[2])) if x.args[1] == "Some" else seq(mk("vec"))
    return It("flatten", a[0], NONE)


@model("Iterator::peekable")
def m_peekable(eng, st, c, a, at):
    return It("peek", a[0], NONE)


@model("Peekable::peek")
def m_peek(eng, st, c, a, at):
    return ("peek", [a[0]])


@model("from_fn::from_fn", "iter::from_fn")
def m_fromfn(eng, st, c, a, at):
    return It("fromfn", a[0])


@model("successors::successors", "iter::successors")
def m_succ(eng, st, c, a, at):
    return It("succ", a[0], a[1])


@model("once::once", "iter::once")
def m_once(eng, st, c, a, at):
    return It("opt", Some(a[0]))


@model("empty::empty", "iter::empty")
def m_empty(eng, st, c, a, at):
    return It("opt", NONE)


@model("zip::zip", "iter::zip")
def m_zipf(eng, st, c, a, at):
    return m_zip(eng, st, c, [as_iter_value(eng, st, a[0]), as_iter_value(eng, st, a[1])], at)


@model("Iterator::enumerate")
def m_enumerate(eng, st, c, a, at):
    v = a[0]
    if v.op == "agg" and itpos(v) is I(0):
        return It("enumpos", v)
    return It("enum", v, I(0))


@model("Iterator::zip")
def m_zip(eng, st, c, a, at):
    x, y = a[0], a[1]
    if y.op != "agg" or y.args[0] not in ("It", "Range", "RangeInclusive", "RangeFrom"):
        if y.op == "agg" and y.args[0] == "array":
            y = seq(y)
        else:
            ts = targs(c)
            nm = strip_name(eng, ts[-1]) if len(ts) > 1 else ""
            if nm in ("Vec", "VecDeque", "slice", "array"):
                y = seq(eng.loadall(st, y))

    def fresh(z):
        return z.op == "agg" and z.args[:2] == ("It", "seq")

    def rng(z):
        return z.op == "agg" and z.args[0] in ("RangeFrom",) and z.args[2] is I(0)
    if fresh(x) and fresh(y):
        xs, ys = slice_(x.args[2], x.args[3], x.args[4]), slice_(y.args[2], y.args[3], y.args[4])
        return seq(mk("zip", xs, ys))
    return It("zip", x, y)


@model("Iterator::chain")
def m_chain(eng, st, c, a, at):
    y = a[1]
    ts = targs(c)
    if len(ts) > 1 and y.op not in ("agg",):
        r = m_intoiter(eng, st, {"args": [ts[1]], "path": ""}, [y], None)
        if isinstance(r, T):
            y = r
    elif y.op == "agg" and y.args[0] == "Option":
        y = It("opt", y)
    p, q = whole(a[0]), whole(y) if y.op == "agg" else None
    if p is not None and q is not None and p.op in TEXT and q.op in TEXT:
        return seq(cat([p, q]))
    return It("chain", a[0], y, TRUE)


TEXT = ("chars", "flat", "cat")


@model("Iterator::take")
def m_take_(eng, st, c, a, at):
    v, n = a
    if v.op == "agg" and v.args[0] == "It" and v.args[1] in ("seq", "seqmut"):
        return It(v.args[1], v.args[2], v.args[3], imin(add(v.args[3], n), v.args[4]))
    return It("take", v, n)


@model("Iterator::skip")
def m_skip(eng, st, c, a, at):
    v, n = a
    if v.op == "agg" and v.args[0] == "It" and v.args[1] in ("seq", "seqmut"):
        if v.args[1] == "seq":
            s = slice_(v.args[2], v.args[3], v.args[4])
            k = imin(n, terms.length(s))
            return seq(slice_(s, k, terms.length(s)))
        return It(v.args[1], v.args[2], imin(add(v.args[3], n), v.args[4]), v.args[4])
    return It("skip", v, n)


@model("Iterator::rev")
def m_rev(eng, st, c, a, at):
    v = a[0]
    if v.op == "agg" and v.args[:2] == ("It", "seq"):
        s = slice_(v.args[2], v.args[3], v.args[4])
        return seq(mk("revseq", s))
    return It("rev", v)


def lift(name, argc):
    def f(eng, st, c, a, at):
        return (name, a[:argc])
    return f


for _nm, _m, _k in (("fold", "fold", 3), ("reduce", "reduce", 2), ("for_each", "for_each", 2), ("find", "find", 2),
                    ("find_map", "find_map", 2), ("any", "any", 2), ("all", "all", 2), ("position", "position", 2),
                    ("count", "count", 1), ("last", "last", 1), ("nth", "nth", 2), ("partition", "partition", 2)):
    PYMODELS["Iterator::" + _nm] = lift(_m, _k)


@model("Iterator::count")
def m_count(eng, st, c, a, at):
    it = a[0]
    while it.op == "agg" and it.args[0] == "It" and it.args[1] in ("map", "enum"):
        it = it.args[2]
    if it.op == "agg" and it.args[:2] == ("It", "seq"):
        return add(it.args[4], neg(it.args[3]))
    return ("count", [a[0]])


@model("Iterator::try_fold")
def m_tryfold(eng, st, c, a, at):
    rt = retty(eng, st)
    if rt is not None and eng.adt_name(rt) == "Option":
        return ("try_fold_opt", a[:3])
    return None


@model("Iterator::sum")
def m_sum(eng, st, c, a, at):
    ts = targs(c)
    f = bool(ts) and tnode(eng, ts[-1])["k"] == "float"
    return ("sum", [a[0], mk("float", "0.0") if f else I(0), B(f)])


@model("Iterator::eq")
def m_itereq(eng, st, c, a, at):
    return ("eq_iter", [a[0], as_iter_value(eng, st, a[1])])


@model("Iterator::collect", "FromIterator::from_iter")
def m_collect(eng, st, c, a, at):
    ts = targs(c)
    fi = "from_iter" in c["path"]
    t = ts[0] if fi else ts[-1]
    tn = tnode(eng, t)
    nm = eng.adt_name(t).replace("AHash", "Hash")
    it = a[0]
    if fi:
        r = m_intoiter(eng, st, {"args": [ts[-1]], "path": ""}, [it], None)
        it = r if isinstance(r, T) else it
    if nm in ("Box", "Rc", "Arc"):
        nm = "Vec"
    if nm in ("Vec", "VecDeque"):
        if it.op == "agg" and it.args[:2] == ("It", "seq"):
            v = slice_(it.args[2], it.args[3], it.args[4])
            if v.op == "agg":
                return mk("vec", *v.args[2:])
            return v
        return ("collect_vec", [it])
    if nm == "String":
        return ("collect_str", [it])
    if nm in MAPS:
        return ("collect_map", [it])
    if nm in SETS:
        return ("collect_set", [it])
    if nm == "Option":
        inner = eng.adt_name(tn["args"][0]).replace("AHash", "Hash")
        if inner == "Vec":
            return ("collect_optvec", [it])
        if inner in MAPS:
            return ("collect_optmap", [it])
    if nm == "Result":
        inner = eng.adt_name(tn["args"][0])
        if inner == "Vec":
            return ("collect_resvec", [it])
    if nm == "tuple":
        return ("collect_unit", [it])
    return None


@model("model::box_iter")
def m_box_iter(eng, st, c, a, at):
    """an iterator behind dyn Iterator is evaluated when it is boxed (the closures have no effects but panics)"""
    it = a[0]
    if it.op == "agg" and it.args[0] == "It" and it.args[1] != "seq":
        return ("eager", [it])
    return it


@model("Extend::extend")
def m_extend(eng, st, c, a, at):
    ts = targs(c)
    nm = strip_name(eng, ts[0]) if ts else ""
    it = a[1]
    if len(ts) > 1:
        r = m_intoiter(eng, st, {"args": [ts[-1]], "path": ""}, [it], None)
        it = r if isinstance(r, T) else it
    k = "extend_vec" if nm in ("Vec", "VecDeque") else "extend_str" if nm == "String" else "extend_map" if nm in MAPS else "extend_set"
    return (k, [a[0], it])


@model("RangeInclusive::contains", "range::contains", "Range::contains", "RangeFrom::contains")
def m_rcontains(eng, st, c, a, at):
    r, x = eng.loadall(st, a[0]), eng.loadall(st, a[1])
    if r.op != "agg" or r.args[0] not in ("RangeInclusive", "Range", "RangeFrom"):
        return None
    ts = targs(c)
    k = tnode(eng, ts[0])["k"] if ts else None
    if k == "ref":
        return None
    if k == "float":
        le, less = (lambda p, q: mk("fle", p, q)), (lambda p, q: mk("flt", p, q))
    elif k == "int":
        le, less = (lambda p, q: Not(lt(q, p))), lt
    else:
        return None
    lo = le(r.args[2], x)
    if r.args[0] == "RangeFrom":
        return lo
    hi = (le if r.args[0] == "RangeInclusive" else less)(x, r.args[3])
    out = []
    for s, b in eng.fork_bool(st, lo):
        if b:
            out += [(s2, TRUE if b2 else FALSE) for s2, b2 in eng.fork_bool(s, hi)]
        else:
            out.append((s, FALSE))
    return out


@model("RangeInclusive::new")
def m_rincl(eng, st, c, a, at):
    return agg("RangeInclusive", None, a[0], a[1])


# ---- arenas, formatting, JavaScript values
@model("Arena::new")
def m_arenanew(eng, st, c, a, at):
    return mk("arena")


@model("Arena::alloc")
def m_arenaalloc(eng, st, c, a, at):
    eng.event(st, "alloc", eng.snap(st, a[1]))
    rt = retty(eng, st)
    # the allocation is shared from here on: the value itself, or a cell when it is used mutably
    v = a[1]
    root = ("H", st.ctx.id, st.block, "a")
    i = 0
    while root in st.mem and i < 3:
        root = ("H", st.ctx.id, st.block, "a", i)
        i += 1
    st.mem[root] = v
    return mk("ref", root, ())


@model("downcast_ref", "downcast_ref::downcast_ref", "Any::downcast_ref", "any::downcast_ref", "dyn Any::downcast_ref")
def m_downref(eng, st, c, a, at):
    return Some(eng.load(st, a[0]))


@model("downcast_mut", "downcast_mut::downcast_mut", "Any::downcast_mut", "any::downcast_mut")
def m_downmut(eng, st, c, a, at):
    return Some(a[0])


@model("fmt::format", "alloc::fmt::format", "format::format")
def m_format(eng, st, c, a, at):
    return mk("formatted", *[eng.snap(st, x) for x in a])


@model("Arguments::new", "Argument::new_display", "Argument::new_debug", "Arguments::new_v1", "Arguments::new_const", "io::_print", "io::_eprint", "Arguments::from_str", "stdio::_print", "Argument::none", "rt::placeholder")
def m_fmt(eng, st, c, a, at):
    return UNIT


@model("JsValue::from_f64", "JsValue::from_str", "JsValue::from_bool")
def m_jsf64(eng, st, c, a, at):
    return mk("jsval", eng.snap(st, a[0]))


@model("JsValue::as_f64")
def m_asf64(eng, st, c, a, at):
    v = eng.loadall(st, a[0])
    t = mk("as_f64", v)
    rt = retty(eng, st)
    if rt is not None:
        eng.discr_ty[t] = rt
    return t


@model("JsValue::as_string")
def m_asstring(eng, st, c, a, at):
    v = eng.loadall(st, a[0])
    t = mk("as_string", v)
    rt = retty(eng, st)
    if rt is not None:
        eng.discr_ty[t] = rt
    return t


@model("Array::iter", "Array::values")
def m_jsarriter(eng, st, c, a, at):
    return seq(mk("jsarr", eng.loadall(st, a[0])))


@model("Array::length")
def m_jsarrlen(eng, st, c, a, at):
    return terms.length(mk("jsarr", eng.loadall(st, a[0])))


@model("Array::get")
def m_jsarrget(eng, st, c, a, at):
    return index(mk("jsarr", eng.loadall(st, a[0])), a[1])


@model("Function::call1")
def m_call1(eng, st, c, a, at):
    f, th, x = [eng.snap(st, v) for v in a[:3]]
    eng.event(st, "observe", f, x)
    t = mk("called", f, x)
    rt = retty(eng, st)
    if rt is not None:
        eng.discr_ty[t] = rt
    return t


@model("Function::call0", "Function::call2")
def m_call0(eng, st, c, a, at):
    x = [eng.snap(st, v) for v in a]
    eng.event(st, "observe", *x)
    return mk("called", *x)


# ---- arguments that library functions do not accept
def pre_range(eng, st, a):
    n = terms.length(eng.load(st, a[0]))
    rg = range_of(eng, st, a[1], n) if len(a) > 1 else None
    if rg is None:
        return []
    return [Not(lt(rg[1], rg[0])), Not(lt(n, rg[1]))]


def pre_within(eng, st, a):
    n = terms.length(eng.load(st, a[0]))
    rg = range_of(eng, st, a[1], n)
    if rg is None:
        return []
    return pre_range(eng, st, a) + [Not(lt(n, add(a[2], sub(rg[1], rg[0]))))]


def pre_upto(eng, st, a):
    return [Not(lt(terms.length(eng.load(st, a[0])), a[1]))]


PRE = {
    "Vec::insert": pre_upto, "VecDeque::insert": pre_upto,
    "slice::rotate_left": pre_upto, "slice::rotate_right": pre_upto,
    "Vec::drain": pre_range, "VecDeque::drain": pre_range,
    "slice::copy_within": pre_within,
    "slice::copy_from_slice": lambda eng, st, a: [ieq(terms.length(eng.load(st, a[0])), terms.length(eng.loadall(st, a[1])))],
    "slice::clone_from_slice": lambda eng, st, a: [ieq(terms.length(eng.load(st, a[0])), terms.length(eng.loadall(st, a[1])))],
    "slice::windows": lambda eng, st, a: [Not(ieq(a[1], I(0)))],
    "methods::to_digit": lambda eng, st, a: [Not(lt(a[1], I(2))), lt(a[1], I(37))],
    "char::to_digit": lambda eng, st, a: [Not(lt(a[1], I(2))), lt(a[1], I(37))],
}
