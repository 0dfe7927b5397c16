"""Reference wire format, written as pairs: put_T writes a value, get_T reads it back.

In this text `x <- T` reads one value of type T at the current position `input` and returns
None if that fails; event("put", "T", x) writes one."""
import re
import rulelib
from equiv import rewriter
from terms import *
from wire import collect, namer, selftype

RAW = '''
def put_VendorManager(self, output):
    v = term("byid", self)
    event("put", "uint", length(v))
    for t in v:
        event("put", "str", t.name)
    return unit()

def get_VendorManager(input, arena):
    n <- uint
    names = mnew()
    by_id = vec0()
    i = 0
    while i < n:
        name <- str
        t = new("Vendor", name=name, id=i)
        names = mput(names, name, t)
        by_id = vpush(by_id, t)
        i = i + 1
    return Some(tup(input, new("VendorManager", tags=names, by_id=by_id, alloc=any_())))

def put_Product(self, output):
    event("put", "str", term("call", "clip", self.description, 100))
    event("put", "str", self.title)
    event("put", "str", self.id)
    event("put", "uint", self.vendor.id)
    return unit()

def get_Product(input, serialization_id, vendors):
    description <- str
    title <- str
    id <- str
    v <- uint
    if v >= length(vendors.by_id):
        return Nope()
    return Some(tup(input, new("Product", description=description, title=title, id=id, vendor=vendors.by_id[v], serialization_id=serialization_id)))

def put_ProductContainer(self, output):
    event("put", "VendorManager", self.vendors)
    event("put", "uint", length(self.products))
    for p in self.products:
        event("put", "Product", p)
    event("put", "FeatureSet", self.extra_features)
    return unit()

def get_ProductContainer(input, super_alloc):
    vendors <- VendorManager
    n <- uint
    products = vec0()
    i = 0
    while i < n:
        p <- Product(i, vendors)
        products = vpush(products, p)
        i = i + 1
    features <- FeatureSet
    return Some(tup(input, new("ProductContainer", products=products, vendors=vendors, extra_features=features)))

def put_Feature(self, output):
    if is_(self, "String"):
        event("put", "u8", 0)
        v = var_(self, "String", 0)
        event("put", "uint", length(v))
        for x in v:
            event("put", "str", x)
    elif is_(self, "Float"):
        event("put", "u8", 1)
        v = var_(self, "Float", 0)
        event("put", "uint", length(v))
        for x in v:
            event("put", "f32", x)
    else:
        event("put", "u8", 2)
        v = var_(self, "Integer", 0)
        event("put", "uint", length(v))
        for x in v:
            event("put", "uint", x)
    return unit()

def get_Feature(input):
    tag <- u8
    if tag == 0:
        n <- uint
        v = vec0()
        i = 0
        while i < n:
            x <- str
            v = vpush(v, x)
            i = i + 1
        return Some(tup(input, new("Feature::String", _0=v)))
    if tag == 1:
        n <- uint
        v = vec0()
        i = 0
        while i < n:
            x <- f32
            v = vpush(v, x)
            i = i + 1
        return Some(tup(input, new("Feature::Float", _0=v)))
    if tag == 2:
        n <- uint
        v = vec0()
        i = 0
        while i < n:
            x <- uint
            v = vpush(v, x)
            i = i + 1
        return Some(tup(input, new("Feature::Integer", _0=v)))
    return Nope()

def put_FeatureSet(self, output):
    event("put", "uint", length(self._0))
    for k in keys(self._0):
        event("put", "str", k)
        event("put", "Feature", mget(self._0, k))
    return unit()

def get_FeatureSet(input):
    n <- uint
    m = mnew()
    i = 0
    while i < n:
        k <- str
        v <- Feature
        m = mput(m, k, v)
        i = i + 1
    return Some(tup(input, new("FeatureSet", _0=m)))

def put_GramNode(self, output):
    event("put", "char", self.item)
    event("put", "f32", self.weight)
    event("put", "uint", length(self.by_occurances))
    for c in self.by_occurances:
        event("put", "GramNode", c)
    return unit()

def get_GramNode(input, arena):
    item <- char
    weight <- f32
    n <- uint
    kids = vec0()
    i = 0
    while i < n:
        c <- GramNode
        kids = vpush(kids, c)
        i = i + 1
    items = mnew()
    for k in kids:
        items = mput(items, k.item, k)
    return Some(tup(input, new("GramNode", item=item, weight=weight, by_occurances=kids, items=items)))

def get_GramNode_inline(input, arena):
    item <- char
    weight <- f32
    n <- uint
    kids = vec0()
    items = mnew()
    i = 0
    while i < n:
        c <- GramNode
        kids = vpush(kids, c)
        items = mput(items, c.item, c)
        i = i + 1
    return Some(tup(input, new("GramNode", item=item, weight=weight, by_occurances=kids, items=items)))

def put_GramIndex(self, output):
    event("put", "ProductContainer", self.product_container)
    event("put", "uint", length(self.roots))
    for k in keys(self.roots):
        event("put", "char", k)
        event("put", "GramNode", mget(self.roots, k))
    event("put", "uint", length(self.data))
    for k in keys(self.data):
        event("put", "uint", GRAM)
        j = 0
        while j < GRAM:
            event("put", "char", k[j])
            j = j + 1
        event("put", "ids", mget(self.data, k))
    return unit()

def get_GramIndex(input, node_arena, super_alloc):
    container <- ProductContainer
    n <- uint
    roots = mnew()
    i = 0
    while i < n:
        k <- char
        v <- GramNode
        roots = mput(roots, k, v)
        i = i + 1
    n <- uint
    data = mnew()
    i = 0
    while i < n:
        g <- uint
        if g != GRAM:
            return Nope()
        k = DEFAULTGRAM
        j = 0
        while j < g:
            c <- char
            k = vset(k, j, c)
            j = j + 1
        v <- ids(container.products)
        data = mput(data, k, v)
        i = i + 1
    return Some(tup(input, new("GramIndex", product_container=container, roots=roots, data=data)))

def put_CategoryIndex(self, output):
    event("put", "uint", length(self._0))
    for c in self._0:
        event("put", "bool", c.exclusive)
        event("put", "str", c.name)
        event("put", "uint", length(c.options))
        for o in c.options:
            event("put", "str", o.name)
            event("put", "ids", o.content)
    return unit()

def get_CategoryIndex(input, products):
    n <- uint
    cats = vec0()
    count = 0
    i = 0
    while i < n:
        exclusive <- bool
        name <- str
        m <- uint
        options = vec0()
        j = 0
        while j < m:
            oname <- str
            content <- ids(products)
            ids = lastids
            set = mnew()
            for x in ids:
                set = mput(set, x, unit())
            options = vpush(options, new("CategoryOption", name=oname, serialization_id=count, content=content, products_by_serialization_id=set))
            count = count + 1
            j = j + 1
        cats = vpush(cats, new("Category", name=name, options=options, exclusive=exclusive))
        i = i + 1
    return Some(tup(input, new("CategoryIndex", _0=cats)))

def put_TagIndex(self, output):
    event("put", "uint", length(self._0))
    for t in self._0:
        event("put", "str", t.name)
        event("put", "ids", t.products)
    return unit()

def get_TagIndex(input, existing_products):
    n <- uint
    tags = vec0()
    i = 0
    while i < n:
        name <- str
        content <- ids(existing_products)
        ids = lastids
        set = mnew()
        for x in ids:
            set = mput(set, x, unit())
        tags = vpush(tags, new("Tag", name=name, products=content, id=i, products_by_serialization_id=set))
        i = i + 1
    return Some(tup(input, new("TagIndex", _0=tags)))

def put_OrderIndex(self, output):
    event("put", "uint", length(self.orders))
    for k in keys(self.orders):
        event("put", "str", k)
        v = mget(self.orders, k)
        event("put", "uint", length(v))
        for x in v:
            event("put", "uint", x)
    return unit()

def get_OrderIndex(input):
    n <- uint
    m = mnew()
    i = 0
    while i < n:
        k <- str
        l <- uint
        v = vec0()
        j = 0
        while j < l:
            x <- uint
            v = vpush(v, x)
            j = j + 1
        m = mput(m, k, v)
        i = i + 1
    return Some(tup(input, new("OrderIndex", orders=m)))

def put_ClassicIndexes(self, output):
    event("put", "CategoryIndex", self.categories)
    event("put", "TagIndex", self.tags)
    event("put", "OrderIndex", self.order)
    return unit()

def get_ClassicIndexes(input, data):
    categories <- CategoryIndex(data.products)
    tags <- TagIndex(data.products)
    order <- OrderIndex
    return Some(tup(input, new("ClassicIndexes", categories=categories, tags=tags, order=order)))

def put_ids(self, output):
    v = sorted_ids(self)
    event("put", "uint", length(v))
    prev = Nope()
    for x in v:
        if is_(prev, "Some"):
            if x < var_(prev, "Some", 0):
                return any_()
            event("put", "uint", x - var_(prev, "Some", 0))
        else:
            event("put", "uint", x)
        prev = Some(x)
    return unit()

def sorted_ids(v):
    r = vec0()
    for p in v:
        r = vpush(r, p.serialization_id)
    return term("sorted", r, "asc", x_(), "ord")

def get_ids(input, existing_products):
    n <- uint
    ids = vec0()
    prev = Nope()
    i = 0
    while i < n:
        x <- uint
        if is_(prev, "Some"):
            if addovf(x, var_(prev, "Some", 0)):
                return Nope()
            x = x + var_(prev, "Some", 0)
        prev = Some(x)
        ids = vpush(ids, x)
        i = i + 1
    products = vec0()
    for id in ids:
        if id >= length(existing_products):
            return Nope()
        products = vpush(products, existing_products[id])
    return Some(tup(input, products, ids))

def put_ids_zero(self, output):
    v = sorted_ids(self)
    event("put", "uint", length(v))
    prev = 0
    for x in v:
        if x < prev:
            return any_()
        event("put", "uint", x - prev)
        prev = x
    return unit()

def put_ids_first(self, output):
    v = sorted_ids(self)
    event("put", "uint", length(v))
    if length(v) > 0:
        event("put", "uint", v[0])
    i = 1
    while i < length(v):
        if v[i] < v[i - 1]:
            return any_()
        event("put", "uint", v[i] - v[i - 1])
        i = i + 1
    return unit()

def get_ids_last(input, existing_products):
    n <- uint
    ids = vec0()
    i = 0
    while i < n:
        x <- uint
        if length(ids) > 0:
            if addovf(x, ids[length(ids) - 1]):
                return Nope()
            x = x + ids[length(ids) - 1]
        ids = vpush(ids, x)
        i = i + 1
    products = vec0()
    for id in ids:
        if id >= length(existing_products):
            return Nope()
        products = vpush(products, existing_products[id])
    return Some(tup(input, products, ids))

def get_ids_zero(input, existing_products):
    n <- uint
    ids = vec0()
    prev = 0
    i = 0
    while i < n:
        x <- uint
        if addovf(x, prev):
            return Nope()
        prev = x + prev
        ids = vpush(ids, prev)
        i = i + 1
    products = vec0()
    for id in ids:
        if id >= length(existing_products):
            return Nope()
        products = vpush(products, existing_products[id])
    return Some(tup(input, products, ids))

def put_all(ngram, classic):
    return vpush(vpush(vec0(), term("enc", "GramIndex", ngram)), term("enc", "ClassicIndexes", classic))

def get_all(input, node_arena, super_alloc):
    ngram <- GramIndex(node_arena, super_alloc)
    classic <- ClassicIndexes(ngram.product_container)
    return Some(tup(ngram, classic))
'''


def expand(src):
    out = []
    for l in src.split("\n"):
        m = re.match(r"(\s*)(\w+) <- (\w+)(?:\((.*)\))?$", l)
        if not m:
            out.append(l)
            continue
        ind, v, ty, ctx = m.groups()
        out += [ind + 'pc = term("call", "r:%s", input%s)' % (ty, ", " + ctx if ctx else ""),
                ind + 'if not is_(pc, "Some"):', ind + "    return Nope()",
                ind + 'pc = var_(pc, "Some", 0)', ind + "input = tupn(pc, 0)", ind + "%s = tupn(pc, 1)" % v]
        if ty == "ids":
            out.append(ind + "lastids = tupn(pc, 2)")
    return "\n".join(out)


def spec(N=5):
    d = 'arr(' + ", ".join(["0"] * N) + ")"
    return expand(RAW).replace("DEFAULTGRAM", d).replace("GRAM", str(N))


def tokens(ev, side):
    if ev.kind == "call" and ev.args[0][:2] == "w:":
        return ("put", ev.args[0][2:], ev.args[1])
    if ev.kind == "put":
        return ("put", ev.args[0].args[0] if hasattr(ev.args[0], "args") else ev.args[0], ev.args[1])
    if ev.kind == "callout" and side == "i":
        # a u8 is written as itself (decided by C04)
        return ("put", "u8", ev.args[-1])
    return None


# type -> arguments of the reader
READ = {
    "VendorManager": ("input", "arena"), "Product": ("input", "serialization_id", "vendors"), "ProductContainer": ("input", "super_alloc"),
    "Feature": ("input",), "FeatureSet": ("input",), "GramNode": ("input", "arena"), "GramIndex": ("input", "node_arena", "super_alloc"),
    "CategoryIndex": ("input", "products"), "TagIndex": ("input", "existing_products"), "OrderIndex": ("input",), "ClassicIndexes": ("input", "data"),
}


def names(R):
    d = namer(R, inline=("Category",))
    for f in R.fids("limit_string_len"):
        d[f] = ("clip", 9)
    return d


def normal(R):
    def f(t):
        # the vendor list ordered by id (each vendor's id is its position, decided by C16)
        if t.op == "sorted" and t.args[0].op == "vals" and t.args[0].args[0].op == "fld" and t.args[0].args[0].args[1] == "tags":
            if t.args[1:3] == ("asc", mk("fld", mk("arg", "$x"), "id")):
                return mk("byid", t.args[0].args[0].args[0])
        if t.op == "len" and t.args[0].op == "byid":
            return length(mk("fld", t.args[0].args[0], "tags"))
        # the keys of the posting lists have N symbols
        if t.op == "len" and t.args[0].op == "key" and t.args[0].args[0].op == "fld" and t.args[0].args[0].args[1] == "data":
            return I(5)
        return None
    return rewriter(f)


def check(R, rule, only=None, types=None, read=True, write=True):
    from rulelib import Missing
    W, D = collect(R)
    nm = names(R)
    op = lambda fid, path: nm.get(fid)
    for T_, args in READ.items():
        if only and T_ not in only or types and T_ not in types:
            continue
        ws = [f for t in W if t.split("<")[0] == T_ for f in W[t]]
        rs = [f for t in D if t.split("<")[0] == T_ for f in D[t]]
        if not ws or not rs:
            raise Missing("no %s for %s" % ("writer" if not ws else "reader", T_))
        kw = dict(opname=op, finals=[], norm=normal(R), obs=tokens)
        for f in ws if write else ():
            if T_ == "GramNode":
                # a helper that calls itself for the nested values writes one of them each time
                hs = [h for h in reach(R, f) if h not in nm and h in calls(R, h)]
                kw["recname"] = {h: ("w:GramNode", 2) for h in hs}
                for h in hs:
                    R.conform(rule, h, spec(), "put_GramNode", [("v", "self"), ("v", "output")], **kw)
            R.conform(rule, f, spec(), "put_" + T_, [("v", "self"), ("v", "output")], **kw)
        kw.pop("recname", None)
        for f in rs if read else ():
            if T_ == "GramNode":
                nested(R, rule, f, op, kw)
                continue
            R.conform(rule, f, spec(), "get_" + T_, [("v", a) for a in args], **kw)


def calls(R, g):
    b = R.P.fns.get(g)
    return [t[1][1]["fn"] for blk in b["blocks"] for t in [blk["t"]] if t[0] == "call" and t[1][0] == "def" and t[1][1].get("fn")
            and R.P.fns.get(t[1][1]["fn"]) and R.P.fns[t[1][1]["fn"]]["local"]] if b else []


def reach(R, g):
    seen, todo = [], [g]
    while todo:
        for h in calls(R, todo.pop()):
            if h not in seen:
                seen.append(h)
                todo.append(h)
    return seen


def recursive(R, f):
    """the function the reader f of nested values calls for nested ones: itself, or a helper"""
    for h in [f] + reach(R, f):
        if h in reach(R, h):
            return h
    return None


def levels(R, f, op, most):
    """The reader f and its calls for nested values, level by level: (function, its further arguments) for up to
    `most` levels, and how it ends: "end" when the last level calls no further, "loop" when a level repeats,
    "more" when there are further levels, "?" when the further arguments are no constants."""
    h = recursive(R, f)
    out, cur = [(f, None)], None
    if h is None:
        return out, "end", None
    rec = {h: ("r:GramNode", 1)}
    while True:
        e = R.engine(None, opname=lambda fid, path: None if fid in (f, h) else op(fid, path), recname=rec)
        e.argnames = None
        rulelib.forget()
        if cur is None:
            e.run(f, None, None)
        else:
            cur = [again(x) for x in cur]
            e.run(h, [None, None] + cur[1:], None)
        nxt = e.recs.get(h, set())
        if not nxt:
            return out, "end", h
        if len(nxt) > 1 or any(x.op != "int" for x in list(nxt)[0][1:]):
            return out, "?", h
        cur = list(nxt)[0]
        key = (h, tuple(cur[1:]))
        if any(k[0] is h and k[1] and [show(x) for x in k[1]] == [show(x) for x in key[1]] for k in out) or f is h and len(cur) == 1:
            return out, "loop", h
        if len(out) >= most:
            return out, "more", h
        out.append(key)


def nested(R, rule, f, op, kw):
    """a reader of nested values, at every depth that occurs (grams have 5 symbols)"""
    ls, end, h = levels(R, f, op, 5)
    kw = dict(kw, opname=lambda fid, path: None if fid in (f, h) else op(fid, path), recname={h: ("r:GramNode", 1)})
    for i, (g, more) in enumerate(ls):
        args = [("v", "input"), ("v", "arena")]
        if more is not None:
            kw["given"] = [None, None] + list(more)
        R.conform(rule, g, spec(), ("get_GramNode", "get_GramNode_inline"), args, construct=R.path(g) + (" at depth %d" % i if i else ""), **kw)
    if end in ("end", "?") and len(ls) < 5:
        R.bad(rule, R.path(f), "nested values are read to a depth of %d, written ones are up to 5 deep" % len(ls) if end == "end" else
              "the depth to which nested values are read is not decided", R.where(f))


STUBS = """
def stub_w_GramIndex(v, output):
    call(output, term("enc", "GramIndex", v))
    return unit()

def stub_w_ClassicIndexes(v, output):
    call(output, term("enc", "ClassicIndexes", v))
    return unit()
"""


def whole(R, rule, read=True, write=True):
    """the top-level entry points: the buffer holds the encodings in order, and both are read back"""
    nm = names(R)
    if write:
        st = {f: ("=", "stub_" + v[0].replace(":", "_")) for f, v in nm.items() if v[0] in ("w:GramIndex", "w:ClassicIndexes")}
        for f in R.fids("serialize_all"):
            R.conform(rule, f, spec(), "put_all", [("v", "ngram"), ("v", "classic")], opname=lambda fid, path: st.get(fid), stubs=STUBS, finals=[])
    if read:
        for f in R.fids("deserialize_all"):
            R.conform(rule, f, spec(), "get_all", [("v", "input"), ("v", "node_arena"), ("v", "super_alloc")], opname=lambda fid, path: nm.get(fid), finals=[])


PRIMS = ("uint", "u8", "str", "f32", "char", "bool")


def ids(R, rule):
    """lists of product ids: ascending, first absolute, then differences"""
    nm = {f: v for f, v in names(R).items() if v[0][2:] in PRIMS}
    for f in R.fids("serialize_to_sequential_array"):
        R.conform(rule, f, spec(), ("put_ids", "put_ids_zero", "put_ids_first"), [("v", "self"), ("v", "output")], opname=lambda fid, path: nm.get(fid), finals=[], norm=normal(R), obs=tokens)
    for f in R.fids("deserialize_from_sequential_ids"):
        R.conform(rule, f, spec(), ("get_ids", "get_ids_zero", "get_ids_last"), [("v", "input"), ("v", "existing_products")], opname=lambda fid, path: nm.get(fid), finals=[], wrap64=True, nopanic=True)
