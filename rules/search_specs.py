"""Reference behaviour of ordering, ranking, searching, indexing and filtering."""
from terms import *

SPEC = '''
def order_add(self, products, maker, cmp, key):
    v = vec0()
    for p in products.products:
        event("callout", maker, p, products.extra_features)
        v = vpush(v, tup(app(maker, p, products.extra_features), p.serialization_id))
    s = sorted_(v, "cmp", app(cmp, tupn(x_(), 0), tupn(y_(), 0)), "fn")
    order = repeat_(0, length(v))
    i = 0
    while i < length(s):
        if tupn(s[i], 1) >= length(order):
            return any_()
        order[tupn(s[i], 1)] = i
        i = i + 1
    self.orders = mput(self.orders, key, order)
    return unit()

def order_add_two(self, products, maker, cmp, key):
    v = vec0()
    for p in products.products:
        event("callout", maker, p, products.extra_features)
        v = vpush(v, tup(app(maker, p, products.extra_features), p.serialization_id))
    s = sorted_(v, "cmp", app(cmp, tupn(x_(), 0), tupn(y_(), 0)), "fn")
    ids = vec0()
    j = 0
    while j < length(s):
        ids = vpush(ids, tupn(s[j], 1))
        j = j + 1
    order = repeat_(0, length(ids))
    i = 0
    while i < length(ids):
        if ids[i] >= length(order):
            return any_()
        order[ids[i]] = i
        i = i + 1
    self.orders = mput(self.orders, key, order)
    return unit()

def order_get(self, feature):
    if feature in self.orders:
        return Some(mget(self.orders, feature))
    return Nope()

def limit(input, max_len):
    i = 0
    last = Nope()
    while i < length(term("chars", input)):
        off = term("coff", input, i)
        if off > max_len:
            if is_(last, "Some"):
                if var_(last, "Some", 0) > length(input):
                    return any_()
                if term("isboundary", input, var_(last, "Some", 0)):
                    return slice(input, 0, var_(last, "Some", 0))
                return any_()
            if off > length(input):
                return any_()
            return slice(input, 0, off)
        if index(term("chars", input), i) == 32:
            if off > 0:
                last = Some(off)
        i = i + 1
    return input

def limit_zero(input, max_len):
    i = 0
    last = 0
    while i < length(term("chars", input)):
        off = term("coff", input, i)
        if off > max_len:
            end = off
            if last > 0:
                end = last
            if end > length(input):
                return any_()
            if term("isboundary", input, end):
                return slice(input, 0, end)
            return any_()
        if index(term("chars", input), i) == 32:
            last = off
        i = i + 1
    return input

def limit_two(input, max_len):
    i = 0
    while i < length(term("chars", input)):
        cut = term("coff", input, i)
        if cut > max_len:
            last = Nope()
            j = 0
            while j < length(term("chars", input)):
                off = term("coff", input, j)
                if off > max_len:
                    break
                if index(term("chars", input), j) == 32:
                    if off > 0:
                        last = Some(off)
                j = j + 1
            if is_(last, "Some"):
                cut = var_(last, "Some", 0)
            if cut > length(input):
                return any_()
            if term("isboundary", input, cut):
                return slice(input, 0, cut)
            return any_()
        i = i + 1
    return input

def limit_cut(input, max_len):
    i = 0
    while i < length(term("chars", input)):
        end = term("coff", input, i)
        if end > max_len:
            cut = end
            j = 0
            while j < length(term("chars", input)):
                off = term("coff", input, j)
                if not off < end:
                    break
                if index(term("chars", input), j) == 32:
                    if off > 0:
                        cut = off
                j = j + 1
            if cut > length(input):
                return any_()
            if term("isboundary", input, cut):
                return slice(input, 0, cut)
            return any_()
        i = i + 1
    return input

def ranker_add(self, data, confidence):
    k = data.id
    m = self.confidence_for_data
    if k in m:
        self.confidence_for_data = mput(m, k, tup(tupn(mget(m, k), 0), fadd(tupn(mget(m, k), 1), confidence)))
    else:
        self.confidence_for_data = mput(m, k, tup(data, confidence))
    return unit()

def ranker_export(self):
    v = vec0()
    m = self.confidence_for_data
    i = 0
    while i < length(m):
        v = vpush(v, val(m, i))
        i = i + 1
    return sorted_(v, "desc", tupn(x_(), 1), "total")

def ranker_new():
    return new("ResultRanker", confidence_for_data=mnew())

def run_filter(f, self, iter, feature):
    it = call(f, self, seqof(iter), feature)
    v = collect_vec(it)
    return v

def run_options(f, self):
    v = collect_vec(call(f, self))
    return v

def order_options(self):
    v = vec0()
    i = 0
    while i < length(self.orders):
        v = vpush(v, key(self.orders, i))
        i = i + 1
    return v

def js_value(set, product, key):
    if key in set._0:
        f = mget(set._0, key)
        i = product.serialization_id
        if is_(f, "String"):
            if i < length(var_(f, "String", 0)):
                return Some(term("jsval", var_(f, "String", 0)[i]))
        if is_(f, "Float"):
            if i < length(var_(f, "Float", 0)):
                return Some(term("jsval", term("widen", var_(f, "Float", 0)[i])))
        if is_(f, "Integer"):
            if i < length(var_(f, "Integer", 0)):
                return Some(term("jsval", term("tofloat64", var_(f, "Integer", 0)[i])))
    return Nope()

def filter(self, iter, feature):
    v = vec0()
    if is_(self.data, "Exact"):
        for p in iter:
            x = js_value(feature, p, self.feature)
            if is_(x, "Some"):
                if var_(x, "Some", 0) == var_(self.data, "Exact", 0):
                    v = vpush(v, p)
        return v
    from_ = term("as_f64", var_(self.data, "Range", "from"))
    to = term("as_f64", var_(self.data, "Range", "to"))
    if is_(from_, "None"):
        if is_(to, "None"):
            return iter
        for p in iter:
            x = js_value(feature, p, self.feature)
            if is_(x, "Some"):
                n = term("as_f64", var_(x, "Some", 0))
                if is_(n, "Some"):
                    if fle(var_(n, "Some", 0), var_(to, "Some", 0)):
                        v = vpush(v, p)
        return v
    if is_(to, "None"):
        for p in iter:
            x = js_value(feature, p, self.feature)
            if is_(x, "Some"):
                n = term("as_f64", var_(x, "Some", 0))
                if is_(n, "Some"):
                    if fle(var_(from_, "Some", 0), var_(n, "Some", 0)):
                        v = vpush(v, p)
        return v
    for p in iter:
        x = js_value(feature, p, self.feature)
        if is_(x, "Some"):
            n = term("as_f64", var_(x, "Some", 0))
            if is_(n, "Some"):
                if fle(var_(from_, "Some", 0), var_(n, "Some", 0)):
                    if fle(var_(n, "Some", 0), var_(to, "Some", 0)):
                        v = vpush(v, p)
    return v

def filter_each(self, iter, feature):
    v = vec0()
    if is_(self.data, "Exact"):
        for p in iter:
            x = js_value(feature, p, self.feature)
            if is_(x, "Some"):
                if var_(x, "Some", 0) == var_(self.data, "Exact", 0):
                    v = vpush(v, p)
        return v
    from_ = term("as_f64", var_(self.data, "Range", "from"))
    to = term("as_f64", var_(self.data, "Range", "to"))
    if is_(from_, "None"):
        if is_(to, "None"):
            return iter
    for p in iter:
        x = js_value(feature, p, self.feature)
        if is_(x, "Some"):
            n = term("as_f64", var_(x, "Some", 0))
            if is_(n, "Some"):
                if within(from_, to, var_(n, "Some", 0)):
                    v = vpush(v, p)
    return v
def within(from_, to, n):
    if is_(from_, "Some"):
        if not fle(var_(from_, "Some", 0), n):
            return False
    if is_(to, "Some"):
        if not fle(n, var_(to, "Some", 0)):
            return False
    return True

def new_range(from_, to, feature):
    return new("FeatureFilter", data=new("FilterData::Range", from_=from_, to=to), feature=feature)

def new_exactly(exactly, feature):
    return new("FeatureFilter", data=new("FilterData::Exact", _0=exactly), feature=feature)

def parse(input):
    out = vec0()
    es = pcall("Object::entries", input)
    for e in term("jsarr", es):
        a = pcall("TryFrom::try_from", e)
        if is_(a, "Err"):
            return Nope()
        arr = term("jsarr", var_(a, "Ok", 0))
        name = term("as_string", arr[0])
        if is_(name, "None"):
            return Nope()
        exact = pcall("Reflect::get", arr[1], term("jsval", str_("exact")))
        if is_(exact, "Err"):
            return Nope()
        done = False
        if pcall("JsValue::is_undefined", var_(exact, "Ok", 0)):
            from_ = pcall("Reflect::get", arr[1], term("jsval", str_("from")))
            if is_(from_, "Ok"):
                to = pcall("Reflect::get", arr[1], term("jsval", str_("to")))
                if is_(to, "Ok"):
                    out = vpush(out, new("FeatureFilter", data=new("FilterData::Range", from_=var_(from_, "Ok", 0), to=var_(to, "Ok", 0)), feature=var_(name, "Some", 0)))
                    done = True
        if not done:
            out = vpush(out, new("FeatureFilter", data=new("FilterData::Exact", _0=var_(exact, "Ok", 0)), feature=var_(name, "Some", 0)))
    return Some(out)

def search(self, input):
    rank = mnew()
    w = arr(0, 0, 0, 0, 0)
    for g in input:
        w = arr(w[1], w[2], w[3], w[4], g)
        if w[0] in self.roots:
            r = pcall("walk", slice(w, 1, 5), mget(self.roots, w[0]), Nope(), 0, 1, 1.0, arr(w[0], 0, 0, 0, 0), 1)
            if is_(r, "Some"):
                found = tupn(var_(r, "Some", 0), 0)
                if found in self.data:
                    for p in mget(self.data, found):
                        if p.id in rank:
                            rank = mput(rank, p.id, tup(tupn(mget(rank, p.id), 0), fadd(tupn(mget(rank, p.id), 1), tupn(var_(r, "Some", 0), 1))))
                        else:
                            rank = mput(rank, p.id, tup(p, tupn(var_(r, "Some", 0), 1)))
    v = vec0()
    i = 0
    while i < length(rank):
        v = vpush(v, val(rank, i))
        i = i + 1
    return sorted_(v, "desc", tupn(x_(), 1), "total")

def better(a, b):
    if is_(a, "None"):
        return b
    if is_(b, "None"):
        return a
    if flt(tupn(var_(b, "Some", 0), 1), tupn(var_(a, "Some", 0), 1)):
        return a
    return b

def walk(input, node, previous_node, changes, changes_limit, weight, so_far, at):
    if at == 5:
        return Some(tup(so_far, weight))
    if at > 5:
        return any_()
    if at < 1:
        return any_()
    best = Nope()
    own = Nope()
    rest = vec0()
    if length(input) > 0:
        rest = slice(input, 1, length(input))
        if input[0] in node.items:
            child = mget(node.items, input[0])
            own = Some(child.item)
            mine = vset(so_far, at, child.item)
            best = pcall("walk", rest, child, Some(node), changes, changes_limit, fmul(weight, child.weight), mine, at + 1)
    if changes_limit > changes:
        if changes + 1 > 255:
            return any_()
        for child in node.by_occurances:
            skip = False
            if is_(own, "Some"):
                if var_(own, "Some", 0) == child.item:
                    skip = True
            if not skip:
                if changes + 2 > 255:
                    return any_()
                mine = vset(so_far, at, child.item)
                instead = pcall("walk", rest, child, Some(node), changes + 1, changes_limit, fmul(weight, child.weight), mine, at + 1)
                missing = pcall("walk", input, child, Some(node), changes + 2, changes_limit, fmul(weight, child.weight), mine, at + 1)
                best = better(better(instead, missing), best)
        if length(input) > 0:
            if is_(previous_node, "Some"):
                items = var_(previous_node, "Some", 0).items
                if input[0] in items:
                    last = mget(items, input[0])
                    extra = pcall("walk", rest, last, Nope(), changes + 1, changes_limit, weight, vset(so_far, at - 1, last.item), at)
                    best = better(extra, best)
    return best
'''


def WALK(fid, path):
    return "walk" if path.endswith("::recursive_search") else None


V, M = "v", "m"
S, MS = (V, "self"), (M, "self")
TABLE = {
    "order_add": ("*OrderIndex::add_custom_cmp", [MS, (V, "products"), (V, "maker"), (V, "cmp"), (V, "key")], {"spec": ("order_add", "order_add_two")}),
    "order_get": ("*OrderIndex::get_orders", [S, (V, "feature")]),
    "limit": ("limit_string_len", [(V, "input"), (V, "max_len")], {"spec": ("limit", "limit_zero", "limit_two", "limit_cut")}),
    "ranker_add": ("*ResultRanker::add", [MS, (V, "data"), (V, "confidence")]),
    "ranker_export": ("*ResultRanker::export_data_by_confidence", [S], {"ties": True}),
    "ranker_new": ("*ResultRanker::new", []),
    "js_value": ("FeatureSet::get_js", [(V, "set"), (V, "product"), (V, "key")]),
    "filter": ("FeatureFilter::filter", [S, (V, "iter"), (V, "feature")], {"drive": "run_filter", "spec": ("filter", "filter_each")}),
    "new_range": ("FeatureFilter::new_range", [(V, "from_"), (V, "to"), (V, "feature")]),
    "new_exactly": ("FeatureFilter::new_exactly", [(V, "exactly"), (V, "feature")]),
    "parse": ("FeatureFilter::parse", [(V, "input")]),
    "search": ("*GramIndex::search", [S, (V, "input")], {"opname": WALK, "ties": True}),
    "order_options": ("OrderIndex::options", [S], {"drive": "run_options"}),
    "walk": ("*GramIndex::recursive_search", [(V, "input"), (V, "node"), (V, "previous_node"), (V, "changes"), (V, "changes_limit"), (V, "weight"), (V, "so_far"), (V, "at")], {"opname": WALK}),
}


HELPERS = ("new_range", "new_exactly", "ranker_add", "ranker_export", "ranker_new")


def conform(R, rule, *names, **kw):
    for n in names:
        e = TABLE[n]
        if n in HELPERS and R.folded(rule, e[0].lstrip("*")):
            continue
        k = dict(e[2]) if len(e) > 2 else {}
        k.update(kw)
        s = k.pop("spec", n)
        d = k.pop("drive", None)
        if d:
            f = R.fid(e[0])
            R.drive(rule, R.path(f), SPEC, d, s, e[1], [f], **k)
            continue
        if e[0][0] == "*":
            from rulelib import Missing
            fs = R.fids(e[0][1:])
            if not fs:
                raise Missing(e[0])
            for f in fs:
                R.conform(rule, f, SPEC, s, e[1], construct=f.split("::", 1)[1], **k)
        else:
            R.conform(rule, R.fid(e[0]), SPEC, s, e[1], **k)
