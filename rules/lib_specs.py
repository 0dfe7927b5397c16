"""Reference behaviour of the library's entry points."""
from rulelib import *
from terms import *

INDEX = "<indexer_lib::SHARED_INDEX as std::ops::Deref>::deref::__stability::LAZY"
NODES = "<indexer_lib::NODE_ARENA as std::ops::Deref>::deref::__stability::LAZY"
SUPER = "<indexer_lib::SUPER_ARENA as std::ops::Deref>::deref::__stability::LAZY"
CLASSIC = "<indexer_lib::SHARED_CLASSIC_INDEX as std::ops::Deref>::deref::__stability::LAZY"

SPEC = '''
def search(input, categories, tags, order, feature_filter):
    filters = pcall("parse", feature_filter)
    if is_(filters, "None"):
        return Nope()
    if term("poisoned", term("static", INDEX)):
        return any_()
    shared = term("locked", term("static", INDEX))
    if is_(shared, "None"):
        return Nope()
    index = var_(shared, "Some", 0)
    text = term("flat", term("chars", input), term("lower", x_()))
    return found(index, categories, tags, order, var_(filters, "Some", 0), text)

def search_loops(input, categories, tags, order, feature_filter):
    filters = pcall("parse", feature_filter)
    if is_(filters, "None"):
        return Nope()
    if term("poisoned", term("static", INDEX)):
        return any_()
    shared = term("locked", term("static", INDEX))
    if is_(shared, "None"):
        return Nope()
    index = var_(shared, "Some", 0)
    text = vec0()
    for c in term("chars", input):
        for l in term("lower", c):
            text = vpush(text, l)
    return found(index, categories, tags, order, var_(filters, "Some", 0), text)

def found(index, categories, tags, order, filters, text):
    products = vec0()
    for e in pcall("find", index, text):
        if pcall("catok", categories, tupn(e, 0)):
            if pcall("tagok", tags, tupn(e, 0)):
                products = vpush(products, tupn(e, 0))
    for f in filters:
        kept = vec0()
        for p in products:
            if pcall("keeps", f, p, index.product_container.extra_features):
                kept = vpush(kept, p)
        products = kept
    ids = vec0()
    for p in products:
        ids = vpush(ids, p.serialization_id)
    if is_(order, "Some"):
        if term("poisoned", term("static", CLASSIC)):
            return any_()
        classic = term("locked", term("static", CLASSIC))
        if is_(classic, "None"):
            return Nope()
        o = pcall("orders", var_(classic, "Some", 0).order, var_(order, "Some", 0))
        if is_(o, "None"):
            return Nope()
        o = var_(o, "Some", 0)
        ids = sorted_(ids, "asc", term("ite", x_() >= length(o), Nope(), Some(o[x_()])), "ord")
    return Some(new("ProductProducer", container=index.product_container, to_export=ids, index=0))

def hit(a, b):
    if ieq(a, b):
        return 1.0
    return 0.0

def overlap(original, other, min_len):
    a = term("chars", original)
    b = term("chars", other)
    n = imin(length(a), length(b))
    if n < min_len:
        return 0.0
    if n == 0:
        return term("fdiv", 0.0, term("tofloat", n))
    hits = hit(a[0], b[0])
    i = 1
    while i < n:
        hits = fadd(hits, hit(a[i], b[i]))
        i = i + 1
    return term("fdiv", hits, term("tofloat", n))

def overlap_sum(original, other, min_len):
    a = term("chars", original)
    b = term("chars", other)
    n = imin(length(a), length(b))
    if n < min_len:
        return 0.0
    hits = 0.0
    i = 0
    while i < n:
        hits = fadd(hits, hit(a[i], b[i]))
        i = i + 1
    return term("fdiv", hits, term("tofloat", n))

def overlap_if(original, other, min_len):
    a = term("chars", original)
    b = term("chars", other)
    n = imin(length(a), length(b))
    if n < min_len:
        return 0.0
    hits = 0.0
    i = 0
    while i < n:
        if ieq(a[i], b[i]):
            hits = fadd(hits, 1.0)
        i = i + 1
    return term("fdiv", hits, term("tofloat", n))

def overlap_count(original, other, min_len):
    a = term("chars", original)
    b = term("chars", other)
    n = imin(length(a), length(b))
    if n < min_len:
        return 0.0
    hits = 0
    i = 0
    while i < n:
        if ieq(a[i], b[i]):
            hits = hits + 1
        i = i + 1
    return term("fdiv", term("tofloat", hits), term("tofloat", n))

def suggest(query):
    if term("poisoned", term("static", CLASSIC)):
        return any_()
    shared = term("locked", term("static", CLASSIC))
    if is_(shared, "None"):
        return Nope()
    classic = var_(shared, "Some", 0)
    best = Nope()
    for word in term("split", query, 32):
        for tag in classic.tags._0:
            score = pcall("overlap", tag.name, word, 3)
            if flt(0.8, score):
                better = True
                if is_(best, "Some"):
                    better = flt(tupn(var_(best, "Some", 0), 0), score)
                if better:
                    best = Some(tup(score, tag.id, word))
    if is_(best, "None"):
        return Nope()
    b = var_(best, "Some", 0)
    return Some(new("TagSuggestionResult", tag=new("JSTag", handle=classic, index=tupn(b, 1)), input=tupn(b, 2)))

def suggest_above(query):
    if term("poisoned", term("static", CLASSIC)):
        return any_()
    shared = term("locked", term("static", CLASSIC))
    if is_(shared, "None"):
        return Nope()
    classic = var_(shared, "Some", 0)
    best = Nope()
    top = 0.8
    for word in term("split", query, 32):
        for tag in classic.tags._0:
            score = pcall("overlap", tag.name, word, 3)
            if flt(top, score):
                top = score
                best = Some(tup(score, tag.id, word))
    if is_(best, "None"):
        return Nope()
    b = var_(best, "Some", 0)
    return Some(new("TagSuggestionResult", tag=new("JSTag", handle=classic, index=tupn(b, 1)), input=tupn(b, 2)))

def initialize(input):
    got = pcall("readall", input, term("static", NODES), term("static", SUPER))
    if is_(got, "None"):
        return False
    if term("poisoned", term("static", INDEX)):
        return any_()
    if term("poisoned", term("static", CLASSIC)):
        return any_()
    event("publish", term("static", INDEX), Some(tupn(var_(got, "Some", 0), 0)))
    event("publish", term("static", CLASSIC), Some(tupn(var_(got, "Some", 0), 1)))
    return True

def get_categories():
    if term("poisoned", term("static", CLASSIC)):
        return any_()
    shared = term("locked", term("static", CLASSIC))
    if is_(shared, "None"):
        return Nope()
    return Some(new("CategoryHandler", handle=var_(shared, "Some", 0), active=mnew(), general_observers=vec0(), option_observers=mnew()))

def get_tags():
    if term("poisoned", term("static", CLASSIC)):
        return any_()
    shared = term("locked", term("static", CLASSIC))
    if is_(shared, "None"):
        return Nope()
    return Some(new("TagHandler", handle=var_(shared, "Some", 0), active=mnew(), general_observers=vec0(), tag_observers=mnew()))

def get_orders():
    if term("poisoned", term("static", CLASSIC)):
        return any_()
    shared = term("locked", term("static", CLASSIC))
    if is_(shared, "None"):
        return Nope()
    orders = var_(shared, "Some", 0).order.orders
    names = vec0()
    i = 0
    while i < length(orders):
        names = vpush(names, term("jsval", key(orders, i)))
        i = i + 1
    return Some(names)

def suggested_input(self):
    return self.input

def suggested_tag(self):
    return self.tag
'''

STUBS = """
def stub_find(self, input):
    return pcall("find", self, collect_vec(input))

def stub_filter(self, iter, feature):
    v = vec0()
    for p in collect_vec(iter):
        if pcall("keeps", self, p, feature):
            v = vpush(v, p)
    return seqof(v)
"""


def OPS(fid, path):
    for k, v in (("::overlap", "overlap"), ("FeatureFilter::parse", "parse"), ("::search", ("=", "stub_find")), ("FeatureFilter::filter", ("=", "stub_filter")), ("CategoryHandler::is_valid", "catok"),
                 ("TagHandler::is_valid", "tagok"), ("OrderIndex::get_orders", "orders"), ("::deserialize_all", "readall")):
        if path.endswith(k):
            return v
    return None


for n_ in ("INDEX", "CLASSIC", "NODES", "SUPER"):
    SPEC = SPEC.replace("(\"static\", %s)" % n_, "(\"static\", \"%s\")" % globals()[n_])


def obs(ev, side):
    from equiv import hidden_obs
    if ev.kind in ("lock", "unlock"):
        return None
    if ev.kind == "write" and side == "i" or ev.kind == "publish":
        return ("publish",) + tuple(a if isinstance(a, str) or a.op != "static" else a.args[0] for a in ev.args)
    return hidden_obs(ev, side)


V, M = "v", "m"

TABLE = {
    "initialize": ("~^initialize$", [(V, "input")]),
    "get_categories": ("~^get_categories$", []),
    "get_tags": ("~^get_tags$", []),
    "get_orders": ("~^get_orders$", []),
    "suggested_input": ("TagSuggestionResult::get_input", [(V, "self")]),
    "suggested_tag": ("TagSuggestionResult::get_tag", [(V, "self")]),
    "overlap": ("tag_suggestion::overlap", [(V, "original"), (V, "other"), (V, "min_len")], {"spec": ("overlap", "overlap_sum", "overlap_if", "overlap_count")}),
    "suggest": ("~^tag_suggestion$", [(V, "query")], {"spec": ("suggest", "suggest_above"), "nonan": True}),
    "search": ("~^search$", [(V, a) for a in ("input", "categories", "tags", "order", "feature_filter")], {"spec": ("search", "search_loops"), "ties": True}),
}


# the suggestion with the similarity computed in place, for trees that compute it otherwise than by that function
def in_place():
    out, names = [], []
    for one in ("suggest", "suggest_above"):
        body = SPEC[SPEC.index("def %s(" % one):]
        body = body[:body.index("\n\n")]
        for way in ("overlap", "overlap_if", "overlap_sum", "overlap_count"):
            names.append("%s_%s" % (one, way))
            out.append(body.replace("def %s(" % one, "def %s(" % names[-1]).replace("pcall(\"overlap\", ", way + "("))
    return "\n\n".join(out) + "\n\n", tuple(names)


def suggestion(R):
    """the similarity and the choice by themselves; when that is not how it is written, both in one (where no float
    is NaN either: each is a count divided by at least three)"""
    o, v = len(R.oblig), len(R.viol)
    try:
        conform(R, "similarity", "overlap")
        conform(R, "choice", "suggest")
        ok = len(R.viol) == v
    except (Missing, Undecided):
        ok = False
    if ok:
        return
    failed = R.oblig[o:], R.viol[v:]
    del R.oblig[o:], R.viol[v:]
    more, names = in_place()
    e = TABLE["suggest"]
    ops = lambda fid, path: None if "::overlap" in path else OPS(fid, path)
    R.ok("similarity", "tag_suggestion::overlap", "decided as part of the suggestion")
    try:
        good = R.conform("choice", R.fid(e[0]), SPEC + more, names, e[1], opname=ops, stubs=STUBS, obs=obs, nonan="shares")
    except Undecided:
        if not failed[1]:
            raise
        good = False
    if not good and failed[1]:
        R.oblig[o:], R.viol[v:] = failed


def conform(R, rule, *names, **kw):
    for n in names:
        e = TABLE[n]
        k = dict(opname=OPS, stubs=STUBS, obs=obs)
        k.update(e[2] if len(e) > 2 else {})
        k.update(kw)
        R.conform(rule, R.fid(e[0]), SPEC, k.pop("spec", n), e[1], **k)
