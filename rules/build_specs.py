"""Reference behaviour of the catalogue side of indexing: vendors, feature columns, categories, tags, orders."""
from equiv import rewriter
from interp import Undecided
import itertools

from terms import *

SPEC = '''
def option_new(name, serialization_id):
    return new("CategoryOption", name=name, content=vec0(), products_by_serialization_id=mnew(), serialization_id=serialization_id)

def option_add(self, product):
    s = product.serialization_id
    if not (s in self.products_by_serialization_id):
        self.products_by_serialization_id = mput(self.products_by_serialization_id, s, unit())
        self.content = vpush(self.content, product)
    return unit()

def option_contains(self, product):
    return product.serialization_id in self.products_by_serialization_id

def category_new(name):
    return new("Category", name=name, options=vec0(), exclusive=False)

def named(list, name):
    i = 0
    while i < length(list):
        if list[i].name == name:
            return i
        i = i + 1
    return length(list)

def cat_index(options_list, container):
    cats = vec0()
    i = 0
    while i < length(options_list):
        for raw in options_list[i]:
            c = 0
            while c < length(cats):
                if cats[c].name == raw.name:
                    break
                c = c + 1
            if c >= length(cats):
                c = length(cats)
                cats = vpush(cats, new("Category", name=raw.name, options=vec0(), exclusive=False))
            for value in raw.values:
                o = 0
                while o < length(cats[c].options):
                    if cats[c].options[o].name == value:
                        break
                    o = o + 1
                if o >= length(cats[c].options):
                    o = length(cats[c].options)
                    cats[c].options = vpush(cats[c].options, new("CategoryOption", name=value, content=vec0(), products_by_serialization_id=mnew(), serialization_id=0))
                if i >= length(container.products):
                    return any_()
                p = container.products[i]
                if not (p.serialization_id in cats[c].options[o].products_by_serialization_id):
                    cats[c].options[o].products_by_serialization_id = mput(cats[c].options[o].products_by_serialization_id, p.serialization_id, unit())
                    cats[c].options[o].content = vpush(cats[c].options[o].content, p)
        i = i + 1
    n = 0
    c = 0
    while c < length(cats):
        o = 0
        while o < length(cats[c].options):
            cats[c].options[o].serialization_id = n
            n = n + 1
            o = o + 1
        c = c + 1
    return new("CategoryIndex", _0=cats)

def tag_new(name, products, id):
    ids = mnew()
    for p in products:
        ids = mput(ids, p.serialization_id, unit())
    return new("Tag", name=name, products=products, products_by_serialization_id=ids, id=id)

def tag_contains(self, product):
    return product.serialization_id in self.products_by_serialization_id

def tag_index(tags_for_product, container):
    m = mnew()
    i = 0
    while i < length(tags_for_product):
        if i >= length(container.products):
            return any_()
        p = container.products[i]
        for t in tags_for_product[i]:
            if t in m:
                m = mput(m, t, vpush(mget(m, t), p))
            else:
                m = mput(m, t, vpush(vec0(), p))
        i = i + 1
    tags = vec0()
    es = entries(m)
    i = 0
    while i < length(m):
        ids = mnew()
        for p in tupn(es[i], 1):
            ids = mput(ids, p.serialization_id, unit())
        tags = vpush(tags, new("Tag", name=tupn(es[i], 0), products=tupn(es[i], 1), products_by_serialization_id=ids, id=i))
        i = i + 1
    return new("TagIndex", _0=tags)

def vendor_insert(self, name):
    if not (name in self.tags):
        v = new("Vendor", name=name, id=length(self.tags))
        self.tags = mput(self.tags, name, v)
        self.by_id = vpush(self.by_id, v)
    return unit()

def vendor_get_or_insert(self, name):
    if name in self.tags:
        return mget(self.tags, name)
    v = new("Vendor", name=name, id=length(self.tags))
    self.tags = mput(self.tags, name, v)
    self.by_id = vpush(self.by_id, v)
    return v

def vendor_get(self, name):
    if name in self.tags:
        return Some(mget(self.tags, name))
    return Nope()

def vendor_new(alloc):
    return new("VendorManager", tags=mnew(), by_id=vec0(), alloc=any_())
'''

# the product looked up before its options
CATS = SPEC[SPEC.index("def cat_index("):SPEC.index("def tag_new(")]
LOOKUP = """                if i >= length(container.products):
                    return any_()
                p = container.products[i]
"""
SPEC += CATS.replace(LOOKUP, "").replace("        for raw in", "".join(l[8:] + "\n" for l in LOOKUP.splitlines()) + "        for raw in").replace("cat_index(", "cat_index_early(")

# the option looked up again after it was made
FRESH = CATS[CATS.index("                    o = length(cats[c].options)\n"):CATS.index("                    cats[c].options = vpush")]
ENTER = CATS[CATS.index(LOOKUP):CATS.index("        i = i + 1\n    n = 0")]
AGAIN = """                o = 0
                while o < length(cats[c].options):
                    if cats[c].options[o].name == value:
                        break
                    o = o + 1
                if o < length(cats[c].options):
""" + "".join("    " + l + "\n" for l in ENTER[len(LOOKUP):].splitlines())
SPEC += CATS.replace(FRESH, "").replace(ENTER, AGAIN).replace("                o = 0\n", LOOKUP + "                o = 0\n", 1).replace("cat_index(", "cat_index_again(")

# The callers give as many products as there are lists (optimize_lists decides that they do).
TAGS = SPEC[SPEC.index("def tag_index("):SPEC.index("def vendor_insert(")]
SPEC += TAGS.replace("tag_index(", "tag_index_zip(").replace("    m = mnew()\n", """    if not ieq(length(container.products), length(tags_for_product)):
        return any_()
    m = mnew()
""", 1)
SPEC += CATS.replace("cat_index(", "cat_index_zip(").replace("    cats = vec0()\n", """    if not ieq(length(container.products), length(options_list)):
        return any_()
    cats = vec0()
""", 1)

for T_, V_ in (("int", "Integer"), ("float", "Float"), ("string", "String")):
    SPEC += '''
def add_%s(self, key, value):
    if key in self._0:
        if is_(mget(self._0, key), "%s"):
            self._0 = mput(self._0, key, new("Feature::%s", _0=vpush(var_(mget(self._0, key), "%s", 0), value)))
            return unit()
        return any_()
    self._0 = mput(self._0, key, new("Feature::%s", _0=vpush(vec0(), value)))
    return unit()
''' % (T_, V_, V_, V_, V_)

SPEC += '''
def feature_get(self, product, key):
    if key in self._0:
        f = mget(self._0, key)
        i = product.serialization_id
        if is_(f, "String"):
            if i < length(var_(f, "String", 0)):
                return Some(new("FeatureValue::String", _0=var_(f, "String", 0)[i]))
        if is_(f, "Float"):
            if i < length(var_(f, "Float", 0)):
                return Some(new("FeatureValue::Float", _0=var_(f, "Float", 0)[i]))
        if is_(f, "Integer"):
            if i < length(var_(f, "Integer", 0)):
                return Some(new("FeatureValue::Integer", _0=var_(f, "Integer", 0)[i]))
    return Nope()

def column_get(self, index):
    if is_(self, "String"):
        if index < length(var_(self, "String", 0)):
            return Some(new("FeatureValue::String", _0=var_(self, "String", 0)[index]))
    if is_(self, "Float"):
        if index < length(var_(self, "Float", 0)):
            return Some(new("FeatureValue::Float", _0=var_(self, "Float", 0)[index]))
    if is_(self, "Integer"):
        if index < length(var_(self, "Integer", 0)):
            return Some(new("FeatureValue::Integer", _0=var_(self, "Integer", 0)[index]))
    return Nope()

def column(self, key):
    if key in self._0:
        return Some(mget(self._0, key))
    return Nope()
'''

# Catalogue preparation, whole and in parts: what the result holds besides the part looked at is left open.
ORDERS = (("Alphabetical", "p.title", "asc", "ord"), ("Price low to high", "price", "asc", "total"), ("Price high to low", "price", "desc", "total"))

VENDORS = """
    tags = mnew()
    by_id = vec0()
    for raw in input:
        if not (raw.vendor in tags):
            v = new("Vendor", name=raw.vendor, id=length(tags))
            tags = mput(tags, raw.vendor, v)
            by_id = vpush(by_id, v)
    products = vec0()
    options = vec0()
    labels = vec0()
    feats = mnew()
    i = 0
    while i < length(input):
        raw = input[i]
        if not term("parses", raw.price.min.amount, "f32"):
            return any_()
        if not (raw.vendor in tags):
            return any_()
        labels = vpush(labels, raw.tags)
        options = vpush(options, raw.options)
"""

COLUMNS = """
        image = str_("")
        if length(raw.media) > 0:
            image = raw.media[0].url
        if str_("image_url") in feats:
            if not is_(mget(feats, str_("image_url")), "String"):
                return any_()
            feats = mput(feats, str_("image_url"), new("Feature::String", _0=vpush(var_(mget(feats, str_("image_url")), "String", 0), image)))
        else:
            feats = mput(feats, str_("image_url"), new("Feature::String", _0=vpush(vec0(), image)))
        amount = term("parsed", raw.price.min.amount, "f32")
        if str_("price") in feats:
            if not is_(mget(feats, str_("price")), "Float"):
                return any_()
            feats = mput(feats, str_("price"), new("Feature::Float", _0=vpush(var_(mget(feats, str_("price")), "Float", 0), amount)))
        else:
            feats = mput(feats, str_("price"), new("Feature::Float", _0=vpush(vec0(), amount)))
"""

PRODUCTS = """
        products = vpush(products, new("Product", description=raw.description, title=raw.title, id=raw.id, vendor=mget(tags, raw.vendor), serialization_id=i))
        i = i + 1
    orders = mnew()
"""

RANK_ONE = ["""
    v = vec0()
    j = 0
    while j < length(products):
        p = products[j]
%s
        v = vpush(v, tup(val, p.serialization_id))
        j = j + 1
    s = sorted_(v, "%s", tupn(x_(), 0), "%s")
    order = repeat_(0, length(v))
    j = 0
    while j < length(s):
        if tupn(s[j], 1) >= length(order):
            return any_()
        order[tupn(s[j], 1)] = j
        j = j + 1
    orders = mput(orders, str_("%s"), order)
""" % ("        val = " + what if what != "price" else """
        if not (str_("price") in feats):
            return any_()
        f = mget(feats, str_("price"))
        if not is_(f, "Float"):
            return any_()
        if p.serialization_id >= length(var_(f, "Float", 0)):
            return any_()
        val = var_(f, "Float", 0)[p.serialization_id]""", dir_, mode, name) for name, what, dir_, mode in ORDERS]
# the orders may be built in any sequence
RANKS = ["".join(p) for p in itertools.permutations(RANK_ONE)]
# or with the sorted products' numbers listed first
RANKS += ["".join(p).replace("    order = repeat_(0, length(v))\n", """    ids = vec0()
    j = 0
    while j < length(s):
        ids = vpush(ids, tupn(s[j], 1))
        j = j + 1
    order = repeat_(0, length(ids))
""").replace("j < length(s):\n        if tupn(s[j], 1) >=", "j < length(ids):\n        if ids[j] >=").replace("order[tupn(s[j], 1)]", "order[ids[j]]") for p in (RANK_ONE,)]

CATALOGUE = 'new("ProductContainer", products=products, vendors=new("VendorManager", tags=tags, by_id=by_id, alloc=any_()), extra_features=%s)'
FEATS = 'new("FeatureSet", _0=feats)'


def optimize_src(name, container, lists=None, columns=True, orders=True, where="any_()", ranks=0):
    """the part called `name`; container: what is compared of the products, lists: of tags and categories"""
    return ("def %s(input, super_alloc):" % name + VENDORS + (COLUMNS if columns else "") + PRODUCTS + (RANKS[ranks] if orders else "")
            + "    where = %s\n" % where
            + '    return tup(%s, new("ClassicIndexes", categories=%s, tags=%s, order=%s))\n\n' % (
                container, 'pcall("cat_index", options, where)' if lists else "any_()", 'pcall("tag_index", labels, where)' if lists else "any_()",
                'new("OrderIndex", orders=orders)' if orders else "any_()"))


WHOLE = CATALOGUE % FEATS
OPEN_FEATS = CATALOGUE % "any_()"
SPEC += optimize_src("optimize", WHOLE, lists=True, where=WHOLE)
SPEC += optimize_src("optimize_products", OPEN_FEATS, columns=False, orders=False)
SPEC += optimize_src("optimize_lists", "any_()", lists=True, columns=False, orders=False, where='new("ProductContainer", products=products, vendors=any_(), extra_features=any_())')
SPEC += optimize_src("optimize_columns", 'new("ProductContainer", products=any_(), vendors=any_(), extra_features=%s)' % FEATS, orders=False)
ORDERED = tuple("optimize_orders" + ("_%d" % i if i else "") for i in range(len(RANKS)))
SPEC += "".join(optimize_src(n, "any_()", ranks=i) for i, n in enumerate(ORDERED))

# which helpers a part takes as given
ADD = tuple(("FeatureSet::add_%s" % k, ("add_column", 1)) for k in ("int", "float", "string"))
RANK = (("OrderIndex::add", ("add_order", 1)), ("OrderIndex::add_custom_cmp", ("add_order", 1)))
LISTS = (("TagIndex::index", "tag_index"), ("CategoryIndex::index", "cat_index"), ("VendorManager::insert", ("=", "stub_vendor_insert")))
GIVEN = {"optimize": LISTS, "optimize_products": LISTS + ADD + RANK, "optimize_lists": LISTS + ADD + RANK, "optimize_columns": LISTS + RANK, "optimize_orders": LISTS}

SPEC += """
def build(products, arena):
    pc = pcall("optimize", products)
    container = tupn(pc, 0)
    for p in container.products:
        event("observe", "product", p)
        for g in texts(p):
            event("observe", "letter", g)
    return Ok(pcall("serialize_all", pcall("indexed", container), tupn(pc, 1)))

def texts(p):
    return term("cat", low(p.description), low(p.title), low(p.vendor.name))

def low(s):
    return term("flat", term("chars", s), term("lower", x_()))

def index(input):
    pc = pcall("serde_json::from_str", input)
    if not is_(pc, "Ok"):
        return Nope()
    list = vec0()
    for e in entries(var_(pc, "Ok", 0)):
        list = vpush(list, tupn(e, 1))
    pc = pcall("build", list)
    if is_(pc, "Ok"):
        return Some(var_(pc, "Ok", 0))
    return Nope()
"""

SPEC += """
INDEX_FROM
def frozen(self, total, arena):
    n = cell(self._0)
    kids = vec0()
    for e in entries(n.items):
        kids = vpush(kids, wcall("frozen", tupn(e, 1), n.occurances, arena))
    ranked = sorted_(kids, "desc", x_().weight, "partial")
    items = mnew()
    for k in ranked:
        items = mput(items, k.item, k)
    share = term("fdiv", term("tofloat", n.occurances), term("tofloat", total))
    return new("GramNode", item=n.item, weight=share, by_occurances=ranked, items=items)

def bump(n):
    n.occurances = n.occurances + 1
    return n

def newnode(g):
    return new("MutableGramNode", _0=newcell(new("InnerMutableGramNode", item=g, occurances=1, items=mnew())))
"""

# the construction of the word index, in the orders in which its independent parts may be done
INDEX_FROM = """
def NAME(source, arena, container):
    roots = mnew()
    lists = mnew()
    for feed in source:
        open = vec0()
        g0 = 0
        g1 = 0
        g2 = 0
        g3 = 0
        g4 = 0
        for g in feed.grams:
            if g in roots:
                node = mget(roots, g)
                if cell(node._0).occurances >= 4294967295:
                    return any_()
                setcell(node._0, bump(cell(node._0)))
            else:
                node = newnode(g)
                roots = mput(roots, g, node)
BEFORE            i = 0
            while i < length(open):
                at = open[i]._0
                if g in cell(at).items:
                    child = mget(cell(at).items, g)
                    if cell(child._0).occurances >= 4294967295:
                        return any_()
                    setcell(child._0, bump(cell(child._0)))
                else:
                    old = cell(at)
                    child = newnode(g)
                    old.items = mput(old.items, g, child)
                    setcell(at, old)
                open = vset(open, i, child)
                i = i + 1
            n = length(open)
            open = term("vpushf", node, open)
            if n == 4:
                open = slice(open, 0, n)
AFTERTOTAL    done = mnew()
    for e in entries(roots):
        done = mput(done, tupn(e, 0), wcall("frozen", tupn(e, 1), total, arena))
    most = term("toint", fmul(term("tofloat", length(container.products)), 0.8))
TAIL    return new("GramIndex", roots=done, data=out, product_container=container)

"""
WINDOW = """            g0 = g1
            g1 = g2
            g2 = g3
            g3 = g4
            g4 = g
            window = arr(g0, g1, g2, g3, g4)
            if window in lists:
                lists = mput(lists, window, vpush(mget(lists, window), feed.data))
            else:
                lists = mput(lists, window, vpush(vec0(), feed.data))
"""
TOTALS = ("""    total = 0
    if length(roots) > 0:
        total = cell(val(roots, 0)._0).occurances
        i = 1
        while i < length(roots):
            if total + cell(val(roots, i)._0).occurances > 4294967295:
                return any_()
            total = total + cell(val(roots, i)._0).occurances
            i = i + 1
""", """    total = 0
    i = 0
    while i < length(roots):
        if total + cell(val(roots, i)._0).occurrences > 4294967295:
            return any_()
        total = total + cell(val(roots, i)._0).occurrences
        i = i + 1
""".replace("occurrences", "occurances"))
SORTED = """        out = mput(out, k, sorted_(mget(out, k), "asc", x_().serialization_id, "ord"))
"""
TAILS = (
    """    kept = mnew()
    for e in entries(lists):
        if length(tupn(e, 1)) < most:
            kept = mput(kept, tupn(e, 0), tupn(e, 1))
    out = kept
    i = 0
    while i < length(kept):
        k = key(kept, i)
""" + SORTED + """        i = i + 1
""",
    """    out = lists
    i = 0
    while i < length(lists):
        k = key(lists, i)
""" + SORTED + """        i = i + 1
    all = out
    out = mnew()
    for e in entries(all):
        if length(tupn(e, 1)) < most:
            out = mput(out, tupn(e, 0), tupn(e, 1))
""",
    """    out = mnew()
    for e in entries(lists):
        if length(tupn(e, 1)) < most:
            out = mput(out, tupn(e, 0), sorted_(tupn(e, 1), "asc", x_().serialization_id, "ord"))
""")
FORMS = tuple("index_from_%d%d%d" % (a, b, c) for c in (0, 1, 2) for b in (0, 1) for a in (0, 1))


def index_form(n):
    a, b, c = (int(x) for x in n[-3:])
    return (INDEX_FROM.replace("NAME", n).replace("BEFORE", WINDOW if a else "").replace("AFTER", "" if a else WINDOW)
            .replace("TOTAL", TOTALS[b]).replace("TAIL", TAILS[c]))


SPEC = SPEC.replace("INDEX_FROM\n", "\n".join(index_form(n) for n in FORMS))

# registering a vendor, as C16 decides it
VENDOR_STUB = SPEC[SPEC.index("def vendor_insert("):SPEC.index("def vendor_get_or_insert(")].replace("def vendor", "def stub_vendor")

# what indexing is given: the products one after the other, and for each the letters of its text
STUBS = """
def stub_index_from(source, node_arena, container):
    while True:
        x = next(addr(source))
        if not is_some(x):
            break
        feed = unsome(x)
        event("observe", "product", feed.data)
        letters = feed.grams
        while True:
            x = next(addr(letters))
            if not is_some(x):
                break
            event("observe", "letter", unsome(x))
    return pcall("indexed", container)
"""
PARTS = (("::optimize", ("optimize", 1)), ("~::index_from$", ("=", "stub_index_from")), ("::serialize_all", "serialize_all"), ("~GramIndex.*::search$", "search"))

V, M = "v", "m"
S, MS = (V, "self"), (M, "self")
TABLE = {
    "option_new": ("CategoryOption::new", [(V, "name"), (V, "serialization_id")]),
    "option_add": ("CategoryOption::add", [MS, (V, "product")]),
    "option_contains": ("CategoryOption::contains", [S, (V, "product")]),
    "category_new": ("Category::new", [(V, "name")]),
    "cat_index": ("CategoryIndex::index", [(V, "options_list"), (V, "container")], ("cat_index", "cat_index_early", "cat_index_zip", "cat_index_again")),
    "tag_new": ("Tag::new", [(V, "name"), (V, "products"), (V, "id")]),
    "tag_contains": ("Tag::contains", [S, (V, "product")]),
    "tag_index": ("TagIndex::index", [(V, "tags_for_product"), (V, "container")], ("tag_index", "tag_index_zip")),
    "vendor_insert": ("VendorManager::insert", [MS, (V, "name")]),
    "vendor_get_or_insert": ("VendorManager::get_or_insert", [MS, (V, "name")]),
    "vendor_get": ("VendorManager::get", [S, (V, "name")]),
    "vendor_new": ("VendorManager::new", [(V, "alloc")]),
    "add_int": ("FeatureSet::add_int", [MS, (V, "key"), (V, "value")]),
    "add_float": ("FeatureSet::add_float", [MS, (V, "key"), (V, "value")]),
    "add_string": ("FeatureSet::add_string", [MS, (V, "key"), (V, "value")]),
    "optimize": ("raw_parser::optimize", [(V, "input"), (V, "super_alloc")]),
    "optimize_products": ("raw_parser::optimize", [(V, "input"), (V, "super_alloc")]),
    "optimize_lists": ("raw_parser::optimize", [(V, "input"), (V, "super_alloc")]),
    "optimize_columns": ("raw_parser::optimize", [(V, "input"), (V, "super_alloc")]),
    "optimize_orders": ("raw_parser::optimize", [(V, "input"), (V, "super_alloc")], ORDERED),
    "build": ("index_and_serialize_with_n", [(V, "products"), (V, "arena")]),
    "build_default": ("~^index_and_serialize$", [(V, "products"), (V, "arena")], "build"),
    "index": ("~^index$", [(V, "input")]),
    "index_from": ("~::index_from$", [(V, "source"), (V, "arena"), (V, "container")], FORMS),
    "frozen": ("::immutalize", [(V, "self"), (V, "total"), (V, "arena")]),
    "column_get": ("Feature::get", [S, (V, "index")]),
    "column": ("FeatureSet::get_feature", [S, (V, "key")]),
    "feature_get": ("FeatureSet::get", [S, (V, "product"), (V, "key")]),
}


def as_many(t):
    """both views of the vendors hold every vendor once: they start empty and grow together"""
    me = mk("arg", "self")
    return subst(t, {length(fld(me, "tags")): length(fld(me, "by_id"))})


def by_weight(t):
    """weights are shares of a count, never not-a-number: both comparisons order them alike"""
    key = fld(mk("arg", "$x"), "weight")
    m = {x: mk("sorted", x.args[0], x.args[1], key, "partial") for x in walk(t) if x.op == "sorted" and x.args[2] is key and x.args[3] == "total"}
    return subst(t, m) if m else t


FALLBACK = True


# small private functions, which their callers are compared together with
HELPERS = ("option_new", "option_add", "option_contains", "category_new", "tag_new", "tag_contains", "vendor_new", "vendor_insert", "vendor_get_or_insert", "add_int", "column_get", "column")


def conform(R, rule, *names):
    for n in names:
        if n in HELPERS and R.folded(rule, TABLE[n][0]):
            continue
        o, v = len(R.oblig), len(R.viol)
        if FALLBACK and n in GIVEN and n != "optimize":
            # the part by itself; when its helpers are not the known ones, the whole
            try:
                ok = conform1(R, rule, n)
            except Undecided:
                ok = False
            if not ok:
                failed = R.oblig[o:], R.viol[v:]
                del R.oblig[o:], R.viol[v:]
                if not conform1(R, rule, "optimize") and failed[0]:
                    R.oblig[o:], R.viol[v:] = failed
        else:
            conform1(R, rule, n)


def conform1(R, rule, n):
    e = TABLE[n]
    op, kw = {}, {}
    if n in ("vendor_insert", "vendor_get_or_insert"):
        kw["norm"] = as_many
    if n in GIVEN:
        op = {f: x for y, x in GIVEN[n] for f in R.fids(y)}
        kw["stubs"] = VENDOR_STUB
    if n in ("index_from", "frozen"):
        op = {f: "frozen" for f in R.fids("::immutalize")}
    if n == "frozen":
        kw["finals"] = [(("W",), ("W",))]
        kw["norm"] = by_weight
        kw["ties"] = True
    if n in ("build", "build_default", "index"):
        op = {f: x for y, x in PARTS for f in R.fids(y)}
        if n == "index":
            op = {f: ("build", 1) for f in R.fids("~^index_and_serialize$")}
        kw["stubs"] = STUBS
    if op:
        kw["opname"] = lambda fid, path: op.get(fid)
    return R.conform(rule, R.fid(e[0]), SPEC, e[2] if len(e) > 2 else n, e[1], **kw)
