"""References for the comparisons: when two products, vendors, lists or indexes are equal, and how products are
ordered."""

SPEC = '''
def agree(a, b):
    # a stored description is a cut copy of the original: it agrees with everything it begins
    n = length(a)
    m = length(b)
    if n == 0 and m > 0:
        return False
    if n > 0 and m == 0:
        return False
    if n > m:
        return term("startswith", a, b)
    if n < m:
        return term("startswith", b, a)
    return a == b

def agree_either(a, b):
    n = length(a)
    m = length(b)
    if n == 0 or m == 0:
        return n == m
    if term("startswith", a, b):
        return True
    return term("startswith", b, a)
'''


def conj(name, *parts):
    return "def %s(self, other):\n" % name + "".join("    if not (%s):\n        return False\n" % p for p in parts) + "    return True\n"


def same(*fields, num=()):
    return ["self.%s == other.%s" % (f, f) for f in fields] + ["ieq(self.%s, other.%s)" % (f, f) for f in num]


VENDOR = ["self.vendor.name == other.vendor.name", "ieq(self.vendor.id, other.vendor.id)"]
for way in ("agree", "agree_either"):
    SPEC += conj("product_" + way, way + "(self.description, other.description)", *same("title", "id", num=("serialization_id",)), *VENDOR) + "\n"
SPEC += conj("vendor", *same("name", num=("id",)))
SPEC += conj("vendors", *same("tags", "by_id"))
SPEC += conj("tag", *same("name", "products", "products_by_serialization_id", num=("id",)))
SPEC += conj("category", *same("name", "exclusive", "options"))
SPEC += conj("option", *same("name", "content", "products_by_serialization_id", num=("serialization_id",)))
SPEC += conj("tags", "tupn(self, 0) == tupn(other, 0)")
SPEC += conj("orders", *same("orders"))
SPEC += conj("container", *same("products", "vendors"), "tupn(self.extra_features, 0) == tupn(other.extra_features, 0)")
SPEC += conj("lists", "tupn(self.categories, 0) == tupn(other.categories, 0)", "tupn(self.tags, 0) == tupn(other.tags, 0)", "self.order.orders == other.order.orders")
for way in ("", "_kinds"):
    SPEC += "def feature%s(self, other):\n" % way
    if way:
        SPEC += "    if not ieq(term('discr', self), term('discr', other)):\n        return False\n"
    for k in ("String", "Float", "Integer"):
        SPEC += "    if is_(self, %r) and is_(other, %r):\n        return var_(self, %r, 0) == var_(other, %r, 0)\n" % (k, k, k, k)
    SPEC += "    return False\n"
SPEC += """
def number(self, other):
    return term("icmp", self.serialization_id, other.serialization_id)

def number_by(self, other):
    if self.serialization_id < other.serialization_id:
        return new("Ordering::Less")
    if ieq(self.serialization_id, other.serialization_id):
        return new("Ordering::Equal")
    return new("Ordering::Greater")

def number_some_by(self, other):
    return Some(number_by(self, other))

def number_some(self, other):
    return Some(term("icmp", self.serialization_id, other.serialization_id))

def weight(self, other):
    if flt(self.weight, other.weight):
        return new("Ordering::Less")
    if flt(other.weight, self.weight):
        return new("Ordering::Greater")
    return new("Ordering::Equal")
"""

EQ = r"~^<(\w+::)*%s(<.*?>)? as (\w+::)*PartialEq(<.*>)?>::eq$"
TABLE = {n: (EQ % t, s) for n, t, s in (
    ("product", "Product", ("product_agree", "product_agree_either")), ("vendor", "Vendor", "vendor"), ("vendors", "VendorManager", "vendors"),
    ("tag", "Tag", "tag"), ("tags", "TagIndex", "tags"), ("category", "Category", "category"), ("categories", "CategoryIndex", "tags"),
    ("option", "CategoryOption", "option"), ("orders", "OrderIndex", "orders"), ("lists", "ClassicIndexes", "lists"),
    ("container", "ProductContainer", "container"), ("column", "Feature", ("feature", "feature_kinds")), ("columns", "FeatureSet", "tags"))}
TABLE["number"] = (r"~^<(\w+::)*Product(<.*?>)? as (\w+::)*Ord>::cmp$", ("number", "number_by"))
TABLE["number_some"] = (r"~^<(\w+::)*Product(<.*?>)? as (\w+::)*PartialOrd(<.*>)?>::partial_cmp$", ("number_some", "number_some_by"))
TABLE["weight"] = (r"~^<(\w+::)*GramNode<.*?> as (\w+::)*Ord>::cmp$", "weight")


def conform(R, rule, *names):
    for n in names:
        pat, spec = TABLE[n]
        if n not in ("product", "number", "weight") and R.folded(rule, pat):
            continue
        R.conform(rule, R.fid(pat), SPEC, spec, [("v", "self"), ("v", "other")])
