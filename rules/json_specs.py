"""Reference of the catalogue reader: which member of a JSON object becomes which part of a product."""
from rulelib import *
from terms import *

# what each structure of a catalogue is called in Rust, and the members of its object
SHAPES = {
    "RawProduct": {"description": "description", "tags": "tags", "title": "title", "vendor": "vendor", "id": "id", "options": "options", "price": "price", "media": "media"},
    "RawProductOption": {"name": "name", "values": "values"},
    "MediaItem": {"url": "url"},
    "ProductPrice": {"min": "min", "max": "max"},
    "CurrencyAmount": {"amount": "amount", "currency_code": "currencyCode"},
}
KEY, VALUE, MISSING, TWICE = "MapAccess::next_key", "MapAccess::next_value", "de::missing_field", "Error::duplicate_field"


def declared(R, shape):
    """the fields in the order of their declaration, which numbers them"""
    for t in R.P.types:
        if t["k"] == "adt" and t["local"] and t["name"].endswith("raw_parser::" + shape):
            return [f[0] for f in t["variants"][0]["fields"]]
    raise Missing("structure %s" % shape)


def names_spec(shape, fields):
    out = ["def names(self, text):"]
    for i, f in enumerate(fields):
        out += ["    if text == str_(\"%s\"):" % SHAPES[shape].get(f, f), "        return Ok(term(\"agg\", \"__Field\", \"__field%d\"))" % i]
    return "\n".join(out + ["    return Ok(term(\"agg\", \"__Field\", \"__ignore\"))", ""])


def read_spec(shape, fields):
    out = ["def read(self, map):"]
    for i in range(len(fields)):
        out.append("    f%d = Nope()" % i)
    out += ["    while True:", "        r = lcall(\"%s\", addr(map))" % KEY, "        if is_(r, \"Err\"):", "            return Err(var_(r, \"Err\", 0))",
            "        k = var_(r, \"Ok\", 0)", "        if not is_some(k):", "            break", "        k = unsome(k)"]
    for i, f in enumerate(fields):
        out += ["        %s is_(k, \"__field%d\"):" % ("elif" if i else "if", i),
                "            if is_some(f%d):" % i, "                return Err(pcall(\"%s\", str_(\"%s\")))" % (TWICE, SHAPES[shape].get(f, f)),
                "            v = lcall(\"%s\", addr(map))" % VALUE, "            if is_(v, \"Err\"):", "                return Err(var_(v, \"Err\", 0))",
                "            f%d = Some(var_(v, \"Ok\", 0))" % i]
    out += ["        else:", "            v = lcall(\"%s\", addr(map))" % VALUE, "            if is_(v, \"Err\"):", "                return Err(var_(v, \"Err\", 0))"]
    for i, f in enumerate(fields):
        out += ["    if not is_some(f%d):" % i, "        return Err(term(\"call\", \"%s\", str_(\"%s\")))" % (MISSING, SHAPES[shape].get(f, f)),
                "    v%d = unsome(f%d)" % (i, i)]
    return "\n".join(out + ["    return Ok(new(\"%s\", %s))" % (shape, ", ".join("%s=v%d" % (f, i) for i, f in enumerate(fields))), ""])


def visitor(R, shape, what, field):
    pat = "~Deserialize<'de> for data::raw_parser::%s(<'a>)?>::deserialize::%s(<.*>)? as serde::de::Visitor<'de>>::%s$" % (shape, "__FieldVisitor" if field else "__Visitor", what)
    return R.fid(pat)


def conform(R, rule, *shapes):
    for s in shapes:
        fields = declared(R, s)
        R.expect(all(f in SHAPES[s] for f in fields) and len(fields) == len(SHAPES[s]), rule, s + " fields", "the fields of %s are %s" % (s, fields))
        R.conform(rule, visitor(R, s, "visit_str", True), names_spec(s, fields), "names", [("v", "self"), ("v", "text")], construct=s + " member names")
        R.conform(rule, visitor(R, s, "visit_map", False), read_spec(s, fields), "read", [("v", "self"), ("v", "map")], coarse=True, construct=s + " from an object")
