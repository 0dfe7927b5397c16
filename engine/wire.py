"""Names for the serializer and deserializer instances, by the type they transfer."""
import re


def wiretype(t):
    t = t.replace("&", "").replace("mut ", "").strip()
    t = re.sub(r"\b(?:\w+::)+", "", t)
    t = re.sub(r"\bString\b", "str", t)
    t = re.sub(r"\b(u32|u64|usize)\b", "uint", t)
    t = t.replace(" ", "").replace("<>", "")
    return t


def selftype(fid):
    """the type a (de)serializer instance is for"""
    s = re.sub(r"indexer_lib::|'[a-z_]+,? ?", "", fid)
    for p in (r"<impl (?:[\w:]*::)?(?:Arena)?(?:S|Des)erializable(?:Collection)?(?:<.*>)? for (.*)>::(?:de)?serialize",
              r"^<(.*) as (?:[\w:]*::)?(?:Arena)?(?:S|Des)erializable(?:Collection)?(?:<.*>)?>::(?:de)?serialize",
              r"<impl ([^>]*<.*>)>::deserialize", r"^(.*?)(?:::<[^:]*>)?::deserialize(?:_\w+)?(?:::<.*>)?$"):
        m = re.search(p, s)
        if m:
            return wiretype(m.group(1))
    return None


PRIM = ("u8", "uint", "bool", "char", "f32", "str")


def is_collection(t):
    return t.startswith(("Vec<", "AHashMap<", "[", "HashMap<"))


def collect(R):
    """(writers, readers): canonical type -> instances"""
    W, D = {}, {}
    for f, v in R.P.fns.items():
        if not v or not v["local"] or "{closure" in v["path"] or "serde::" in v["path"]:
            continue
        p = v["path"]
        if p.endswith("serialize_to_sequential_array"):
            W.setdefault("ids", []).append(f)
        elif p.endswith("deserialize_from_sequential_ids"):
            D.setdefault("ids", []).append(f)
        elif "sequential_array" in p or "all_indexes" in p:
            continue
        elif p.endswith("::serialize") and re.search(r"Serializable", p):
            W.setdefault(selftype(f), []).append(f)
        elif re.search(r"::deserialize(_arena|_many)?$", p):
            D.setdefault(selftype(f), []).append(f)
    return W, D


def namer(R, inline=()):
    """fid -> "w:<type>" / "r:<type>" for values that travel as a unit"""
    W, D = collect(R)
    named = {t for t in W if t in D and not is_collection(t)} | set(PRIM) | {"ids"}
    d = {}
    for t in named:
        if t.split("<")[0] in inline:
            continue
        n = t.split("<")[0]
        for f in W.get(t, ()):
            d[f] = ("w:" + n, 1)
        for f in D.get(t, ()):
            d[f] = ("r:" + n, 1 if n in ("VendorManager", "GramNode") else 1 if n == "ProductContainer" else 9)
    return d
