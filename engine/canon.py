"""Names of private functions, types and fields as the references know them.

A private function, type or field that was only renamed is analysed under the name it had: one that is gone is
matched with the one that is new in the same place with the same signature (or the same fields). Names JavaScript
sees are never matched. known.json is written by `python3 engine/canon.py MIR.json` from the tree the references
were written for."""
import json
import os
import re
import sys

KNOWN = os.path.join(os.path.dirname(os.path.abspath(__file__)), "known.json")


def ordinary(path):
    return "{" not in path and "__" not in path and "::_::" not in path


def parent(path):
    p = re.sub(r"::<[^<>]*>$", "", path)
    i = p.rfind("::")
    return p[:i] if i >= 0 else "", p[i + 2:] if i >= 0 else p


def anon(s):
    return re.sub(r"'[a-z_]\w*", "'_", s)


def survey(d):
    types, fns, adts = d["types"], {}, {}
    exported = set()
    for f in d["fns"].values():
        if f and f["local"] and "__wasm_bindgen_generated" in f["path"]:
            head, name = re.match(r"(?:(.*?)::)?_::.*__wasm_bindgen_generated_(\w+)", f["path"]).groups()
            exported |= {head, name, "%s::%s" % (head, name)}
    for fid, f in d["fns"].items():
        if f and f["local"] and ordinary(f["path"]) and not f["path"].startswith("<"):
            sig = [anon(types[t]["show"]) for t in (x if isinstance(x, int) else x[0] for x in f["locals"][:f["nargs"] + 1])]
            e = fns.setdefault(f["path"], {"sigs": [], "exported": f["path"] in exported})
            e["sigs"].append(sig)
    for t in types:
        if t["k"] == "adt" and t["local"]:
            adts[t["name"]] = [[v["name"], [[x[0], anon(types[x[1]]["show"]) if x[1] >= 0 else ""] for x in v["fields"]]] for v in t["variants"]]
    return {"fns": fns, "adts": adts}


def walk(x, f):
    if isinstance(x, str):
        return f(x)
    if isinstance(x, list):
        return [walk(y, f) for y in x]
    if isinstance(x, dict):
        return {f(k): walk(y, f) for k, y in x.items()}
    return x


def renamed_adts(d, known, cur):
    gone = [a for a in known["adts"] if a not in cur["adts"]]
    new = [a for a in cur["adts"] if a not in known["adts"]]
    shape = lambda v: [[f[0] for f in x[1]] for x in v] if len(v) == 1 else [[x[0]] + [f[0] for f in x[1]] for x in v]
    out = {}
    for g in gone:
        c = [n for n in new if shape(cur["adts"][n]) == shape(known["adts"][g]) and (len(known["adts"][g][0][1]) > 1 or parent(n)[0] == parent(g)[0])]
        if len(c) == 1 and c[0] not in out.values():
            out[g] = c[0]
    if not out:
        return d
    bare = lambda p: p[len(d["crate"]) + 2:] if p.startswith(d["crate"] + "::") else p
    pairs = {bare(n): bare(g) for g, n in out.items()}
    last = {parent(n)[1]: parent(g)[1] for n, g in pairs.items()}
    full = re.compile("|".join(r"\b%s(?!\w)" % re.escape(n) for n in pairs))
    # the struct's own variant carries its name
    def f(s):
        s = full.sub(lambda m: pairs[m.group(0)], s)
        return last.get(s, s)
    return walk(d, f)


def renamed_fields(d, known):
    for t in d["types"]:
        if t["k"] != "adt" or not t["local"] or t["name"] not in known["adts"]:
            continue
        kv = dict((v[0], v[1]) for v in known["adts"][t["name"]])
        for v in t["variants"]:
            k = kv.get(v["name"])
            if k is None or len(k) != len(v["fields"]):
                continue
            have, want = [f[0] for f in v["fields"]], [f[0] for f in k]
            gone = [x for x in k if x[0] not in have]
            new = [x for x in v["fields"] if x[0] not in want]
            ty = lambda x: anon(d["types"][x[1]]["show"]) if x[1] >= 0 else ""
            for g in gone:
                c = [n for n in new if ty(n) == g[1]]
                same = [x for x in gone if x[1] == g[1]]
                if len(c) != len(same):
                    continue
                c[same.index(g)][0] = g[0] if g[0] not in have else c[same.index(g)][0]
    return d


def renamed_fns(d, known, cur):
    gone = [p for p, e in known["fns"].items() if p not in cur["fns"] and not e["exported"]]
    new = [p for p, e in cur["fns"].items() if p not in known["fns"] and not e["exported"]]
    out = {}
    for g in gone:
        sigs = sorted(known["fns"][g]["sigs"])
        c = [n for n in new if sorted(cur["fns"][n]["sigs"]) == sigs and n not in out.values()]
        near = [n for n in c if parent(n)[0] == parent(g)[0]]
        if len(near) == 1:
            out[g] = near[0]
        elif not near and len(c) == 1:
            out[g] = c[0]
    if not out:
        return d
    exact = {}
    for g, n in out.items():
        for fid, f in d["fns"].items():
            if f and f["path"] == n:
                i = fid.rfind(parent(n)[1])
                if parent(g)[0] == parent(n)[0]:
                    exact[fid] = fid[:i] + parent(g)[1] + fid[i + len(parent(n)[1]):]
                else:
                    exact[fid] = d["crate"] + "::" + g
        exact[n] = g
        exact[d["crate"] + "::" + n] = d["crate"] + "::" + g
    def f(s):
        if s in exact:
            return exact[s]
        i = s.find("::{closure")
        if i >= 0 and s[:i] in exact:
            return exact[s[:i]] + s[i:]
        return s
    return walk(d, f)


# private helpers that are decided as part of their callers when they are not there as they were
HELPERS = re.compile(r"(CategoryOption::<'a>::(new|add|contains)|Category::<'a>::new|tag::Tag::<'a>::(new|contains|get_id)|VendorManager::<'a>::(new|insert|get_or_insert)|FeatureSet::add_int"
                     r"|CategoryHandler::new|TagHandler::new|JSTag::(new|get_id)|ExportCategoryOption::keys|ProductProducer::new|ResultRanker::<'a, H, Data>::(new|add|export_data_by_confidence)"
                     r"|tag_suggestion::overlap)$")


def changed_helpers(d, known, cur):
    """a helper that takes or returns something else is another function"""
    out = [p for p, e in known["fns"].items() if HELPERS.search(p) and p in cur["fns"] and sorted(cur["fns"][p]["sigs"]) != sorted(e["sigs"])]
    if not out:
        return d
    exact = {}
    for fid, f in d["fns"].items():
        if f and f["path"] in out:
            i = fid.rfind(parent(f["path"])[1])
            n = len(parent(f["path"])[1])
            exact[fid] = fid[:i + n] + "_changed" + fid[i + n:]
    for p in out:
        exact[p] = p + "_changed"
        exact[d["crate"] + "::" + p] = d["crate"] + "::" + p + "_changed"

    def f(s):
        if s in exact:
            return exact[s]
        i = s.find("::{closure")
        if i >= 0 and s[:i] in exact:
            return exact[s[:i]] + s[i:]
        return s
    return walk(d, f)


def canonical(d):
    if d["crate"] != "indexer_lib":
        return d
    known = json.load(open(KNOWN))
    d = renamed_adts(d, known, survey(d))
    d = renamed_fields(d, known)
    d = renamed_fns(d, known, survey(d))
    return changed_helpers(d, known, survey(d))


if __name__ == "__main__":
    json.dump(survey(json.load(open(sys.argv[1]))), open(KNOWN, "w"), indent=0, sort_keys=True)
