"""Loads the exported MIR program and pretty-prints it."""
import json
import re

from canon import canonical


def norm_name(path):
    """std::vec::Vec::<T, A>::push -> Vec::push ; drop generics and impl segments"""
    p = path
    # remove <...> groups (nested), keeping simple names outside
    out = []
    depth = 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == "<" and not p.startswith("<=", i):
            depth += 1
        elif c == ">" and (i == 0 or p[i - 1] != "-"):
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    segs = [s for s in "".join(out).split("::") if s and s.strip()]
    segs = segs[-2:]
    r = "::".join(segs)
    return r.replace("AHashMap", "HashMap").replace("AHashSet", "HashSet")


class Fn:
    pass


class Program:
    def __init__(self, path):
        d = canonical(json.load(open(path)))
        self.crate = d["crate"]
        self.types = d["types"]
        self.roots = d["roots"]
        self.generic = d["generic"]
        self.unsafe = d["unsafe"]
        self.statics = d["statics"]
        self.fns = d["fns"]
        self.by_path = {}
        for fid, f in self.fns.items():
            if f is None:
                continue
            self.by_path.setdefault(f["path"], []).append(fid)
            self.split_boxes(f)
        # types of the crate that run code when they are dropped
        self.droppers = {m.group(1) for fid in self.fns for m in [re.match(r"<(\w[\w:]*?)(?:<.*>)? as std::ops::Drop>::drop$", fid)] if m and self.fns[fid] and self.fns[fid]["local"]}
        self.dropcache = {}

    def runs_drop(self, i):
        """the name of a type of the crate with a Drop of its own that a value of type i owns"""
        if not self.droppers:
            return None
        seen, todo = set(), [i]
        if i in self.dropcache:
            return self.dropcache[i]
        r = None
        while todo and r is None:
            j = todo.pop()
            if j in seen or j is None or j < 0:
                continue
            seen.add(j)
            t = self.types[j]
            if t["k"] == "adt":
                if t["name"] in self.droppers:
                    r = t["name"]
                todo += [a for a in t["args"] if isinstance(a, int)]
                if t["local"]:
                    todo += [f[1] for v in t["variants"] for f in v["fields"]]
            elif t["k"] in ("array", "slice"):
                todo.append(t["elem"])
            elif t["k"] == "tuple":
                todo += t["args"]
        self.dropcache[i] = r
        return r

    def split_boxes(self, f):
        """turning an iterator into a boxed dyn Iterator becomes a call, so that it can be evaluated there"""
        bi = 0
        while bi < len(f["blocks"]):
            b = f["blocks"][bi]
            for i, s in enumerate(b["s"]):
                if s[0] == "=" and s[2][0] == "cast" and "Unsize" in s[2][1] and "dyn std::iter::Iterator" in self.types[s[2][3]]["show"]:
                    f["blocks"].append({"s": b["s"][i + 1:], "t": b["t"], "l": b.get("l")})
                    callee = ["def", {"path": "model::box_iter", "trait": None, "res": None, "fn": None, "shim": False, "virtual": False, "unsafe": False, "args": []}]
                    b["s"] = b["s"][:i]
                    b["t"] = ["call", callee, [s[2][2]], s[1], len(f["blocks"]) - 1, [None], s[3] if len(s) > 3 else 0]
                    break
            bi += 1

    def ty(self, i):
        return self.types[i]

    def strip(self, i):
        """through references, pointers and boxes"""
        while True:
            t = self.types[i]
            if t["k"] in ("ref", "ptr"):
                i = t["elem"]
            elif t["k"] == "adt" and t.get("box"):
                i = t["args"][0]
            else:
                return i

    def show_ty(self, i):
        return self.types[i]["show"]

    # ---- pretty printing
    def pp_place(self, p):
        s = "_%d" % p[0]
        for e in p[1]:
            if e == "*":
                s = "(*%s)" % s
            elif e[0] == "f":
                s += ".%d" % e[1]
            elif e[0] == "i":
                s += "[_%d]" % e[1]
            elif e[0] == "v":
                s += "@%s" % e[1]
            else:
                s += str(e)
        return s

    def pp_op(self, o):
        if o[0] in ("cp", "mv"):
            return ("move " if o[0] == "mv" else "") + self.pp_place(o[1])
        if o[0] == "k":
            c = o[1]
            return "const %s %s:%s" % (c["c"], json.dumps(c.get("v", c.get("to"))), self.types[c["t"]]["show"] if "t" in c else "")
        return str(o)

    def pp_rv(self, r):
        k = r[0]
        if k == "use":
            return self.pp_op(r[1])
        if k == "ref":
            return "&%s %s" % (r[1], self.pp_place(r[2]))
        if k == "agg":
            return "agg %s" % (r[1:4],) + "(" + ", ".join(self.pp_op(o) for o in r[4]) + ")"
        return json.dumps(r)

    def pp(self, fid):
        f = self.fns[fid]
        print("fn", fid, f["path"], "nargs", f["nargs"], "kind", f["kind"], f["file"], f["line"])
        for i, t in enumerate(f["locals"]):
            print("   let _%d: %s" % (i, self.types[t]["show"][:150]))
        print("   vars", f["vars"])
        for bi, b in enumerate(f["blocks"]):
            print("  bb%d:" % bi)
            for s in b["s"]:
                if s[0] == "=":
                    print("     %s = %s" % (self.pp_place(s[1]), self.pp_rv(s[2])))
                else:
                    print("     ", s)
            t = b["t"]
            if t[0] == "call":
                c = t[1]
                if c[0] == "def":
                    cs = "%s res=%s fn=%s shim=%s virt=%s" % (c[1]["path"], c[1].get("res"), c[1].get("fn"), c[1].get("shim"), c[1].get("virtual"))
                else:
                    cs = str(c)
                print("     %s = CALL %s(%s) -> %s" % (self.pp_place(t[3]), cs, ", ".join(self.pp_op(o) for o in t[2]), t[4]))
            elif t[0] == "switch":
                print("     switch %s %s else %s" % (self.pp_op(t[1]), t[3], t[4]))
            else:
                print("     ", t)


if __name__ == "__main__":
    import sys
    P = Program(sys.argv[1])
    for fid, f in P.fns.items():
        if f and any(a in f["path"] or a in fid for a in sys.argv[2:]):
            P.pp(fid)
