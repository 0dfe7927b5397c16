"""Conformance to references of loading an index and of the getters of categories, tags and orders, and a
lock analysis over the dataflow graphs of every function that touches the shared index: locks are taken in
one global order, none is taken twice, and nothing is released before everything is replaced."""
import lib_specs

FLOOR = 10


def loading(R):
    lib_specs.conform(R, "load", "initialize")


def getters(R):
    lib_specs.conform(R, "getters", "get_categories", "get_tags", "get_orders")


def short(t):
    import re
    m = re.search(r"::(\w+) as ", str(t.args[0])) if t.op == "static" else None
    return m.group(1) if m else t.show() if hasattr(t, "show") else str(t)


def locks(R):
    """held locks along every path: lock order edges, double locks, release before the last write"""
    shared = [f for f in users(R) if R.P.fns.get(f)]
    edges = {}
    for f in sorted(shared):
        g = R.analyse(f, opname=lib_specs.OPS, stubs=lib_specs.STUBS)
        seen, todo, bad = set(), [(g.root, (), False)], False
        while todo:
            n, held, released = todo.pop()
            if (n.id, held, released) in seen:
                continue
            seen.add((n.id, held, released))
            for e in n.out:
                h, r = held, released
                for ev in e.ev:
                    if ev.kind == "lock":
                        l = short(ev.args[0])
                        if l in h:
                            bad = True
                            R.bad("double-lock", R.path(f), "%s is locked while already held" % l, ev.at)
                        for x in h:
                            edges.setdefault((x, l), []).append((R.path(f), ev.at))
                        h = h + (l,)
                    elif ev.kind == "unlock":
                        l = short(ev.args[0])
                        h = tuple(x for x in h if x != l)
                        r = True
                    elif ev.kind == "write" and getattr(ev.args[0], "op", "") == "static":
                        l = short(ev.args[0])
                        if l not in h:
                            bad = True
                            R.bad("unlocked-write", R.path(f), "%s is written without its lock" % l, ev.at)
                        elif r:
                            bad = True
                            R.bad("partial-publication", R.path(f), "%s is replaced after another lock was released" % l, ev.at)
                todo.append((e.dst, h, r))
        if not bad:
            R.ok("locks", R.path(f), "%d states" % len(seen))
    for (a, b), at in sorted(edges.items()):
        R.expect((b, a) not in edges, "lock-order", "%s then %s" % (a, b), "taken in %s, and the other way round in %s" % (at[0][0], edges.get((b, a), [("", "")])[0][0]), at[0][1])


def users(R):
    """functions (closures count for their owner) that use one of the shared statics"""
    import json
    out = set()
    for f, v in R.P.fns.items():
        if v and v["local"] and "lazy_static" not in f and "std::ops::Deref>" not in f:
            if "SHARED_INDEX" in json.dumps(v) or "SHARED_CLASSIC_INDEX" in json.dumps(v):
                out.add(f.split("::{closure")[0])
    return out


STEPS = [loading, getters, locks]
