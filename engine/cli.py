"""check <property>: decides one property on /repo's current tree."""
import importlib.util
import json
import os
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "rules"))


def load_rule(prop):
    p = os.path.join(VERIF, "rules", prop + ".py")
    spec = importlib.util.spec_from_file_location("rule_" + prop, p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


LIMIT = int(os.environ.get("VERIF_LIMIT", "720"))
MEMORY = 6 << 30


def known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["known"] if os.path.exists(p) else []


def run_rule(prop, mirpath, tier, limit=LIMIT):
    from mirload import Program
    from rulelib import Rule, Missing
    from interp import Undecided, OutOfTime

    def late(*a):
        raise OutOfTime()
    signal.signal(signal.SIGALRM, late)
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, resource.getrlimit(resource.RLIMIT_AS)[1]))
    signal.alarm(limit)
    P = Program(mirpath)
    R = Rule(P, prop, tier)
    m = load_rule(prop)
    R.meta = m
    steps = m.STEPS if hasattr(m, "STEPS") else [m.run]
    for f in steps:
        try:
            f(R)
        except Missing as x:
            R.bad("anchor", f.__name__, "an anchor of this rule is missing: %s" % x)
        except Undecided as x:
            R.bad("undecided", f.__name__, "the analysis cannot decide this code: %s" % x)
        except RecursionError:
            R.bad("undecided", f.__name__, "recursion limit")
        except OutOfTime:
            R.bad("undecided", f.__name__, "not decided within %d s" % limit)
            break
        except Exception as x:
            R.bad("undecided", f.__name__, "the analysis failed: %s: %s" % (type(x).__name__, x))
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
    signal.alarm(0)
    floor = getattr(m, "FLOOR", 1)
    if len(R.oblig) < floor:
        R.bad("floor", prop, "only %d obligations were generated, %d expected" % (len(R.oblig), floor))
    return R


def deeper(R, prop, mirpath, t0, unit):
    """the same obligations with relations guessed in other orders, and how the build without the builder differs"""
    import bootstrap
    import variants
    out = {"other_guessing_orders": [], "build_without_indexing": None}
    for seed in (11, 23, 47):
        if time.time() - t0 > 600:
            break
        os.environ["VERIF_SCRAMBLE"] = str(seed)
        S = run_rule(prop, mirpath, "thorough", max(60, int(840 - (time.time() - t0))))
        out["other_guessing_orders"].append("order %d: %d of %d obligations discharged" % (seed, sum(1 for o in S.oblig if o["ok"]), len(S.oblig)))
    os.environ.pop("VERIF_SCRAMBLE", None)
    if time.time() - t0 < 700:
        other = bootstrap.ensure([], unit)
        try:
            bad, n = variants.differing(mirpath, other)
        finally:
            os.remove(other)
        out["build_without_indexing"] = "%d functions are the same there; different: %s" % (n, ", ".join(bad) or "none")
    return out


def main(argv):
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import bootstrap
    unit = getattr(load_rule(prop), "CRATE", "lib")
    mirpath = os.environ.get("VERIF_MIR") if unit == "lib" else None
    own = mirpath is None
    if own:
        mirpath = bootstrap.ensure(unit=unit)
    try:
        R = run_rule(prop, mirpath, tier)
        more = deeper(R, prop, mirpath, t0, unit) if tier == "thorough" and not R.viol else {}
    finally:
        if own:
            os.remove(mirpath)
    kn = [k for k in known() if k["property"] == prop]
    new = []
    for v in R.viol:
        hit = [k for k in kn if k["key"] == v["key"]]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, hit[0]["what"]))
            v["known"] = True
        else:
            new.append(v)
    for k in kn:
        if not any(v["key"] == k["key"] for v in R.viol):
            print("note: known finding %s no longer occurs" % k["key"])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    m = R.meta
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": m.__doc__.strip(),
            "obligations": len(R.oblig),
            "discharged": sum(1 for o in R.oblig if o["ok"]),
            "functions_analysed": sorted(R.functions),
            "function_count": len(R.functions),
            "graph_nodes": R.nodes, "graph_edges": R.edges, "product_pairs": R.pairs,
            **more,
            "rules": sorted({o["rule"] for o in R.oblig}),
            "samples": [("%s: %s -> %s (%s)" % (o["rule"], o["construct"], "held" if o["ok"] else "VIOLATED", o["detail"]))[:400] for o in R.oblig[:40]],
        },
        "assumptions": getattr(m, "ASSUMPTIONS", []) + [
            "library functions behave as the models in engine/models.py say",
            "unsigned counters do not wrap (capacity overflow is not modelled)",
        ],
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
    }
    evp = os.path.join(VERIF, "evidence", prop + ".json")
    json.dump(ev, open(evp, "w"), indent=1)
    print("%s: %d obligations, %d discharged; %d functions, %d graph nodes, %d edges, %d product pairs; %.1fs" % (
        prop, len(R.oblig), ev["coverage"]["discharged"], len(R.functions), R.nodes, R.edges, R.pairs, time.time() - t0))
    for k, v in more.items():
        print("  %s: %s" % (k, v))
    if new:
        rp = os.path.join(VERIF, "evidence", prop + ".violation.txt")
        with open(rp, "w") as f:
            for v in new:
                f.write("%s\n  at %s\n  %s\n" % (v["key"], v["at"], v["detail"]))
        for v in new:
            print("  %s\n    at %s\n    %s" % (v["key"], v["at"], v["detail"][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv))
