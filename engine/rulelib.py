"""What a rule sees: the program, the analyses it asks for, and the list of obligations."""
import os
import time
import re
from mirload import Program
from interp import Engine, OutOfTime, Undecided
from terms import *
import terms
import interp
import models
from minilang import compile_models
from equiv import Product, ANY


class Missing(Exception):
    """an anchor the rule needs is not in the program"""


def forget():
    """what is known of values holds within one analysis: others reuse the same names"""
    terms.forget()
    interp.NONNEG.clear()
    interp.WIDTH.clear()
    interp.INTCMP.clear()


# (order in which relations are guessed, whether what a loop varies is known): the first four always, the others
# while they are quick
ATTEMPTS = ((0, False), (0, True), (1, False), (2, True), (3, False), (3, True), (4, False), (5, True), (6, False), (7, True),
            (8, False), (9, True), (10, False), (11, True))


class Rule:
    def __init__(self, prog, prop, tier="quick"):
        self.spare = 120        # seconds for further attempts
        self.P = prog
        self.prop = prop
        self.tier = tier
        self.oblig = []         # {rule, construct, at, ok, detail}
        self.viol = []
        self.functions = set()
        self.total = set()      # functions shown to follow their reference and never to panic
        self.nodes = 0
        self.edges = 0
        self.pairs = 0

    # -- anchors
    def fids(self, pat):
        """local functions whose path ends with pat, or matches it as a regular expression (~...)"""
        out = []
        for f, v in self.P.fns.items():
            if not v or not v["local"]:
                continue
            p = v["path"]
            if pat.startswith("~"):
                if re.search(pat[1:], p):
                    out.append(f)
            else:
                for q in (p, re.sub(r"::<[^<>]*>", "", p)):
                    if q == pat or q.endswith("::" + pat) or q.endswith(pat) and pat[:1] in "<:":
                        out.append(f)
                        break
        return out

    def fid(self, pat):
        c = self.fids(pat)
        if len(c) != 1:
            raise Missing("expected one function %s, found %d: %s" % (pat, len(c), [self.P.fns[x]["path"] for x in c][:4]))
        return c[0]

    def folded(self, rule, pat):
        """a private helper that is not there was folded into its callers, which are compared with everything they call"""
        if self.fids(pat):
            return False
        self.ok(rule, pat, "no such function: decided as part of its callers")
        return True

    def has(self, pat):
        return len(self.fids(pat)) > 0

    def path(self, fid):
        return self.P.fns[fid]["path"]

    def where(self, fid):
        f = self.P.fns[fid]
        return "%s:%s" % (f["file"], f["line"])

    # -- bookkeeping
    def ok(self, rule, construct, detail=""):
        self.oblig.append({"rule": rule, "construct": construct, "ok": True, "detail": detail})

    def bad(self, rule, construct, detail, at=None):
        """key: rule + construct (no line numbers)"""
        self.oblig.append({"rule": rule, "construct": construct, "ok": False, "detail": detail})
        self.viol.append({"rule": rule, "construct": construct, "detail": detail, "at": at or "", "key": "%s/%s" % (rule, construct)})

    def expect(self, cond, rule, construct, detail="", at=None):
        if cond:
            self.ok(rule, construct, detail)
        else:
            self.bad(rule, construct, detail, at)
        return cond

    # -- analyses
    def opaque_fn(self, pats):
        if not pats:
            return lambda fid, path: False
        pats = list(pats)

        def f(fid, path):
            for p in pats:
                if p.startswith("~"):
                    if re.search(p[1:], path):
                        return True
                elif path.endswith(p):
                    return True
            return False
        return f

    def engine(self, opaque=None, **kw):
        src = kw.pop("stubs", None)
        e = Engine(self.P, opaque=opaque if callable(opaque) else self.opaque_fn(opaque), **kw)
        if src:
            e.models = dict(e.models)
            e.models.update(compile_models(src, models.BUILTINS))
        return e

    def analyse(self, fid, opaque=None, argnames=None, args=None, setup=None, **kw):
        forget()
        args = [again(a) for a in args] if args else args
        e = self.engine(opaque, **kw)
        e.argnames = argnames
        g = e.run(fid, args, setup)
        self.count(g, fid)
        return g

    def count(self, g, fid=None):
        if fid:
            self.functions.add(self.path(fid))
        for x in g.eng.inlined:
            if self.P.fns[x]["local"]:
                self.functions.add(self.P.fns[x]["path"])
        self.nodes += len(g.nodes)
        self.edges += sum(len(n.out) for n in g.nodes)

    def spec(self, src, name, args, mem=None, base=1000000, opaque=None, **kw):
        e = self.engine(opaque, **kw)
        e.headbase = base
        m = compile_models(src, models.BUILTINS)
        e.models = dict(e.models)
        e.models.update(m)
        return e.run_spec(name, args, mem or {})

    def conform(self, rule, fid, src, name, args, **kw):
        r = self.attempts(lambda: self.conform1(rule, fid, src, name, args, **dict(kw)))
        if r is True and kw.get("nopanic") and kw.get("wrap64"):
            self.total.add(fid)
        return r

    def drive(self, rule, construct, src, driver, name, args, calls, **kw):
        return self.attempts(lambda: self.drive1(rule, construct, src, driver, name, args, calls, **dict(kw)))

    def attempts(self, f):
        """a comparison succeeds when it does in one of several orders in which relations are guessed"""
        first = None
        o, v = len(self.oblig), len(self.viol)
        try:
            start = self.start = time.time()
            for n, (seed, refine) in enumerate(ATTEMPTS):
                if time.time() - start > (300 if n < 4 else 40) or n >= 4 and self.spare <= 0:
                    break
                t = time.time()
                Engine.REFINE = refine
                terms.scramble(seed if seed else int(os.environ.get("VERIF_SCRAMBLE") or 0))
                try:
                    r = f()
                except (Undecided, ArithmeticError, MemoryError) as x:
                    r = x if isinstance(x, Undecided) else Undecided(str(x) or type(x).__name__)
                if r is True:
                    return r
                if first is None:
                    first = r, self.oblig[o:], self.viol[v:]
                del self.oblig[o:], self.viol[v:]
                if n >= 4:
                    self.spare -= time.time() - t
        except OutOfTime:
            if first is not None:
                self.oblig[o:], self.viol[v:] = first[1:]
            raise
        finally:
            Engine.REFINE = Engine.TIES = terms.NONAN[0] = False
            terms.scramble(int(os.environ.get("VERIF_SCRAMBLE") or 0))
        if isinstance(first[0], Undecided):
            raise first[0]
        self.oblig += first[1]
        self.viol += first[2]
        return first[0]

    def conform1(self, rule, fid, src, name, args, opaque=None, finals=True, obs=None, construct=None, **kw):
        """the function's graph refines the specification's graph.
        args: list of ("v", argname) by-value or ("m", argname) &mut parameters"""
        construct = construct or self.path(fid)
        if isinstance(name, tuple):
            # several formulations of the same behaviour: one of them must be met
            for i, n in enumerate(name):
                o, v = len(self.oblig), len(self.viol)
                try:
                    r = self.conform1(rule, fid, src, n, args, opaque, finals, obs, construct, **dict(kw))
                except Undecided:
                    if i == len(name) - 1:
                        raise
                    r = False
                if r or i == len(name) - 1 or time.time() - self.start > 400:
                    return r
                del self.oblig[o:], self.viol[v:]
        names = [a[1] for a in args]
        # ties may come in any order
        Engine.TIES = kw.pop("ties", False)
        # every float of this function is a constant or what a named function returns, which is never NaN
        terms.NONAN[0] = kw.pop("nonan", False)
        ekw = {k: kw.pop(k) for k in ("bits", "loop_cap", "opname", "recname", "stubs", "coarse") if k in kw}
        gi = self.analyse(fid, opaque=opaque, argnames=names, args=kw.pop("given", None), **ekw)
        sargs, mem = [], {}
        for k, n in args:
            if k == "m":
                mem[("A", n)] = mk("arg", n)
                sargs.append(mk("ref", ("A", n), ()))
            else:
                sargs.append(mk("arg", n))
        gs = self.spec(src, name, sargs, mem, **ekw)
        fin = [(("A", n), ("A", n)) for k, n in args if k == "m"] if finals is True else finals
        return self.compare(rule, construct, gi, gs, self.where(fid), obs=obs, finals=fin, **kw)

    def spins(self, g):
        """a cycle of the graph on which nothing changes: entered once, it is never left"""
        idle = {}
        for n in g.nodes:
            for e in n.out:
                if all(v is p for p, v in e.phi.items()):
                    idle.setdefault(n.id, []).append(e.dst)
        for n in g.nodes:
            if n.kind != "head":
                continue
            seen, todo = set(), [n]
            while todo:
                for d in idle.get(todo.pop().id, ()):
                    if d is n:
                        return n
                    if d.id not in seen:
                        seen.add(d.id)
                        todo.append(d)
        return None

    def compare(self, rule, construct, gi, gs, where, obs=None, finals=None, **kw):
        bad = None
        n = self.spins(gi)
        if n is not None:
            self.bad(rule, construct, "loop: the code can go round without changing anything, for ever", "%s" % (n.at,))
            self.last = (gi, gs, None)
            return False
        for level in (0, 1, 2):
            # the same comparison over fewer stops, when the loops do not line up
            p = Product(gi, gs, obs=obs, finals=finals, **kw)
            p.level = level
            if level and not (p.skipped(gi) or p.skipped(gs)):
                continue
            try:
                b = p.run()
            except Undecided as x:
                if bad is None:
                    bad = x
                continue
            if bad is None or isinstance(bad, Undecided) or not b:
                bad = b
            if not b:
                break
        if isinstance(bad, Undecided):
            raise bad
        self.pairs += p.npairs
        if not bad:
            if p.obligations == 0:
                self.bad(rule, construct, "the comparison covered no return path", where)
            else:
                self.ok(rule, construct, "%d head pairs, %d agreements" % (p.npairs, p.obligations))
        for b in bad[:1]:
            self.bad(rule, construct, "%s: %s" % (b.kind, b.msg), b.at)
        self.last = (gi, gs, p)
        return not bad

    def drive1(self, rule, construct, src, driver, name, args, calls, opaque=None, **kw):
        """the model function `driver`, which calls real functions (its first parameters, named by calls), refines `name`"""
        if isinstance(name, tuple):
            # several formulations of the same behaviour: one of them must be met
            for i, n in enumerate(name):
                o, v = len(self.oblig), len(self.viol)
                try:
                    r = self.drive1(rule, construct, src, driver, n, args, calls, opaque, **dict(kw))
                except Undecided:
                    if i == len(name) - 1:
                        raise
                    r = False
                if r or i == len(name) - 1 or time.time() - self.start > 400:
                    return r
                del self.oblig[o:], self.viol[v:]
        ekw = {k: kw.pop(k) for k in ("bits", "loop_cap", "opname", "recname", "stubs", "coarse") if k in kw}
        sargs, mem = [], {}
        for k, n in args:
            if k == "m":
                mem[("A", n)] = mk("arg", n)
                sargs.append(mk("ref", ("A", n), ()))
            else:
                sargs.append(mk("arg", n))
        forget()
        gi = self.spec(src, driver, [mk("mirfn", f) for f in calls] + sargs, mem, base=0, opaque=opaque, **ekw)
        for f in calls:
            self.count(gi, f)
        gs = self.spec(src, name, sargs, mem, **ekw)
        fin = [(("A", n), ("A", n)) for k, n in args if k == "m"]
        return self.compare(rule, construct, gi, gs, self.where(calls[0]), finals=fin, **kw)

    def reaches(self, fid, pred, seen=None):
        """call-graph reachability over resolved callees (all exported bodies)"""
        seen = set() if seen is None else seen
        stack = [fid]
        while stack:
            f = stack.pop()
            if f in seen:
                continue
            seen.add(f)
            b = self.P.fns.get(f)
            if not b:
                continue
            for blk in b["blocks"]:
                t = blk["t"]
                if t[0] == "call" and t[1][0] == "def":
                    c = t[1][1]
                    if pred(c):
                        return True
                    if c.get("fn"):
                        stack.append(c["fn"])
        return False
