"""Uniform views of MIR bodies and of model functions: blocks, liveness, loop heads."""


class FnView:
    """common part: successor lists, per-block uses/defs -> liveness, merge points, loop heads"""

    def finish(self, nblocks, succs, use, defs):
        self.succs = succs
        preds = [0] * nblocks
        for b in range(nblocks):
            for s in set(succs[b]):
                preds[s] += 1
        # loop heads: targets of DFS back edges
        heads = set()
        color = [0] * nblocks
        stack = [(0, iter(succs[0]))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if color[s] == 0:
                    color[s] = 1
                    stack.append((s, iter(succs[s])))
                    break
                if color[s] == 1:
                    heads.add(s)
            else:
                color[b] = 2
                stack.pop()
        self.heads = heads
        self.merge = [preds[b] > 1 or b in heads for b in range(nblocks)]
        live = [frozenset()] * nblocks
        changed = True
        while changed:
            changed = False
            for b in range(nblocks - 1, -1, -1):
                out = frozenset().union(*[live[s] for s in succs[b]]) if succs[b] else frozenset()
                i = use[b] | (out - defs[b])
                if i != live[b]:
                    live[b] = i
                    changed = True
        self.live_in = live


def _place_uses(p, acc):
    acc.add(p[0])
    for e in p[1]:
        if e != "*" and e[0] == "i":
            acc.add(e[1])


def _op_uses(o, acc):
    if o[0] in ("cp", "mv"):
        _place_uses(o[1], acc)


class MirFn(FnView):
    kind = "mir"

    def __init__(self, prog, fid):
        f = prog.fns[fid]
        self.id = fid
        self.prog = prog
        self.f = f
        self.path = f["path"]
        self.file = f["file"]
        self.blocks = f["blocks"]
        self.locals = f["locals"]
        self.nargs = f["nargs"]
        self.names = {}
        for v in f["vars"]:
            if not v[1][1]:
                self.names.setdefault(v[1][0], v[0])
        n = len(self.blocks)
        succs, use, defs = [], [], []
        for b in self.blocks:
            u, d = set(), set()

            def useop(o):
                a = set()
                _op_uses(o, a)
                u.update(a - d)

            def usepl(p):
                a = set()
                _place_uses(p, a)
                u.update(a - d)

            for s in b["s"]:
                if s[0] != "=":
                    continue
                rv = s[2]
                k = rv[0]
                if k in ("use", "repeat"):
                    useop(rv[1])
                elif k == "ref":
                    usepl(rv[2])
                elif k in ("discr", "len"):
                    usepl(rv[1])
                elif k == "agg":
                    for o in rv[4]:
                        useop(o)
                elif k in ("bin", "chk"):
                    useop(rv[2])
                    useop(rv[3])
                elif k in ("un", "cast"):
                    useop(rv[2])
                if s[1][1]:
                    usepl(s[1])
                else:
                    d.add(s[1][0])
            t = b["t"]
            sc = []
            if t[0] == "goto":
                sc = [t[1]]
            elif t[0] == "switch":
                useop(t[1])
                sc = [x[1] for x in t[3]] + ([t[4]] if t[4] is not None else [])
            elif t[0] == "return":
                u.update({0} - d)
            elif t[0] == "drop":
                usepl(t[1])
                sc = [t[2]]
            elif t[0] == "call":
                for o in t[2]:
                    useop(o)
                if t[1][0] == "dyn":
                    useop(t[1][1])
                if t[3][1]:
                    usepl(t[3])
                else:
                    d.add(t[3][0])
                sc = [t[4]] if t[4] is not None else []
            elif t[0] == "assert":
                useop(t[1])
                sc = [t[4]]
            succs.append(sc)
            use.append(frozenset(u))
            defs.append(frozenset(d))
        self.finish(n, succs, use, defs)

    def live_after_call(self, b):
        t = self.blocks[b]["t"]
        if t[4] is None:
            return frozenset()
        l = self.live_in[t[4]]
        if t[3][1]:
            a = set()
            _place_uses(t[3], a)
            return l | a
        return l - {t[3][0]}

    def name(self, local):
        if local in self.names:
            return self.names[local]
        return "_%s" % local

    def where(self, b, line=None):
        return "%s:%s" % (self.file, line if line is not None else self.blocks[b]["l"])
