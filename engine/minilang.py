"""Compiles model functions (a small Python subset) to block form.

Statements: x = expr, x = machine_call(...), expression calls, if/elif/else,
while True (with break/continue), return, pass.
Builtins (see interp.BUILTINS) are evaluated directly; every other call is a
machine call: it pushes a frame (another model, `next`, or `call`)."""
import ast
from fnview import FnView


class ModelFn(FnView):
    kind = "model"

    def __init__(self, name, params):
        self.id = "model:" + name
        self.path = "model::" + name
        self.file = "<model>"
        self.params = params
        self.blocks = []

    def name(self, local):
        return str(local)

    def where(self, b, line=None):
        return "<model %s>" % self.id[6:]

    def live_after_call(self, b):
        t = self.blocks[b][-1]
        l = self.live_in[t[4]]
        return l - {t[1]}


def compile_models(src, builtins):
    tree = ast.parse(src)
    names = {n.name for n in tree.body if isinstance(n, ast.FunctionDef)}
    out = {}
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            out[n.name] = _Compiler(n, names, builtins).fn
    return out


class _Compiler:
    def __init__(self, node, names, builtins):
        self.names = names
        self.builtins = builtins
        self.fn = ModelFn(node.name, [a.arg for a in node.args.args])
        self.fn.vararg = node.args.vararg.arg if node.args.vararg else None
        self.tmp = 0
        self.loops = []
        self.cur = self.new()
        self.body(node.body)
        if self.cur is not None:
            self.emit(("ret", ("const", None)))
        self.liveness()

    def new(self):
        self.fn.blocks.append([])
        return len(self.fn.blocks) - 1

    def emit(self, ins):
        self.fn.blocks[self.cur].append(ins)
        if ins[0] in ("jmp", "br", "ret", "call"):
            self.cur = None

    def body(self, stmts):
        for s in stmts:
            if self.cur is None:
                return
            self.stmt(s)

    def is_machine(self, e):
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id not in self.builtins

    def expr(self, e):
        if isinstance(e, ast.Name):
            return ("var", e.id)
        if isinstance(e, ast.Constant):
            return ("const", e.value)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            return ("const", -e.operand.value)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return ("b", "not_", (self.expr(e.operand),))
        if isinstance(e, ast.Call):
            if self.is_machine(e):
                t = "$%d" % self.tmp
                self.tmp += 1
                self.mcall(t, e)
                return ("var", t)
            if e.func.id == "addr":
                return ("addr", e.args[0].id)
            kw = []
            for k in e.keywords:
                kw += [("const", k.arg), self.expr(k.value)]
            return ("b", e.func.id, tuple(self.expr(a) for a in e.args) + tuple(kw))
        if isinstance(e, ast.Attribute):
            return ("b", "fld_", (self.expr(e.value), ("const", e.attr)))
        if isinstance(e, ast.Subscript):
            return ("b", "index_", (self.expr(e.value), self.expr(e.slice)))
        if isinstance(e, ast.BinOp):
            return ("b", {ast.Add: "add", ast.Sub: "sub_", ast.Mult: "mul_"}[type(e.op)], (self.expr(e.left), self.expr(e.right)))
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.expr(e.left), self.expr(e.comparators[0])
            o = type(e.ops[0])
            n = {ast.Lt: "lt", ast.Gt: "gt_", ast.LtE: "le_", ast.GtE: "ge_", ast.Eq: "same_", ast.NotEq: "same_", ast.In: "in_", ast.NotIn: "in_"}[o]
            r = ("b", n, (a, b))
            return ("b", "not_", (r,)) if o in (ast.NotEq, ast.NotIn) else r
        if isinstance(e, ast.Tuple):
            return ("b", "tup", tuple(self.expr(x) for x in e.elts))
        if isinstance(e, ast.List):
            return ("b", "veclit_", tuple(self.expr(x) for x in e.elts))
        raise SyntaxError("model expr %s" % ast.dump(e))

    def mcall(self, dest, e):
        args = tuple(self.expr(a) for a in e.args)
        nb = self.new()
        self.emit(("call", dest, e.func.id, args, nb))
        self.cur = nb

    def cond(self, e, b1, b2):
        if isinstance(e, ast.BoolOp):
            for x in e.values[:-1]:
                m = self.new()
                if isinstance(e.op, ast.And):
                    self.cond(x, m, b2)
                else:
                    self.cond(x, b1, m)
                self.cur = m
            self.cond(e.values[-1], b1, b2)
        elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            self.cond(e.operand, b2, b1)
        else:
            self.emit(("br", self.expr(e), b1, b2))

    def stmt(self, s):
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], (ast.Attribute, ast.Subscript)):
            t, v = s.targets[0], self.expr(s.value)
            while not isinstance(t, ast.Name):
                if isinstance(t, ast.Attribute):
                    v = ("b", "setfld_", (self.expr(t.value), ("const", t.attr[1:] if t.attr[0] == "_" and t.attr[1:].isdigit() else t.attr), v))
                else:
                    v = ("b", "vset", (self.expr(t.value), self.expr(t.slice), v))
                t = t.value
            self.emit(("set", t.id, v))
        elif isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Tuple):
            v = self.expr(s.value)
            t = "$%d" % self.tmp
            self.tmp += 1
            self.emit(("set", t, v))
            for i, n in enumerate(s.targets[0].elts):
                self.emit(("set", n.id, ("b", "tupn", (("var", t), ("const", i)))))
        elif isinstance(s, ast.Assign):
            d = s.targets[0].id
            if self.is_machine(s.value):
                self.mcall(d, s.value)
            else:
                self.emit(("set", d, self.expr(s.value)))
        elif isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return
            if self.is_machine(s.value):
                self.mcall("$_", s.value)
            else:
                self.emit(("set", "$_", self.expr(s.value)))
        elif isinstance(s, ast.Return):
            v = ("const", None) if s.value is None else self.expr(s.value)
            self.emit(("ret", v))
        elif isinstance(s, ast.For):
            self.tmp += 1
            n = "$i%d" % self.tmp
            v = "$v%d" % self.tmp
            self.emit(("set", v, self.expr(s.iter)))
            self.emit(("set", n, ("const", 0)))
            h = self.new()
            self.emit(("jmp", h))
            after = self.new()
            b1 = self.new()
            self.loops.append((h, after))
            self.cur = h
            self.emit(("br", ("b", "lt", (("var", n), ("b", "length", (("var", v),)))), b1, after))
            self.cur = b1
            x = ("b", "index", (("var", v), ("var", n)))
            if isinstance(s.target, ast.Tuple):
                for i, t in enumerate(s.target.elts):
                    self.emit(("set", t.id, ("b", "tupn", (x, ("const", i)))))
            else:
                self.emit(("set", s.target.id, x))
            self.emit(("set", n, ("b", "add", (("var", n), ("const", 1)))))
            self.body(s.body)
            if self.cur is not None:
                self.emit(("jmp", h))
            self.loops.pop()
            self.cur = after
        elif isinstance(s, ast.If):
            b1, b2 = self.new(), self.new()
            self.cond(s.test, b1, b2)
            ends = []
            for b, body in ((b1, s.body), (b2, s.orelse)):
                self.cur = b
                self.body(body)
                if self.cur is not None:
                    ends.append(self.cur)
            if ends:
                nb = self.new()
                for e in ends:
                    self.cur = e
                    self.emit(("jmp", nb))
                self.cur = nb
        elif isinstance(s, ast.While):
            h = self.new()
            self.emit(("jmp", h))
            after = self.new()
            self.loops.append((h, after))
            self.cur = h
            if not (isinstance(s.test, ast.Constant) and s.test.value is True):
                c = self.expr(s.test)
                b1 = self.new()
                self.emit(("br", c, b1, after))
                self.cur = b1
            self.body(s.body)
            if self.cur is not None:
                self.emit(("jmp", h))
            self.loops.pop()
            self.cur = after
        elif isinstance(s, ast.Break):
            self.emit(("jmp", self.loops[-1][1]))
        elif isinstance(s, ast.Continue):
            self.emit(("jmp", self.loops[-1][0]))
        elif isinstance(s, ast.Pass):
            pass
        else:
            raise SyntaxError("model stmt %s" % ast.dump(s))

    def liveness(self):
        def uses(e, acc):
            if e[0] in ("var", "addr"):
                acc.add(e[1])
            elif e[0] == "b":
                for a in e[2]:
                    uses(a, acc)

        use, defs, succs = [], [], []
        for b in self.fn.blocks:
            u, d = set(), set()
            sc = []
            for ins in b:
                a = set()
                if ins[0] == "set":
                    uses(ins[2], a)
                    u |= a - d
                    d.add(ins[1])
                elif ins[0] == "br":
                    uses(ins[1], a)
                    u |= a - d
                    sc = [ins[2], ins[3]]
                elif ins[0] == "ret":
                    uses(ins[1], a)
                    u |= a - d
                elif ins[0] == "jmp":
                    sc = [ins[1]]
                elif ins[0] == "call":
                    for x in ins[3]:
                        uses(x, a)
                    u |= a - d
                    d.add(ins[1])
                    sc = [ins[4]]
            if not b:
                pass
            use.append(frozenset(u))
            defs.append(frozenset(d))
            succs.append(sc)
        self.fn.finish(len(self.fn.blocks), succs, use, defs)
