"""Reference codec for numbers, characters, truth values and text: put_T lists the bytes written,
get_T what reading a byte sequence must give."""
from wire import collect
from rulelib import Missing

RAW = '''
def put_u64(self, output):
    k = 0
    while k < 9:
        if done_(self, k + 1):
            event("put", groups(self, k, 0))
            return unit()
        event("put", groups(self, k, 1))
        k = k + 1
    event("put", groups(self, 9, 0))
    return unit()

def get_u64(input):
    k = 0
    while k < 9:
        if length(input) <= k:
            return Nope()
        if not bit_(input[k], 7):
            return Some(tup(slice(input, k + 1, length(input)), gather(input, k + 1, 0)))
        k = k + 1
    if length(input) <= 9:
        return Nope()
    if input[9] == 1:
        return Some(tup(slice(input, 10, length(input)), gather(input, 9, 1)))
    if input[9] == 0:
        return Some(tup(slice(input, 10, length(input)), gather(input, 9, 0)))
    return any_()

def put_wide(self, output):
    event("put", "u64", self)
    return unit()

def get_usize(input):
    pc = term("call", "r:u64", input)
    if is_(pc, "Some"):
        return Some(tup(tupn(var_(pc, "Some", 0), 0), tupn(var_(pc, "Some", 0), 1)))
    return Nope()

def get_u32(input):
    pc = term("call", "r:u64", input)
    if is_(pc, "Some"):
        v = tupn(var_(pc, "Some", 0), 1)
        if v <= 4294967295:
            return Some(tup(tupn(var_(pc, "Some", 0), 0), v))
    return Nope()

def get_char(input):
    pc = term("call", "r:u64", input)
    if is_(pc, "Some"):
        v = tupn(var_(pc, "Some", 0), 1)
        if v <= 4294967295:
            if term("ischar", v):
                return Some(tup(tupn(var_(pc, "Some", 0), 0), v))
    return Nope()

def put_u8(self, output):
    event("put", self)
    return unit()

def get_u8(input):
    if length(input) > 0:
        return Some(tup(slice(input, 1, length(input)), input[0]))
    return Nope()

def put_bool(self, output):
    if self:
        event("put", 1)
    else:
        event("put", 0)
    return unit()

def get_bool(input):
    if length(input) > 0:
        if input[0] == 0:
            return Some(tup(slice(input, 1, length(input)), False))
        if input[0] == 1:
            return Some(tup(slice(input, 1, length(input)), True))
        return any_()
    return Nope()

def put_f32(self, output):
    k = 0
    while k < 4:
        event("put", fbyte(self, k))
        k = k + 1
    return unit()

def get_f32(input):
    if length(input) >= 4:
        return Some(tup(slice(input, 4, length(input)), term("fjoin", input[0], input[1], input[2], input[3])))
    return Nope()

def put_str(self, output):
    b = term("bytes", self)
    event("put", "u64", length(b))
    for x in b:
        event("put", x)
    return unit()

def get_str(input):
    pc = term("call", "r:u64", input)
    if is_(pc, "Some"):
        rest = tupn(var_(pc, "Some", 0), 0)
        n = tupn(var_(pc, "Some", 0), 1)
        if n <= length(rest):
            b = slice(rest, 0, n)
            if term("isutf8", b):
                return Some(tup(slice(rest, n, length(rest)), term("utf8", b)))
    return Nope()
'''


def tokens(ev, side):
    if ev.kind == "callout" and side == "i":
        return ("put", ev.args[-1])
    if ev.kind == "call" and ev.args[0] == "w:u64":
        return ("put", "u64", ev.args[1])
    if ev.kind == "put":
        a = ev.args
        return ("put",) + tuple(a)
    return None


def scalar(fid, ty):
    return "for %s>" % ty in fid


def check(R, rule, read=True, write=True, only=None):
    W, D = collect(R)
    u64w = [f for f in W.get("uint", ()) if scalar(f, "u64")]
    u64r = [f for f in D.get("uint", ()) if scalar(f, "u64")]
    if not u64w or not u64r:
        raise Missing("no 64-bit number codec")
    nm = {f: ("w:u64", 1) for f in u64w}
    nm.update({f: ("r:u64", 1) for f in u64r})
    op = lambda fid, path: nm.get(fid)
    for ty, key in (("u64", "uint"), ("u32", "uint"), ("usize", "uint"), ("char", "char"), ("u8", "u8"), ("bool", "bool"), ("f32", "f32"), ("str", "str")):
        if only and ty not in only:
            continue
        ws = [f for f in W.get(key, ()) if key != "uint" or scalar(f, ty)]
        rs = [f for f in D.get(key, ()) if key != "uint" or scalar(f, ty)]
        if not ws or not rs:
            raise Missing("no codec for " + ty)
        kw = dict(finals=[], obs=tokens, wrap64=True)
        # the integer itself bit by bit, the others in terms of it
        kw["opname"] = op if ty != "u64" else None
        kw["bits"] = ty == "u64"
        wide = ty in ("u32", "usize", "char")
        for f in ws if write else ():
            R.conform(rule, f, RAW, "put_wide" if wide else "put_" + ty, [("v", "self"), ("v", "output")], **kw)
        for f in rs if read else ():
            R.conform(rule, f, RAW, "get_" + ty, [("v", "input")], nopanic=not write, **kw)
