"""Every reader of the index file, and the loader itself, is interpreted over its resolved MIR with the other
readers opaque (each is an obligation of its own). In the resulting graph no path may end in a panic (bounds,
unwrap, slicing, arithmetic overflow, except a 64-bit counter that only ever grows by constants from a constant),
every amount of memory asked for must be bounded by a constant or by the length of something that exists, and the
recursion over nested values is followed level by level until the level whose constant arguments admit no further call.
The readers and the loader are also compared with their reference, which says when each must fail."""
import codec_specs
import lib_specs
import wire_specs
from interp import Engine
from terms import *

FLOOR = 50
DEPTH = 1024


def growing(g, t, seen=()):
    """a count: made of constants, lengths and values that start as such (or as a caller's count) and grow by constants"""
    if t.op == "int" or t.op == "len":
        return True
    if t.op == "lin":
        c, d = lin_parts(t)
        return c >= 0 and all(k == 1 and growing(g, x, seen) for x, k in d.items()) and len(d) == 1
    if t.op == "phi":
        if t in seen:
            return True
        ins = g.phis.get(t) or ()
        return bool(ins) and all(growing(g, v, seen + (t,)) for _, v in ins)
    return False


def bounded(t):
    if t.op in ("int", "len", "clen"):
        return True
    if t.op == "min":
        return any(bounded(x) for x in t.args)
    if t.op == "lin":
        c, d = lin_parts(t)
        return all(k < 0 or k < 4096 and bounded(x) for x, k in d.items())
    if t.op == "max":
        return all(bounded(x) for x in t.args)
    if t.op == "ite":
        return all(bounded(x) for x in t.args[1:])
    return False


def counter(g, e):
    """the step into a panic that only a 64-bit counter of steps taken can cause"""
    for f in e.facts:
        t = f[0] if isinstance(f, tuple) else f
        if getattr(t, "op", "") == "ovf" and t.args[0] == "add" and t.args[2] == 64 and growing(g, t.args[1]):
            return True
    return False


def faults(g):
    for e in g.edges():
        if e.dst.kind == "panic" and not counter(g, e):
            yield "no-panic", "reading may panic", e.dst.at
        for ev in e.ev:
            if ev.kind == "capacity" and not bounded(ev.args[0]):
                yield "memory", "room is reserved for %s, which the input does not bound" % show(ev.args[0])[:120], ev.at


def examine(R, f, op, what):
    """either exploration covers every path, so what one of them excludes is excluded"""
    g = R.analyse(f, opname=op)
    bad = list(faults(g))
    if bad:
        Engine.REFINE = True
        try:
            g = R.analyse(f, opname=op)
            if not list(faults(g)):
                bad = []
        finally:
            Engine.REFINE = False
    later = R.__dict__.setdefault("later", [])
    for rule, text, at in bad:
        if rule == "no-panic":
            later.append((f, what, text, at))
        else:
            R.bad(rule, what, text, at)
    if not bad:
        R.ok("no-panic, memory", what, "%d nodes" % len(g.nodes))


def readers(R):
    W, D = wire_specs.collect(R)
    nm = wire_specs.names(R)
    done = set()
    for ty in sorted(D):
        for f in D[ty]:
            if f in done:
                continue
            done.add(f)
            if f not in nm:
                continue    # part of another reader
            examine(R, f, lambda fid, path: nm.get(fid) if fid != f else None, R.path(f) + " (%s)" % ty)
    for f in R.fids("deserialize_all"):
        examine(R, f, lambda fid, path: nm.get(fid), R.path(f))


def depth(R):
    W, D = wire_specs.collect(R)
    nm = wire_specs.names(R)
    for ty in sorted(D):
        for f in D[ty]:
            h = wire_specs.recursive(R, f)
            if h is None:
                continue
            ls, end, h = wire_specs.levels(R, f, lambda fid, path: nm.get(fid), DEPTH)
            R.expect(end == "end", "depth", R.path(f), "nested values are read to a depth of %d" % len(ls) if end == "end" else
                     "the input decides how deep the reader recurses", R.where(f))


def reference(R):
    wire_specs.check(R, "rejects", write=False)
    wire_specs.whole(R, "rejects", write=False)
    wire_specs.ids(R, "rejects")
    codec_specs.check(R, "rejects", write=False)


def loader(R):
    lib_specs.conform(R, "loader", "initialize")


def panics(R):
    """a reader that was shown to follow its reference, 64-bit overflow included, does not panic either"""
    for f, what, text, at in R.__dict__.get("later", ()):
        R.expect(f in R.total, "no-panic", what, text if f not in R.total else "by comparison with the reference", at)


STEPS = [readers, depth, reference, loader, panics]
