"""Conformance of the command-line program to a reference: which file it reads, that every product of the
catalogue goes to the indexer, that what the indexer returns is written unchanged and to which file, and that
each failure ends the program with an error before anything is written. Decided on the program's own MIR; the
indexer itself is decided by C07 and the catalogue's reader by C28."""
from rulelib import *
from terms import *

FLOOR = 1
CRATE = "bin"
SPEC = '''
def main():
    return program(False, False)
def main_values():
    return program(True, False)
def main_buffered():
    return program(False, True)
def main_values_buffered():
    return program(True, True)
def program(whole, buffered):
    data = pcall("fs::read", str_("test.json"))
    if is_(data, "Err"):
        return Err(0)
    if not term("isutf8", var_(data, "Ok", 0)):
        return Err(0)
    parsed = pcall("serde_json::from_str", term("utf8", var_(data, "Ok", 0)))
    if is_(parsed, "Err"):
        return Err(0)
    if whole:
        products = term("vals", var_(parsed, "Ok", 0))
    else:
        products = vec0()
        for e in entries(var_(parsed, "Ok", 0)):
            products = vpush(products, tupn(e, 1))
    out = pcall("indexer_lib::index_and_serialize", products)
    if is_(out, "Err"):
        return Err(0)
    file = pcall("File::create", str_("out.test"))
    if is_(file, "Err"):
        return Err(0)
    to = var_(file, "Ok", 0)
    if buffered:
        to = pcall("BufWriter::new", to)
    done = pcall("Write::write_all", to, var_(out, "Ok", 0))
    if is_(done, "Err"):
        return Err(0)
    if buffered:
        done = pcall("Write::flush", to)
        if is_(done, "Err"):
            return Err(0)
    return Ok(unit())
'''
# the library's shorthands, in the terms of the calls they stand for
STUBS = '''
def stub_read_text(path):
    data = pcall("fs::read", path)
    if is_(data, "Err"):
        return Err(0)
    if not term("isutf8", var_(data, "Ok", 0)):
        return Err(0)
    return Ok(term("utf8", var_(data, "Ok", 0)))
def stub_write(path, data):
    file = pcall("File::create", path)
    if is_(file, "Err"):
        return Err(0)
    return pcall("Write::write_all", var_(file, "Ok", 0), data)
def stub_from_slice(data):
    return pcall("serde_json::from_str", data)
def stub_same(x):
    return x
'''
SHORT = {"fs::read_to_string": ("=", "stub_read_text"), "fs::write": ("=", "stub_write"), "serde_json::from_slice": ("=", "stub_from_slice"),
         "Path::new": ("=", "stub_same"), "indexer_lib::index_and_serialize": ("indexer_lib::index_and_serialize", 1)}


def short(fid, path):
    return None


short.leaf = SHORT.get


def plain(t):
    """a path in the working directory is the same with ./ in front; the bytes of a text are that text;
    a writer written to is that writer; which error is reported is left open"""
    m = {}
    for x in walk(t):
        if x.op == "str" and isinstance(x.args[0], str) and x.args[0].startswith("./"):
            m[x] = mk("str", x.args[0][2:])
        elif x.op in ("bytes", "utf8"):
            m[x] = plain(x.args[0])
        elif x.op == "out" and x.args[0] == "Write::write_all":
            m[x] = plain(x.args[2])
        elif x.op == "agg" and x.args[1:2] == ("Err",):
            m[x] = mk("agg", x.args[0], "Err", mk("int", 0))
    return subst(t, m) if m else t


EFFECTS = ("fs::", "File::", "OpenOptions::", "Write::", "BufWriter::", "LineWriter::", "Command::", "process::", "env::", "io::copy", "ptr::", "mem::forget")


def files(ev, side):
    """what the program does to files, and where: in this order, no more and no less"""
    if ev.kind == "call" and isinstance(ev.args[0], str) and ev.args[0].startswith(EFFECTS):
        return ("call",) + tuple(ev.args)
    return None


def program(R):
    R.conform("program", R.fid("~^main$"), SPEC, ("main", "main_values", "main_buffered", "main_values_buffered"), [], norm=plain, obs=files, opname=short, stubs=STUBS)


STEPS = [program]
