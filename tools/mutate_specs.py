#!/usr/bin/env python3
"""Mutation test of the comparison: every mutated reference function must be told from the code.
usage: mutate_specs.py MIR.json MODULE [name...]   (not part of any check)"""
import sys, os, re, importlib, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/engine", V + "/rules"]
from rulelib import *
from mirload import Program
P = Program(sys.argv[1])
mod = importlib.import_module(sys.argv[2])
names = sys.argv[3:] or list(mod.TABLE)
src = mod.SPEC
mod.FALLBACK = False


def body(name):
    m = re.search(r"^def %s\(.*?(?=^def |\Z)" % re.escape(name), src, re.S | re.M)
    return m.group(0) if m else None


def muts(b):
    lines = b.split("\n")
    for i, l in enumerate(lines):
        if i == 0 or not l.strip():
            continue
        ind = l[:len(l) - len(l.lstrip())]
        s = l.strip()
        if not re.match(r"(if|elif|else|for|while|return|break)", s):
            yield i, "drop", lines[:i] + [ind + "pass_ = 0"] + lines[i + 1:]
        for a, c in ((" < ", " <= "), (" >= ", " > "), (" + 1", " + 2"), ("= 0", "= 1"), (" == ", " != "), ("not (", "("), ("Some(", "Ok("), ("true", "false"), ("false", "true"), (" and ", " or "), ("break", "pass_ = 0")):
            if a in l:
                yield i, a.strip() + "->" + c.strip(), lines[:i] + [l.replace(a, c, 1)] + lines[i + 1:]


tot = surv = 0
for n in names:
    fn = (mod.TABLE[n][2] if len(mod.TABLE[n]) > 2 and isinstance(mod.TABLE[n][2], str) else n)
    b = body(fn)
    if b is None:
        print("no body", n)
        continue
    for i, what, ls in muts(b):
        mod.SPEC = src.replace(b, "\n".join(ls))
        R = Rule(P, "X")
        tot += 1
        t = time.time()
        try:
            mod.conform(R, "r", n)
            ok = R.oblig[-1]["ok"]
        except Exception as x:
            ok = False
        if ok:
            surv += 1
            print("SURVIVES %s line %d %s: %s" % (n, i, what, b.split("\n")[i].strip()[:120]))
        sys.stdout.flush()
print(tot, "mutants", surv, "survive")
