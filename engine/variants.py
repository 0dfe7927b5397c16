"""Compares the functions of the crate as two builds export them: what is decided for one holds for the other where they agree."""
import contextlib
import io
import re
from mirload import Program


def bodies(P):
    out = {}
    show = lambda i: P.types[i]["show"]
    for fid, f in P.fns.items():
        if not f or not f["local"]:
            continue
        b = io.StringIO()
        with contextlib.redirect_stdout(b):
            P.pp(fid)
        t = b.getvalue().split("\n", 1)[1]
        t = re.sub(r"(\['(?:adt|closure|coroutine)', )(\d+)", lambda m: m.group(1) + show(int(m.group(2))), t)
        t = re.sub(r'(\["cast",.*, )(\d+)\]$', lambda m: m.group(1) + show(int(m.group(2))), t, flags=re.M)
        t = re.sub(r"(\['drop', .*, )(\d+)\]$", lambda m: m.group(1) + show(int(m.group(2))), t, flags=re.M)
        t = re.sub(r"\['f', (\d+), \d+\]", r"['f', \1]", t)
        t = re.sub(r'\["f", (\d+), \d+\]', r'["f", \1]', t)
        t = re.sub(r'"t": (\d+)', lambda m: '"t": ' + show(int(m.group(1))), t)
        t = re.sub(r"'t': (\d+)", lambda m: "'t': " + show(int(m.group(1))), t)
        t = re.sub(r"(\['array', )(\d+)", lambda m: m.group(1) + show(int(m.group(2))), t)
        out.setdefault(f["path"], []).append(t)
    return {k: sorted(v) for k, v in out.items()}


def differing(a, b):
    """functions of build b that are absent from build a or differ there; and how many agree"""
    A, B = bodies(Program(a)), bodies(Program(b))
    bad = [k for k in sorted(B) if A.get(k) != B[k]]
    return bad, len(B) - len(bad)
