#!/usr/bin/env python3
"""Applies behaviour-preserving edits one at a time to a scratch copy of /repo and reports checks that are not quiet."""
import concurrent.futures as cf, glob, os, re, shutil, subprocess, sys, json, threading
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import edits2, edits3, edits4, edits5, edits6
from edits import E
V = os.path.dirname(os.path.dirname(here))
W = os.environ.get("RFW", "/tmp/rfws")
J = int(os.environ.get("J", "4"))
ids = [c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]]
if "ONLY" in os.environ:
    ids = [x for x in os.environ["ONLY"].split(",") if x]
UNIT = {"C29": "bin"}
names = sys.argv[1:] or list(E)
lock = threading.Lock()
free = list(range(J))


def work(name):
    with lock:
        k = free.pop()
    try:
        return work1(name, k)
    finally:
        with lock:
            free.append(k)


def work1(name, k):
    w = "%s%d" % (W, k)
    repo, build, mir = w + "/repo", w + "/build", w + "/mir.json"
    os.makedirs(w, exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "/repo/", repo + "/"], check=True) if shutil.which("rsync") else subprocess.run(
        "mkdir -p %s; rm -rf %s/src; cp -a /repo/. %s/" % (repo, repo, repo), shell=True, check=True)
    for path, old, new in E[name]:
        if path == "*":
            # a regular expression replaced everywhere
            hits = 0
            for p in glob.glob(repo + "/src/**/*.rs", recursive=True):
                s = open(p).read()
                s, n = re.subn(old, new, s)
                hits += n
                if n:
                    open(p, "w").write(s)
            if not hits:
                return name, ["edit does not apply: " + old]
            continue
        p = os.path.join(repo, path)
        s = open(p).read()
        # blank lines do not matter
        m = re.search(re.sub(r"(\\\n)+", lambda m: r"\n(?:[ ]*\n)*", re.escape(re.sub(r"\n[ ]*(?=\n)", "", old))), s)
        if not m:
            return name, ["edit does not apply: " + old[:60]]
        s = s[:m.start()] + new + s[m.end():]
        open(p, "w").write(s)
    env = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=build)
    dumps = {"lib": mir, "bin": w + "/bin.json"}
    for unit, to in dumps.items():
        r = subprocess.run([sys.executable, "-c", "import sys; sys.path.insert(0,%r); import bootstrap,shutil; m=bootstrap.ensure(unit=%r); shutil.move(m,%r)" % (V + "/engine", unit, to)], env=env, capture_output=True, text=True)
        if r.returncode:
            return name, ["does not build: " + (r.stderr or r.stdout)[-900:]]
    if os.environ.get("KEEP"):
        os.makedirs(os.environ["KEEP"], exist_ok=True)
        shutil.copy(mir, os.path.join(os.environ["KEEP"], name + ".json"))
    out = []
    for i in ids:
        c = subprocess.run([sys.executable, "-c", """
import sys; sys.dont_write_bytecode=True; sys.path[:0]=[%r,%r]
import cli
R=cli.run_rule(%r,%r,"quick")
for v in R.viol: print(v["key"],"|",v["at"],"|",v["detail"][:300])
""" % (V + "/engine", V + "/rules", i, dumps[UNIT.get(i, "lib")])], capture_output=True, text=True, timeout=900)
        if c.stdout.strip() or c.returncode:
            out.append("%s: %s" % (i, (c.stdout.strip() or c.stderr.strip()[-300:])[:700]))
    return name, out


bad = 0
with cf.ThreadPoolExecutor(J) as ex:
    for name, out in ex.map(work, names):
        bad += bool(out)
        print(("ALARM " if out else "quiet ") + name, flush=True)
        for o in out:
            print("    " + o.replace("\n", "\n      "), flush=True)
print(len(names), "edits", bad, "with alarms")
