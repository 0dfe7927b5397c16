"""seedcheck.py [-a] [NAME...]: runs the check of its property (-a: every check) against each seeded bug, in a scratch copy."""
import json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
W = "/tmp/seedchk"
args = sys.argv[1:]
ALL = "-a" in args
names = [a for a in args if a != "-a"] or sorted(os.listdir("/verif/seeded"))
checks = [c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]]
os.makedirs(W, exist_ok=True)


def one(n):
    repo = W + "/" + n
    subprocess.run("rm -rf %s; git clone -q /repo %s" % (repo, repo), shell=True, check=True)
    r = subprocess.run("git apply /verif/seeded/%s/patch.diff" % n, shell=True, cwd=repo)
    if r.returncode:
        return n + " DOES NOT APPLY"
    env = dict(os.environ, VERIF_REPO=repo)
    f = subprocess.run(["python3", "/verif/engine/bootstrap.py", "--keep"], env=env, capture_output=True, text=True).stdout.split()
    if not f:
        return n + " NO DUMP"
    prop = json.load(open("/verif/seeded/%s/meta.json" % n))["property"]
    out = []
    env["VERIF_BUILD"] = W + "/build-" + n    # of the checks that dump the program themselves
    for c in (checks if ALL else [c for c in checks if c == prop]):
        e = dict(env, VERIF_MIR=f[0], VERIF_EVIDENCE=W + "/ev-" + n)
        r = subprocess.run(["/verif/check", c], env=e, capture_output=True, text=True)
        first = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        if r.returncode or c == prop:
            out.append("%s:%d%s" % (c, r.returncode, "" if first or r.returncode == 0 else "?"))
    subprocess.run("rm -rf %s %s %s/build-%s" % (repo, f[0], W, n), shell=True)
    hit = any(o.startswith(prop + ":1") and not o.endswith("?") for o in out)
    return "%-32s %s %s %s" % (n, prop, "caught" if hit else "MISSED", " ".join(out))


with ThreadPoolExecutor(4) as ex:
    for l in ex.map(one, names):
        print(l, flush=True)
