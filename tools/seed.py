"""seed.py NAME...: builds seeded/NAME/ from tools/demo/bugs/NAME.rs (demo) and the edits in tools/demo/bugs.py,
confirms it in a scratch copy (applies, builds, stable tests pass, demo passes without and fails with it)."""
import json, os, subprocess, sys, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "demo"))
from bugs import BUGS
W = "/tmp/seedws"
ENV = dict(os.environ, HOME="/root", PATH="/root/.cargo/bin:/usr/bin:/bin", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
           CARGO_NET_OFFLINE="true", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_RESOLVER_LOCKFILE_PATH=W + "/lock/Cargo.lock")
STABLE = [s.split("::", 1)[1] for s in json.load(open("/opt/vp/BASELINE.json"))["stable"]]


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **k)


def lock():
    os.makedirs(W + "/lock", exist_ok=True)
    shutil.copy("/repo/Cargo.lock", W + "/lock/Cargo.lock")


def setup():
    if not os.path.exists(W + "/repo"):
        os.makedirs(W, exist_ok=True)
        sh(["cp", "-a", "/repo", W + "/repo"])
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    sh("git fetch -q /repo HEAD; git reset -q --hard " + head, cwd=W + "/repo")


def demo(d, repo):
    "runs the demo with /repo replaced by the scratch copy"
    text = open(d + "/demo.sh").read().replace("/repo", repo)
    tmp = W + "/demo"
    os.makedirs(tmp, exist_ok=True)
    for f in os.listdir(d):
        if not f.endswith((".diff", ".json")):
            shutil.copy(d + "/" + f, tmp + "/" + f)
    text = text.replace('CARGO_TARGET_DIR="$work/target"', "CARGO_TARGET_DIR=" + W + "/dt").replace("$work/target/debug", W + "/dt/debug")
    open(tmp + "/demo.sh", "w").write(text)
    r = sh(["bash", tmp + "/demo.sh"], env=ENV)
    return r.returncode, (r.stdout + r.stderr)[-400:]


def one(name):
    b = BUGS[name]
    d = "/verif/seeded/" + name
    os.makedirs(d, exist_ok=True)
    setup()
    repo = W + "/repo"
    for path, old, new in b["edits"]:
        p = repo + "/" + path
        t = open(p).read()
        assert t.count(old) == 1, (name, path, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    open(d + "/patch.diff", "w").write(sh("git diff", cwd=repo).stdout)
    steps = HERE + "/demo/bugs/%s.sh" % name
    if os.path.exists(steps):
        shutil.copy(HERE + "/demo/demo_bin.sh", d + "/demo.sh")
        shutil.copy(steps, d + "/steps.sh")
    else:
        shutil.copy(HERE + "/demo/demo.sh", d + "/demo.sh")
        open(d + "/main.rs", "w").write(open(HERE + "/demo/common.rs").read() + open(HERE + "/demo/bugs/%s.rs" % b.get("demo", name)).read())
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    lock()
    t = sh("cargo test --workspace --offline --lib -- --test-threads 8", cwd=repo, env=ENV)
    passed = [x for x in STABLE if "test %s ... ok" % x.split("src/lib.rs::")[-1] in t.stdout]
    ok_tests = len(passed) == len(STABLE)
    c = sh("cargo check --workspace --all-targets --features indexing --offline", cwd=repo, env=ENV)
    bad, outb = demo(d, repo)
    setup()
    good, outg = demo(d, repo)
    print(name, "tests", ok_tests, "check", c.returncode == 0, "demo: patched", bad, "clean", good, "OK" if ok_tests and c.returncode == 0 and bad not in (0, 2) and good == 0 else "REJECT")
    if not ok_tests:
        print(t.stdout[-600:], t.stderr[-600:])
    if good != 0 or bad == 2:
        print(outg, outb)


for n in sys.argv[1:] or BUGS:
    if len(sys.argv) == 1 and os.path.exists("/verif/seeded/%s/patch.diff" % n):
        continue
    one(n)
