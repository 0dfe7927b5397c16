#!/usr/bin/env python3
"""Mutates the source text of a scratch copy of /repo, one place at a time, and lists the mutants that no check reports.
usage: mutate_code.py [-n COUNT] [-s SEED] [FILE...]     (env J: parallel workers)"""
import concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("MUW", "/tmp/muws")
J = int(os.environ.get("J", "7"))
PROPS = [json.loads(l) for l in open(V + "/properties.jsonl")]
CLAIMED = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
OPS = [(r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "), (r"==", "!="), (r"!=", "=="), (r" \+ ", " - "), (r" - ", " + "),
       (r" \* ", " + "), (r" / ", " * "), (r"\+= ", "-= "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"&&", "||"), (r"\|\|(?= )", "&&"),
       (r"\bcontinue\b", "break"), (r"\.first\(\)", ".last()"), (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"push_front", "push_back"),
       (r"pop_back", "pop_front"), (r"\.rev\(\)", ""), (r"sort_by\(", "sort_unstable_by("), (r"\.chain\([^()]*(\([^()]*\))?[^()]*\)", ""),
       (r"to_be_bytes", "to_le_bytes"), (r"from_be_bytes", "from_le_bytes"), (r"starts_with", "ends_with"), (r"to_lowercase", "to_uppercase"),
       (r"\.reverse\(\)", ""), (r"\.total_cmp\(", ".partial_cmp("), (r"Occupied\(", "Vacant("), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"),
       (r"\btitle\b", "description"), (r"\bdescription\b", "title"), (r"\bfrom\b", "to"), (r"\bto\b", "from"), (r"\bchanges\b", "changes_limit"),
       (r"Range", "Exact"), (r"unwrap_or\(", "xor(Some("), (r"\.count\(\)", ".count() + 1"), (r"\.len\(\)", ".len() - 1"), (r"\.len\(\)", ".capacity()"),
       (r"Equal\b", "Less"), (r"\.filter\(\|", ".skip_while(|"), (r"\.chars\(\)", ".chars().skip(1)"), (r"\bid\b", "serialization_id"), (r"u32", "u16"), (r"u64", "u32"),
       (r"\.iter\(\)", ".iter().skip(1)"), (r"\.enumerate\(\)", ".enumerate().skip(1)"), (r"\.copied\(\)", ".copied().skip(1)"), (r"\.values\(\)", ".values().skip(1)"),
       (r"\.keys\(\)", ".keys().take(1)"), (r"\ba\b", "b"), (r"\bb\b", "a"), (r"swap_remove", "remove"), (r"\.contains_key\(", ".is_empty() && !self.active.contains_key("),
       (r"\bsome_other\b", ""), (r"cummulative_weight \* ", ""), (r"\bNone => continue", "None => break"), (r"index \+ 1", "index"), (r"\bi\b", "i + 1"),
       (r"Some\(v\) => v", "Some(v) if false => v"), (r"\?;", ".unwrap();"), (r"\.ok\(\)\?", ".unwrap()"), (r"return None", "panic!()"), (r"\binput\b", "new_input")]


def mutants(files):
    out = []
    for f in files:
        t = open("/repo/" + f).read()
        t = t.split("#[cfg(test)]")[0] if "#[cfg(test)]\nmod" in t else t
        pos = 0
        for ln in t.split("\n"):
            s = ln.strip()
            start, pos = pos, pos + len(ln) + 1
            if not s or s.startswith(("//", "#[", "#!", "use ", "pub use", "mod ", "pub mod", "impl", "where", "pub fn", "fn ", "println!", "pub struct", "struct")):
                continue
            code = ln.split("//")[0]
            for i, (p, r) in enumerate(OPS):
                for m in re.finditer(p, code):
                    out.append((f, start + m.start(), start + m.end(), m.expand(r) if "\\" in r else r))
            for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
                out.append((f, start + m.start(), start + m.end(), str(int(m.group(1)) + 1)))
            for m in re.finditer(r'"[^"]+"', code):
                out.append((f, start + m.start(), start + m.end(), m.group(0)[:-1] + 'x"'))
            m = re.match(r"(\s*)(if|while) (?!let)(.*) \{$", code)
            if m:
                out.append((f, start, start + len(code), "%s%s !(%s) {" % m.groups()))
            if s.endswith(";") and not s.startswith(("let ", "return", "}", ")", ".", "type", "pub", "const", "static")) and "(" not in s.split(";")[0][:0]:
                out.append((f, start, start + len(ln), ""))
            if s.startswith(".") and s.endswith(")"):
                out.append((f, start, start + len(ln), ""))
    return list(dict.fromkeys(out))


lock = threading.Lock()
free = list(range(J))


def work(m):
    with lock:
        k = free.pop()
    try:
        return m, work1(m, k)
    except Exception as x:
        return m, "error %s" % x
    finally:
        with lock:
            free.append(k)


def work1(m, k):
    f, a, b, new = m
    w = "%s%d" % (W, k)
    repo, build, mir = w + "/repo", w + "/build", w + "/mir.json"
    os.makedirs(repo, exist_ok=True)
    subprocess.run("rm -r %s/src 2>/dev/null; for x in $(ls -A /repo | grep -v '^target$\\|^.git$'); do cp -a /repo/$x %s/; done" % (repo, repo), shell=True, check=True)
    t = open("/repo/" + f).read()
    open(repo + "/" + f, "w").write(t[:a] + new + t[b:])
    env = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=build)
    r = subprocess.run([sys.executable, "-c", "import sys; sys.path.insert(0,%r); import bootstrap,shutil; m=bootstrap.ensure(); shutil.move(m,%r)" % (V + "/engine", mir)], env=env, capture_output=True, text=True)
    if r.returncode:
        return "nobuild"
    near = [p["id"] for p in PROPS if p["id"] in CLAIMED and any(f in json.dumps(p) for f in [f])]
    for i in near + [c for c in CLAIMED if c not in near]:
        c = subprocess.run([sys.executable, "-c", """
import sys; sys.dont_write_bytecode=True; sys.path[:0]=[%r,%r]
import cli
R=cli.run_rule(%r,%r,"quick")
for v in R.viol[:1]: print(v["key"],"|",v["at"],"|",v["detail"][:200])
""" % (V + "/engine", V + "/rules", i, mir)], capture_output=True, text=True, timeout=900)
        if c.stdout.strip():
            return "caught " + i + " " + c.stdout.strip()[:250]
        if c.returncode:
            return "error " + c.stderr[-200:]
    return "SURVIVED"


if __name__ == "__main__":
    av = sys.argv[1:]
    n, seed = None, 1
    while av and av[0][0] == "-":
        if av[0] == "-n":
            n = int(av[1])
        if av[0] == "-s":
            seed = int(av[1])
        av = av[2:]
    files = av or sorted(x for x in subprocess.run("cd /repo; ls src/*.rs src/*/*.rs", shell=True, capture_output=True, text=True).stdout.split() if not x.endswith(("main.rs", "mod.rs", "preprocessor.rs")))
    ms = mutants(files)
    random.Random(seed).shuffle(ms)
    if n:
        ms = ms[:n]
    print(len(ms), "mutants", flush=True)
    count = {}
    with cf.ThreadPoolExecutor(J) as ex:
        for fu in cf.as_completed([ex.submit(work, m) for m in ms]):
            m, r = fu.result()
            count[r.split()[0]] = count.get(r.split()[0], 0) + 1
            if r == "nobuild":
                continue
            f, a, b, new = m
            t = open("/repo/" + f).read()
            line = t[:a].count("\n") + 1
            ls, le = t.rfind("\n", 0, a) + 1, t.find("\n", b)
            print("%s | %s:%d | %s  ==>  %s" % (r, f, line, t[ls:le].strip(), (t[ls:a] + new + t[b:le]).strip()), flush=True)
    print(count)
