#!/usr/bin/env python3
"""mutate.py PROP[,PROP] FILE[:from-to] ... [-n MAX] [-w WORKERS] [-s SEED]

Measures a check: makes small random changes to copies of /repo's FILEs (relative to
src/, or to the top for script/...), runs the harnesses of PROP against each (a private mount
of the copy over /repo) and prints the changes that go unnoticed. Works under /tmp only.
"""
import argparse, importlib, json, os, random, re, shutil, subprocess, sys, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
OPS = [(r"(?<![<>=!-])<(?![<>=])(?= *[\w(])", ["<=", ">"]), (r"<=", ["<"]), (r"(?<![->])>(?![>=])(?= *[\w(-])", [">=", "<"]), (r">=", [">"]), (r"==", ["!="]), (r"!=", ["=="]),
       (r"(?<=[\w)\]] )\+(?= [\w(])|(?<=[\w)\]])\+(?=[\w(])", ["-"]), (r"(?<=[\w)\]] )-(?= [\w(])|(?<=[\w)\]])-(?=[\w(])", ["+"]), (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
       (r"\b0\b(?![.x])", ["1"]), (r"\b1\b(?!\.)", ["0", "2"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<=[\w)\]] )\*(?= [\w(])|(?<=[\w)\]])\*(?=[\w(])", ["/"]), (r"\bmax\(", ["min("]), (r"\bmin\(", ["max("]),
       (r"\bcontinue;", [";"]), (r"\bbreak;", [";"]), (r"\+\+", ["--"]), (r"\bif *\((?=.*\))", ["if(!", ])]
def mutants(path, text, lo, hi):
    out, pos, comment = [], 0, False
    for n, line in enumerate(text.split("\n"), 1):
        st = line.strip(); ok = lo <= n <= hi and st and not st.startswith(("//", "#", "*", "using", "template", "namespace", "THROW", "PRINT")) and "PRINT_DEBUG" not in line and "cerr" not in line and "THROW" not in line and "assert" not in line
        if "/*" in line: comment = "*/" not in line; ok = False
        elif "*/" in line: comment = False; ok = False
        if ok and not comment:
            code = line.split("//")[0] if '"' not in line else line
            for rx, subs in OPS:
                if rx.startswith(r"\bif"):
                    m = re.search(r"\bif *\(", code)
                    if m and code.count("(") == code.count(")"):
                        i = m.end(); d = 1; j = i
                        while j < len(code) and d: d += {"(": 1, ")": -1}.get(code[j], 0); j += 1
                        if not d: out.append((path, n, line, line[:i] + "!(" + line[i:j - 1] + ")" + line[j - 1:]))
                    continue
                for m in re.finditer(rx, code):
                    if "template" in code or re.search(r"(vector|map|pair|set|shared_ptr|cast|SparsePair)\s*<[^;]*$", code[:m.end()]) and rx.find("<") >= 0 and "<" in m.group(): continue
                    for s in subs: out.append((path, n, line, line[:m.start()] + s + line[m.end():]))
            if re.match(r"^[\w\[\]().>*-]+\s*(=|\+=|-=|\(|\.push_back|\.insert).*;$", st) and not re.match(r"^(return|delete|case|typedef)", st) and "(" + "" not in st[:0]:
                out.append((path, n, line, re.match(r"\s*", line).group() + ";"))
    return out
def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("files", nargs="+"); ap.add_argument("-n", type=int, default=60); ap.add_argument("-w", type=int, default=4); ap.add_argument("-s", type=int, default=1); ap.add_argument("--run"); a = ap.parse_args()
    from checks import CHECKS
    parts = [p for x in a.prop.split(",") for p in CHECKS[x]["parts"]]
    if a.run:                                              # inside the mount
        from vlib import build
        for i, (kind, name, variant) in enumerate(parts):
            try:
                if kind == "cxx": exe = [build.harness(name, variant)]
            except build.BuildError: sys.exit(7)
            out = a.run + ".json"
            if kind == "cxx": cmd = exe + ["--seed", "1", "--tier", "quick", "--out", out, "--replay-dir", a.run + ".rp", "--scratch", a.run + ".d"]
            else: cmd = [sys.executable, os.path.join(V, "tools", "pyrun.py"), name, "--out", out]
            import check
            r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=check.env_asan())
            if r.returncode == 7: sys.exit(7)
            try: d = json.load(open(out))
            except Exception: sys.exit(3)
            bad = [p["prop"] for p in d["props"] if p["failed"]]
            if bad: print("KILLED", name, bad); sys.exit(1)
        sys.exit(0)
    files, every = {}, []
    for f in a.files:
        name, _, rng = f.partition(":"); lo, hi = (map(int, rng.split("-")) if rng else (1, 10 ** 6)); p = ("" if name.startswith("script/") else "src/") + name
        files[p] = open("/repo/" + p, encoding="latin-1").read(); every += mutants(p, files[p], lo, hi)
    random.Random(a.s).shuffle(every); every = every[:a.n]; print(len(every), "mutants"); lock = threading.Lock(); res = dict(killed=0, survived=0, invalid=0, timeout=0)
    def work(i):
        root, bd = "/tmp/mut/r%d" % i, "/tmp/mut/b%d" % i
        for d in (root, bd): shutil.rmtree(d, ignore_errors=True)
        os.makedirs("/tmp/mut", exist_ok=True); subprocess.run(["cp", "-a", "/repo", root], check=True); subprocess.run(["cp", "-al", V + "/.build", bd], check=True)
        while True:
            with lock:
                if not every: break
                p, n, old, new = every.pop()
            lines = files[p].split("\n"); lines[n - 1] = new; open(root + "/" + p, "w", encoding="latin-1").write("\n".join(lines))
            tag = "/tmp/mut/t%d" % i; cmd = "mount --bind %s /repo && exec timeout 400 %s %s %s x --run %s" % (root, sys.executable, os.path.abspath(__file__), a.prop, tag)
            r = subprocess.run(["unshare", "-Urm", "bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=dict(os.environ, VERIF_BUILD=bd, VERIF_JOBS="3"))
            k = {0: "survived", 1: "killed", 7: "invalid"}.get(r.returncode, "timeout")
            if r.returncode == 1 and "KILLED" not in r.stdout: k = "invalid"; print(r.stderr[-300:])
            with lock:
                res[k] += 1
                if k in ("survived", "timeout"): print("%s %s:%d\n   - %s\n   + %s" % (k.upper(), p, n, old.strip(), new.strip()), flush=True)
            open(root + "/" + p, "w", encoding="latin-1").write(files[p])
        for d in (root, bd): shutil.rmtree(d, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(a.w)]
    [t.start() for t in ts]; [t.join() for t in ts]; print(res)
main()
