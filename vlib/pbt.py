"""Property-based testing over choice sequences, for properties of programs and scripts.

The Python twin of harness/pbt.h: a property draws every decision from a source S,
failures shrink by simplifying the recorded draws, and the replay file is those draws.
"""
import hashlib, json, multiprocessing, os, random, shutil, subprocess, sys, tempfile, time, traceback

class Failure(Exception):
    pass

class Discard(Exception):
    pass

class S:
    def __init__(self, rng=None, rep=None, known=(), thorough=False, tmp=None):
        self.rng, self.rep, self.rec = rng, rep, []
        self.nt, self.labels, self.log = False, [], []
        self.known, self.hit_known, self.thorough, self.tmp = set(known), [], thorough, tmp
    def below(self, n):
        if n <= 1: return 0
        if self.rep is not None:
            i = len(self.rec)
            v = self.rep[i] % n if i < len(self.rep) else 0
        else:
            v = self.rng.randrange(n)
        self.rec.append(v)
        return v
    def range(self, lo, hi): return lo + self.below(hi - lo + 1)
    def coin(self, num=1, den=2): return self.below(den) >= den - num
    def size(self, lo, hi):
        if hi <= lo: return lo
        if self.coin(): return self.range(lo, hi)
        return self.range(lo, min(hi, lo + 3))
    def pick(self, seq): return seq[self.below(len(seq))]
    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.below(i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq
    def label(self, l): self.labels.append(l)
    def nontrivial(self, b=True):
        if b: self.nt = True
    def note(self, *a): self.log.append(" ".join(str(x) for x in a))
    def finding(self, fid, what):
        if fid in self.known:
            self.hit_known.append(fid); raise Discard()
        raise Failure("[%s] %s" % (fid, what))
    def check(self, cond, msg):
        if not cond: raise Failure(msg() if callable(msg) else str(msg))

class Prop:
    def __init__(self, name, fn, quick, thorough):
        self.name, self.fn, self.quick, self.thorough = name, fn, quick, thorough

def run(cmd, inp=None, cwd=None, timeout=120, env=None):
    """Run a program; text in latin-1 so that any byte survives. A crash is reported by rc < 0."""
    e = dict(os.environ, LC_ALL="C.UTF-8"); e.update(env or {})
    try:
        r = subprocess.run(cmd, input=inp.encode("utf-8") if isinstance(inp, str) else inp, cwd=cwd, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Failure("did not terminate within %d s: %s" % (timeout, cmd))
    class R: pass
    o = R(); o.rc = r.returncode; o.raw = r.stdout
    o.out = r.stdout.decode("utf-8", "replace"); o.err = r.stderr.decode("utf-8", "replace")
    return o

def one(prop, s):
    """(status, message): status 0 ok, 1 failed, 2 discarded"""
    s.tmp = tempfile.mkdtemp(prefix="c", dir=s.tmp)
    try:
        prop.fn(s)
        return 0, ""
    except Discard:
        return 2, ""
    except Failure as f:
        return 1, str(f)
    except Exception:
        return 3, traceback.format_exc()      # a bug of the harness, not of the code under test
    finally:
        shutil.rmtree(s.tmp, ignore_errors=True)

def seed_of(seed, name, i):
    return int.from_bytes(hashlib.sha1(("%d/%s/%d" % (seed, name, i)).encode()).digest()[:8], "big")

_ctx = {}
def _batch(arg):
    lo, hi = arg
    prop, seed, known, thorough, tmp = _ctx["a"]
    r = dict(evals=0, nontriv=0, discards=0, distinct=[], labels={}, known={}, samples=[], fail=None, err=None)
    for i in range(lo, hi):
        s = S(random.Random(seed_of(seed, prop.name, i)), None, known, thorough, tmp)
        st, msg = one(prop, s)
        if st == 1:
            r["fail"] = (i, msg, s.rec, "\n".join(s.log)); return r
        if st == 3:
            r["err"] = msg + "\n" + "\n".join(s.log); return r
        r["evals"] += 1
        for k in s.hit_known: r["known"][k] = r["known"].get(k, 0) + 1
        if st == 2:
            r["discards"] += 1; continue
        for l in set(s.labels): r["labels"][l] = r["labels"].get(l, 0) + 1
        if s.nt:
            r["nontriv"] += 1
            r["distinct"].append(hashlib.sha1(repr(s.rec).encode()).hexdigest()[:12])
            if len(r["samples"]) < 1: r["samples"].append("\n".join(s.log)[:700])
    return r

def attempt(prop, rec, known, thorough, tmp):
    s = S(None, rec, known, thorough, tmp)
    st, msg = one(prop, s)
    return (st == 1), msg, s.rec, "\n".join(s.log)

def shrink(prop, rec, known, thorough, tmp, msg, log, budget=500, wall=60):
    t0, used, best = time.time(), 0, list(rec)
    def better(a, b): return (len(a), a) < (len(b), b)
    state = dict(best=best, msg=msg, log=log, used=0)
    def go(c):
        if state["used"] >= budget or time.time() - t0 > wall: return False
        state["used"] += 1
        bad, m, u, l = attempt(prop, c, known, thorough, tmp)
        if not bad: return False
        nb = u if len(u) <= len(c) else c
        if not better(nb, state["best"]): return False
        state.update(best=nb, msg=m, log=l); return True
    progress = True
    while progress and state["used"] < budget and time.time() - t0 < wall:
        progress = False
        k = 32
        while k >= 1:
            i = len(state["best"]) - k
            while i >= 0:
                b = state["best"]
                if i + k <= len(b):
                    if go(b[:i] + b[i + k:]): progress = True
                    elif i > 0 and b[i - 1] > 0 and go(b[:i - 1] + [b[i - 1] - 1] + b[i + k:]): progress = True
                i -= 1 if k <= 4 else k // 2
            k //= 2
        for i in range(len(state["best"])):
            b = state["best"]
            if i < len(b) and b[i]:
                if go(b[:i] + [0] + b[i + 1:]): progress = True; continue
                lo = 0
                while i < len(state["best"]) and state["best"][i] > lo and state["used"] < budget:
                    b = state["best"]; mid = lo + (b[i] - lo) // 2
                    if go(b[:i] + [mid] + b[i + 1:]): progress = True
                    else: lo = mid + 1
    return state["best"], state["msg"], state["log"]

def run_props(modname, props, seed, thorough, known, replay_dir, scratch, jobs=8, only=None, max_s=560, scale=1.0):
    out, t0, failed = [], time.time(), False
    for p in props:
        if only and p.name != only: continue
        n = max(1, int((p.thorough if thorough else p.quick) * scale)); B = max(1, min(20, n // (jobs * 4) or 1))
        _ctx["a"] = (p, seed, known, thorough, scratch)
        tot = dict(prop=p.name, evals=0, nontrivial=0, distinct=set(), discards=0, labels={}, known={}, samples=[], failed=False, msg="", replay="")
        pt0 = time.time(); fail = None
        with multiprocessing.Pool(jobs) as pool:
            for r in pool.imap(_batch, [(i, min(n, i + B)) for i in range(0, n, B)]):
                if r["err"]: pool.terminate(); raise RuntimeError("harness error in %s:\n%s" % (p.name, r["err"]))
                tot["evals"] += r["evals"]; tot["nontrivial"] += r["nontriv"]; tot["discards"] += r["discards"]
                tot["distinct"].update(r["distinct"])
                for k in ("labels", "known"):
                    for a, b in r[k].items(): tot[k][a] = tot[k].get(a, 0) + b
                if len(tot["samples"]) < 2: tot["samples"] += r["samples"]
                if r["fail"]:
                    fail = r["fail"]; pool.terminate(); break
                if time.time() - t0 > max_s:
                    tot["truncated"] = True; pool.terminate(); break
        if fail:
            i, msg, rec, log = fail
            rec, msg, log = shrink(p, rec, known, thorough, scratch, msg, log)
            path = os.path.join(replay_dir, "%s-%s.replay" % (modname, p.name))
            with open(path, "w") as f:
                f.write(json.dumps(dict(module=modname, prop=p.name, seed=seed, thorough=thorough, choices=rec)) + "\n--- what fails\n%s\n--- case\n%s\n" % (msg, log))
            tot.update(failed=True, msg=msg, replay=path); failed = True
        tot["distinct"] = len(tot["distinct"]); tot["wall"] = time.time() - pt0
        out.append(tot)
        if failed: break
    return dict(harness=modname, props=out, wall=time.time() - t0)

def replay(props, path, known, scratch):
    d = json.loads(open(path).readline())
    for p in props:
        if p.name == d["prop"]:
            bad, msg, _, log = attempt(p, d["choices"], known, d["thorough"], scratch)
            return bad, msg, log
    raise RuntimeError("no property " + d["prop"])
