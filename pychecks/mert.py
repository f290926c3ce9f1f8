"""C30: mert-travatar.pl, the loop that decodes and tunes in turns, run as a whole on small models."""
import os, re, shlex, signal, stat, subprocess
from collections import OrderedDict, defaultdict
from vlib import pbt
from vlib.pbt import Prop, Failure, run

REPO = None
BIN = {}
def prepare(build):
    global REPO
    REPO = build.REPO
    for p in ("travatar", "batch-tune", "mt-evaluator"): BIN[p] = build.program(p)
def sc(*a): return os.path.join(REPO, "script", *a)
def write(path, text, x=False):
    with open(path, "w", encoding="utf-8", newline="\n") as f: f.write(text)
    if x: os.chmod(path, 0o755)
    return path
def read(path):
    with open(path, encoding="utf-8", newline="\n") as f: return f.read()
def txt(ls): return "".join(l + "\n" for l in ls)
def must(r, what):
    if r.rc != 0: raise Failure("%s exits with %d: %s" % (what, r.rc, r.err[-1500:]))
    return r.out
ENV = {"PERL_HASH_SEED": "0", "PERL_PERTURB_KEYS": "0"}
SRC = ["a", "b", "c", "d", "é"]
TRG = ["A", "B", "C", "D", "の"]
FEATS = ["p", "q", "r", "w"]

def feats(s):
    f = OrderedDict()
    for n in FEATS[:3]:
        if s.coin(3, 4): f[n] = s.range(-999, 999) / 1000.0
    if not f: f["p"] = -0.5
    return f
def show(f): return " ".join("%s=%g" % kv for kv in f.items())
def model(s, d, hiero):
    """Rule tables, some of their rules of no use for the development set"""
    rules = []
    for w in SRC[:s.range(2, 5)] + (["zz"] if s.coin() else []):
        for t in s.shuffle(TRG)[:s.range(1, 3)]:
            e = [t] + ([s.pick(TRG)] if s.coin(1, 4) else [])
            q = " ".join('"%s"' % x for x in e)
            rules.append(('"%s" @ X' if hiero else 'X ( "%s" )') % w + " ||| %s @ X ||| %s" % (q, show(feats(s))))
    for order in ("x0:X %s x1:X", "x1:X %s x0:X"):
        for _ in range(s.range(0 if order[1] == "1" else 1, 2)):
            m = '"%s"' % s.pick(TRG) if s.coin(1, 4) else ""
            t = " ".join((order % m).split())
            if hiero: rules.append("x0:X x1:X @ X ||| %s @ X ||| %s" % (t, show(feats(s))))
            else: rules.append("S ( x0:X x1:S ) ||| %s @ S ||| %s" % (t.replace("x1:X", "x1:S"), show(feats(s))))
    if hiero:
        rules.append("x0:X @ S ||| x0:X @ S ||| %s" % show(feats(s)))
        if s.coin(): rules.append("x0:X x1:S @ S ||| x0:X x1:S @ S ||| glue=1")
        if s.coin(): rules.append('"a" x0:X @ X ||| x0:X "A" @ X ||| %s' % show(feats(s)))
    else:
        rules.append("S ( x0:X ) ||| x0:X @ S ||| %s" % show(feats(s)))
        if s.coin(): rules.append('S ( X ( "a" ) x0:S ) ||| x0:S "A" "B" @ S ||| %s' % show(feats(s)))
    rules = list(OrderedDict.fromkeys(rules)); src = lambda r: r.split(" ||| ")[0]
    rules.sort(key=src)
    seen = set(); rules = [r for r in rules if not (tuple(r.split(" ||| ")[:2]) in seen or seen.add(tuple(r.split(" ||| ")[:2])))]
    names = ["rule-table"] if not hiero or s.coin() else ["rule-table", "glue-rules"]
    cut = len(rules) if len(names) == 1 else s.range(1, len(rules) - 1)
    parts = [rules[:cut], rules[cut:]][:len(names)]
    for n, p in zip(names, parts): write(d + "/" + n, txt(p))
    return [d + "/" + n for n in names], rules
def setup(s, d):
    hiero = s.coin(); tms, rules = model(s, d, hiero); N = s.range(1, 4); src, ref = [], []
    for _ in range(N):
        ws = [s.pick(SRC) for _ in range(s.range(1, 4))]
        if hiero: src.append(" ".join(ws))
        else: src.append("".join("(S (X %s) " % w for w in ws[:-1]) + "(S (X %s))" % ws[-1] + ")" * (len(ws) - 1))
        ref.append(" ".join(s.pick(TRG) for _ in range(max(1, len(ws) + s.range(-1, 1)))))
    w = OrderedDict((n, "%g" % (s.range(-99, 99) / 50.0)) for n in s.shuffle(FEATS[:3]) if s.coin(3, 4))
    if not w: w["p"] = "1"
    if s.coin(1, 3): w["unk"] = "-1"
    if s.coin(1, 4): w["lm"] = "0.5"; write(d + "/lm.arpa", ARPA)
    conf = ["[tm_file]"] + tms + [""]
    if "lm" in w: conf += ["[lm_file]", d + "/lm.arpa", ""]
    if hiero: conf += ["[tm_storage]", "fsm", "", "[in_format]", "word", ""] if s.coin() else ["[tm_storage]", "fsm", ""]
    if len(tms) == 2: conf += ["[hiero_span_limit]", "20", "1000", ""]
    given_fmt = hiero and "[in_format]" not in conf
    if not hiero and s.coin(1, 3): conf += ["[tm_storage]", "hash", ""]
    tail = (["[search]", "cp", ""] if s.coin() else []) + ["[pop_limit]", "200"]
    last = s.coin(1, 3)
    conf += (tail + [""] if last else []) + ["[weight_vals]"] + ["%s=%s" % kv for kv in w.items()] + ([""] + tail if not last else [])
    write(d + "/ini", txt(conf)); write(d + "/src", txt(src)); write(d + "/ref", txt(ref))
    s.note("config\n" + txt(conf)); s.note("source\n" + txt(src)); s.note("references\n" + txt(ref)); s.note("rules\n" + txt(rules))
    fmt = "word" if hiero else "penn"
    o = dict(hiero=hiero, fmt=fmt, nbest=s.pick([1, 2, 3, 5, 20]), iters=s.range(1, 4), cand=s.pick(["nbest", "nbest", "nbest", "forest"]), eval=s.pick(["bleu:smooth=1", "bleu:smooth=1", "bleu", "ribes", "ter", "interp:0.5|bleu:smooth=1|0.5|ribes"]), weights=w, src=src, ref=ref, conf=conf, tms=tms)
    o["passfmt"] = given_fmt or s.coin(1, 3); o["filter"] = s.coin(2, 3); o["threads"] = s.range(1, 2)
    o["tune"] = "-rand_seed %d -restarts %d" % (s.range(1, 9), s.range(0, 3)) + s.pick(["", "", " -weight_ranges '-1|1'"])
    o["dec"] = s.pick(["", "", "-nbest_uniq true"])
    return o
ARPA = "\\data\\\nngram 1=8\nngram 2=3\n\n\\1-grams:\n-1.5\t<unk>\n-99\t<s>\t-0.5\n-1\t</s>\n-0.53\tA\t-0.25\n-0.71\tB\t-0.21\n-1.57\tC\t-0.13\n-1.23\tD\t-0.3\n-1.11\tの\t-0.1\n\n\\2-grams:\n-0.25\tA B\n-0.5\tC A\n-0.3\t<s> D\n\n\\end\\\n"
def travdir(d):
    """A travatar directory whose programs are the ones built from the tree under test"""
    t = d + "/tv"; os.makedirs(t + "/src/bin"); os.symlink(os.path.join(REPO, "script"), t + "/script")
    for b in BIN: os.symlink(BIN[b], t + "/src/bin/" + b)
    return t
def command(o, d, tv, work, **over):
    q = dict(o, **over)
    c = ["perl", sc("mert", "mert-travatar.pl"), "-travatar-dir", tv, "-working-dir", work, "-src", d + "/src", "-ref", d + "/ref", "-travatar-config", d + "/ini", "-nbest", str(q["nbest"]), "-max-iters", str(q["iters"]), "-cand-type", q["cand"], "-eval", q["eval"], "-threads", str(q["threads"]), "-tune-options", q["tune"]]
    if q["dec"]: c += ["-decoder-options", q["dec"]]
    if q["passfmt"]: c += ["-in-format", q["fmt"]]
    if not q["filter"]: c += ["-no-filter-rt"]
    return c
def section(text, name):
    """The lines of a section of a configuration, and the text without it"""
    out, rest, inside = [], [], False
    for l in text.split("\n"):
        if l == "[%s]" % name: inside = True; continue
        if inside and not l: inside = False; continue
        (out if inside else rest).append(l)
    while rest and rest[-1] == "": rest.pop()
    return out, rest
def wmap(ls): return OrderedDict((l.split("=")[0], float(l.split("=")[1])) for l in ls)
def wfile(path): return OrderedDict((x.split("=")[0], float(x.split("=")[1])) for x in read(path).split())
def entry(l): c = l.split(" ||| "); return (c[0], c[1], tuple(sorted(c[3].split(" "))))
def fv(t): return dict((x.rsplit("=", 1)[0], float(x.rsplit("=", 1)[1])) for x in t.split() if x)
def near_dict(a, b, eps=1e-9): return all(abs(a.get(k, 0) - b.get(k, 0)) <= eps * (1 + abs(a.get(k, 0))) for k in set(a) | set(b))
def corpus_score(o, d, cands, w, best):
    """The score of the candidates chosen by the weights; ties go to the better (or worse) choice as asked"""
    pick = []
    for i in range(len(o["ref"])):
        c = cands.get(i, [])
        if not c: return None
        v = [sum(w.get(k, 0) * x for k, x in f.items()) for _, f in c]; m = max(v)
        pick.append(sorted(set(h for (h, _), x in zip(c, v) if x >= m - 1e-4 * (1 + abs(m)))))
    combos = [[]]
    for p in pick:
        combos = [c + [h] for c in combos for h in p]
        if len(combos) > 24: return None
    sys_ = [write("%s/sys%d" % (d, k), txt(c)) for k, c in enumerate(combos)]; got = []
    for k in range(0, len(sys_), 8):
        out = must(run([BIN["mt-evaluator"], "-ref", d + "/ref", "-eval", o["eval"]] + sys_[k:k + 8]), "mt-evaluator")
        got += scores(out)
    if len(got) != len(sys_): raise RuntimeError("cannot read the scores: %r" % out)
    return max(got) if best else min(got)
def scores(out):
    r = []
    for l in out.split("\n"):
        m = re.search(r"(?:^|\s)(?:\w+ = )(-?[\d.]+(?:e-?\d+)?)", l)
        if m: r.append(float(m.group(1)))
    return r
def whole_run(cmd, work):
    r = run(cmd, env=ENV)
    if r.rc != 0:
        logs = [f for f in sorted(os.listdir(work)) if f.endswith((".log", ".err"))] if os.path.isdir(work) else []
        raise Failure("mert-travatar.pl exits with %d: %s\n%s" % (r.rc, r.err[-400:], "\n".join(f + ": " + read(work + "/" + f)[-300:] for f in logs[-3:])))
def p_loop(s):
    d = s.tmp; o = setup(s, d); tv = travdir(d); work = d + "/work"; cmd = command(o, d, tv, work); s.note(" ".join(cmd))
    whole_run(cmd, work)
    k = max(int(m.group(1)) for f in os.listdir(work) for m in [re.match(r"run(\d+)\.out$", f)] if m)
    s.note("iterations: %d" % k); s.label("%d iterations" % k); s.label(o["cand"])
    inis = {i: read("%s/run%d.ini" % (work, i)) for i in range(1, k + 2)}; ws = {i: wmap(section(inis[i], "weight_vals")[0]) for i in inis}
    for i in inis: s.note("weights %d: %s" % (i, dict(ws[i])))
    s.check(near_dict(ws[1], {a: float(b) for a, b in o["weights"].items()}), "the first iteration does not start from the given weights: %s" % ws[1])
    # what is left in the end
    fin = read(work + "/travatar.ini"); fw, frest = section(fin, "weight_vals"); _, orest = section(txt(o["conf"]), "weight_vals")
    s.check([l for l in frest if l] == [l for l in orest if l], lambda: "the final configuration differs in more than its weights\n%s\n%s" % (frest, orest))
    nz = lambda w: {a: b for a, b in w.items() if b}
    s.check(dict(wmap(fw)) == dict(ws[k + 1]) and nz(ws[k + 1]) == nz(wfile("%s/run%d.weights" % (work, k + 1))), "final weights %s, tuned %s" % (dict(wmap(fw)), dict(ws[k + 1])))
    s.check("Best" in read(work + "/tune.best"), "no best score is kept")
    # stopping
    diff = lambda i: sum(abs(v - ws[i + 1].get(n, 0)) for n, v in ws[i].items())
    for i in range(1, k): s.check(diff(i) >= 0.001 - 1e-9, "iteration %d went on although the weights did not change" % i)
    s.check(k == o["iters"] or diff(k) < 0.001 + 1e-9, "stopped after %d of %d iterations with a change of %g" % (k, o["iters"], diff(k)))
    s.check(k <= o["iters"], "%d iterations" % k)
    # every iteration
    seen, cands, prev = set(), defaultdict(list), None
    for i in range(1, k + 1):
        base = "%s/run%d" % (work, i); args = ["-config_file", base + ".ini", "-in_format", o["fmt"]] + o["dec"].split()
        if i > 1: s.check(nz(ws[i]) == nz(wfile(base + ".weights")), "the weights of iteration %d are not the tuned ones" % i)
        if o["cand"] == "nbest":
            nb = read(base + ".nbest").split("\n")[:-1]; again = d + "/again"
            must(run([BIN["travatar"]] + args + ["-nbest", str(o["nbest"]), "-nbest_out", again], read(d + "/src")), "travatar")
            s.check(read(again).split("\n")[:-1] == nb, "the n-best list of iteration %d is not that of its weights" % i)
            # the unfiltered tables give the same scores
            write(d + "/full.ini", inis[i].replace(work + "/filtered/", d + "/")); whole = d + "/whole"
            must(run([BIN["travatar"], "-config_file", d + "/full.ini"] + args[2:] + ["-nbest", str(o["nbest"]), "-nbest_out", whole], read(d + "/src")), "travatar")
            sco = lambda ls: sorted((int(l.split(" ||| ")[0]), round(float(l.split(" ||| ")[2]), 4)) for l in ls); A, B = sco(nb), sco(read(whole).split("\n")[:-1])
            s.check(len(A) == len(B) and all(x[0] == y[0] and abs(x[1] - y[1]) < 2e-4 * (1 + abs(y[1])) for x, y in zip(A, B)), lambda: "filtering changes the scores of iteration %d\n%s\n%s" % (i, A, B))
            uniq = read(base + ".uniq").split("\n")[:-1]; want = []
            for l in nb:
                if entry(l) not in seen: seen.add(entry(l)); want.append(l)
            s.check(uniq == want, lambda: "new candidates of iteration %d\n%s\nexpected\n%s" % (i, txt(uniq), txt(want)))
            for l in want: c = l.split(" ||| "); cands[int(c[0])].append((c[1], fv(c[3])))
            a, b = corpus_score(o, d, cands, ws[i], False), corpus_score(o, d, cands, ws[i + 1], True)
            if a is not None and b is not None:
                s.note("iteration %d: %g -> %g" % (i, a, b)); s.label("scored")
                s.check(b >= a - 2e-4 * (1 + abs(a)), "the candidates so far score %g with the weights of iteration %d and %g after tuning" % (a, i, b))
                if b > a + 1e-3: s.label("better")
        # tuning again, from the present weights over all that was gathered
        given = base + ".weights"; s.check(near_dict(nz(ws[i]), nz(wfile(given)), 1e-5), "the weights tuning starts from are not those of iteration %d" % i); files = ",".join("%s/run%d.%s" % (work, j, "uniq" if o["cand"] == "nbest" else "forest") for j in range(1, i + 1))
        if s.coin(2, 3):
            out = must(run([BIN["batch-tune"], "-threads", "1", "-nbest" if o["cand"] == "nbest" else "-forest", files, "-eval", o["eval"], "-weight_in", given] + (["-stat_in", ",".join("%s/run%d.stats" % (work, j) for j in range(1, i + 1))] if o["cand"] == "nbest" else []) + shlex.split(o["tune"]) + [d + "/ref"]), "batch-tune"); write(d + "/tuned", out); s.label("tuned again")
            s.check(near_dict(nz(wfile(d + "/tuned")), nz(wfile("%s/run%d.weights" % (work, i + 1))), 1e-3), lambda: "tuning from the weights of iteration %d gives %s, in the loop %s" % (i, dict(wfile(d + "/tuned")), dict(wfile("%s/run%d.weights" % (work, i + 1)))))
    s.check(read(work + "/last.out") == read("%s/run%d.out" % (work, k)), "last.out is not the last output")
    # threads
    if s.coin(1, 4):
        must(run(command(o, d, tv, d + "/w2", threads=3 - o["threads"]), env=ENV), "mert-travatar.pl"); s.label("threads")
        s.check(read(d + "/w2/travatar.ini") == fin, lambda: "other weights with another number of threads\n%s\n%s" % (fin, read(d + "/w2/travatar.ini")))
    s.nontrivial(k >= 2)
# ---- interruption -------------------------------------------------------------
WRAP = """#!/bin/bash
# counts the commands of the loop; the one that is asked for writes a part of its output and fails
n=$(cat %(d)s/count); echo $((n+1)) > %(d)s/count
if [ "$n" = "%(at)d" ]; then
  %(real)s "$@" > %(d)s/part 2> /dev/null
  head -c %(bytes)d %(d)s/part
  if [ %(kill)d = 1 ]; then kill -9 0; sleep 10; fi
  exit 3
fi
exec %(real)s "$@"
"""
def p_resume(s):
    d = s.tmp; o = setup(s, d); o["iters"] = s.range(2, 4); tv = travdir(d)
    cmd = command(o, d, tv, d + "/whole"); s.note(" ".join(cmd)); whole_run(cmd, d + "/whole")
    k = max(int(m.group(1)) for f in os.listdir(d + "/whole") for m in [re.match(r"run(\d+)\.out$", f)] if m)
    at = s.below(6 * k); kill = s.coin(); b = s.pick([0, 1, 10, 40])
    bad = d + "/bad"; os.makedirs(bad + "/src/bin"); os.makedirs(bad + "/script/mert"); os.makedirs(bad + "/script/train"); write(d + "/count", "0\n")
    for f in os.listdir(sc("train")): os.symlink(sc("train", f), bad + "/script/train/" + f)
    sub = lambda real: WRAP % dict(d=d, at=at, real=real, bytes=b, kill=1 if kill else 0)
    for p in BIN: write(bad + "/src/bin/" + p, sub(BIN[p]), True)
    for f in ("nbest-uniq.pl", "update-weights.pl"): write(bad + "/script/mert/" + f, sub("perl " + sc("mert", f)), True)
    if o["filter"]: os.unlink(bad + "/script/train/filter-rule-table.py"); write(bad + "/script/train/filter-rule-table.py", sub("python3 " + sc("train", "filter-rule-table.py")), True)
    s.note("command %d %s after %d bytes" % (at, "kills everything" if kill else "fails", b))
    c2 = command(o, d, bad, d + "/part.d")
    p = subprocess.Popen(c2, env=dict(os.environ, LC_ALL="C.UTF-8", **ENV), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try: _, err = p.communicate(timeout=100)
    except subprocess.TimeoutExpired: os.killpg(p.pid, signal.SIGKILL); raise Failure("the loop does not end")
    hit = int(read(d + "/count")) > at
    if not hit: s.label("not reached"); return
    s.note(err.decode("utf-8", "replace")[-300:])
    s.check(p.returncode != 0, "a failing command is ignored")
    ended = k < o["iters"] and os.path.exists("%s/part.d/run%d.ini" % (d, k + 1))      # the weights had settled: resuming adds an iteration
    must(run(command(o, d, tv, d + "/part.d") + ["-resume"], env=ENV), "mert-travatar.pl -resume")
    a, c = read(d + "/whole/travatar.ini"), read(d + "/part.d/travatar.ini")
    if ended: s.label("after the last iteration"); return
    s.check(a == c, lambda: "stopped at command %d and resumed: other result\n%s\ninstead of\n%s" % (at, c, a))
    s.nontrivial(at > 0); s.label("killed" if kill else "failed")
PROPS = [Prop("loop", p_loop, 120, 3000), Prop("resume", p_resume, 80, 2000)]
