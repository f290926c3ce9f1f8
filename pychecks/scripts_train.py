"""C24: the rule-table training and filtering scripts, compared with models of what they state."""
import gzip, math, os, re
from collections import OrderedDict, Counter, defaultdict
from vlib import pbt
from vlib.pbt import Prop, Failure, run
from pychecks.prep import GIZA, a3

REPO = None
BIN = {}
def prepare(build):
    global REPO
    REPO = build.REPO
    for p in ("forest-extractor", "hiero-extractor", "tree-converter"):
        BIN[p] = build.program(p)
def sc(*a): return os.path.join(REPO, "script", *a)

WORDS = ["a", "b", "c", "dog", ",", ".", '"', "@", "x0", "x1:NP", "(", "100%", "=", "é", "の", "a-b", "a=b", "|", "[X]", "-LRB-", "ja", "don't", "\\", "A"]
PLAIN = ["0", "a", "b", "c", "d", "e", "dog", "é", "の", ",", "."]
LABELS = ["NP", "VP", "S", "NN", "X", "@S@", ".", "PRP$", "NP-1", "%", "ADV%d"]

def word(s): return s.pick(WORDS) if s.coin(1, 3) else s.pick(PLAIN)
def tree_src(s, n, words, depth=0):
    """A source pattern of a tree rule; n is a one-element list counting the variables."""
    lab = s.pick(LABELS)
    if depth >= 2 or s.coin(1, 3):
        w = word(s); words.append(w); return '%s ( "%s" )' % (lab, w)
    kids = []
    for _ in range(s.range(1, 3)):
        k = s.below(4)
        if k == 0: kids.append("x%d:%s" % (n[0], s.pick(LABELS))); n[0] += 1; words.append(None)
        elif k == 1: w = word(s); words.append(w); kids.append('"%s"' % w)
        else: kids.append(tree_src(s, n, words, depth + 1))
    return "%s ( %s )" % (lab, " ".join(kids))
def flat_src(s, words, labelled=True, maxlen=5):
    n, out = 0, []
    for _ in range(s.range(1, maxlen)):
        if n < 2 and s.coin(1, 4): out.append("x%d:%s" % (n, s.pick(["X", "NP"]))); n += 1; words.append(None)
        else: w = word(s); words.append(w); out.append('"%s"' % w)
    return " ".join(out) + (" @ " + s.pick(["X", "S"]) if labelled else "")
def source(s, kind, words):
    return tree_src(s, [0], words) if kind == "tree" else flat_src(s, words)
def target(s, src, words, label, allow_empty=False):
    vs = sorted(set(re.findall(r"(?:^| )x(\d+):", src)))
    toks = ["x" + v for v in vs]
    if label: toks = ["%s:%s" % (t, s.pick(["X", "NP", "%"])) for t in toks]
    for _ in range(s.range(0 if toks else 1, 3)): toks.append('"%s"' % word(s))
    toks = s.shuffle(toks)
    for t in toks: words.append(t[1:-1] if t.startswith('"') else None)
    return " ".join(toks) + (" @ " + s.pick(["NP", "@X@", "X", "V%d"]) if label else "")
def ws(words): return [w for w in words if w is not None]

def num(s):
    k = s.below(4)
    return str(s.range(1, 4)) if k < 2 else ("%g" % (s.range(1, 999999) / 1e6) if k == 2 else "%g" % (s.range(1, 40) / 8.0))

def rules(s, maxn=14, label=None, kind=None):
    """Extracted rules [(src, trg, count, alignment)] with words, in random order, many of them repeated."""
    kind = kind or s.pick(["tree", "flat"]); label = s.coin(1, 3) if label is None else label
    pool, trgs = [], []
    for _ in range(s.range(1, 4)):
        w = []; pool.append((source(s, kind, w), w))
    out = []
    for _ in range(s.size(1, maxn)):
        src, sw = s.pick(pool)
        same = [t for t in trgs if t[2] == src]
        if same and s.coin(2, 3): trg, tw, _ = s.pick(same)
        else:
            tw = []; trg = target(s, src, tw, label); trgs.append((trg, tw, src))
        ns, nt = len(ws(sw)), len(ws(tw)); al = []
        for i in range(ns):
            for j in range(nt):
                if s.coin(1, 3): al.append((i, j))
        out.append((src, trg, num(s), " ".join("%d-%d" % a for a in al), sw, tw))
    return out, kind, label
def rule_line(r): return "%s ||| %s ||| %s ||| %s" % r[:4]
def csort(lines): return sorted(lines, key=lambda l: l.encode("utf-8"))

def lex_of(s, rs, reverse=False):
    """A lexical table {(f, e): p} for P(f|e), f on the target side of the rules (the source side when reversed)."""
    lex = OrderedDict(); fs, es = set(["zz"]), set(["NULL"])
    for r in rs:
        (es if not reverse else fs).update(ws(r[4])); (fs if not reverse else es).update(ws(r[5]))
    for f in sorted(fs):
        for e in sorted(es):
            if s.coin(2, 3): lex[(f, e)] = s.range(1, 100) / 100.0 if s.coin(9, 10) else 0
    return lex
def m1(sw, tw, al, lex, aligned):
    """log probability of the target words given the source words"""
    ret = 0.0
    if aligned and al:
        links = [tuple(map(int, a.split("-"))) for a in al.split()]
        for j, f in enumerate(tw):
            ps = [lex.get((f, sw[i]), 0) for i, jj in links if jj == j]
            p = sum(ps) / len(ps) if ps else lex.get((f, "NULL"), 0)
            ret += math.log(p) if p > 0 else -20
    else:
        for f in tw:
            p = sum(lex.get((f, e), 0) for e in list(sw) + ["NULL"])
            ret += math.log(p / (len(sw) + 1)) if p > 0 else -20
    return ret

class Scored:
    pass
def score_model(rs, o, lex):
    """What score-t2s prints: {(src, trg): Scored}"""
    groups = defaultdict(OrderedDict)
    for src, trg, cnt, al, sw, tw in rs:
        e = groups[src].setdefault(trg, dict(c=0.0, al=Counter(), sw=ws(sw), tw=ws(tw)))
        e["c"] += float(cnt); e["al"][al] += float(cnt)
    ret = {}
    for src, ts in groups.items():
        tot = sum(e["c"] for e in ts.values() if e["c"] >= o["cooc"])
        if tot < o["srcmin"]: continue
        for trg, e in ts.items():
            if e["c"] < o["cooc"]: continue
            r = Scored(); r.count, r.total = e["c"], tot
            m = max(e["al"].values()); r.aligns = [a for a, c in e["al"].items() if abs(c - m) < 1e-9]
            r.fixed = {o["prefix"] + o["cond"] + "p": math.log(e["c"] / tot)}
            if o["joint"]:
                r.fixed[o["prefix"] + "p"] = 1
                if e["tw"]: r.fixed[o["prefix"] + "w"] = len(e["tw"])
            sl = src.split(" ")[0]; m = re.search(r" @ (\S+)$", trg); tl = m.group(1) if m else None
            if o["trgsyn"] and tl == "@X@": r.fixed[o["prefix"] + "isx"] = 1
            if o["sl"]: r.fixed[o["prefix"] + "sl_" + sl] = 1
            if o["tl"] and tl: r.fixed[o["prefix"] + "tl_" + tl] = 1
            if o["stl"] and tl: r.fixed[o["prefix"] + "stl_" + sl + "_" + tl] = 1
            r.lex = {a: m1(e["sw"], e["tw"], a, lex, o["aligned"]) for a in r.aligns} if lex is not None else None
            r.lexname = o["prefix"] + o["cond"] + "l"
            ret[(src, trg)] = r
    return ret
def feats(txt):
    out = {}
    for kv in txt.split():
        k, v = kv.rsplit("=", 1)
        if k in out: raise Failure("feature %s twice in %r" % (k, txt))
        out[k] = float(v)
    return out
def near(a, b, tol=2e-6): return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
def same_feats(got, want, what):
    if set(got) != set(want): raise Failure("%s: features %s, expected %s" % (what, sorted(got), sorted(want)))
    for k in want:
        if not near(got[k], want[k]): raise Failure("%s: %s=%s, expected %s" % (what, k, got[k], want[k]))
def check_score(out, model, o):
    seen, order = set(), []
    for l in out.split("\n")[:-1]:
        c = l.split(" ||| ")
        if len(c) == 4 and l.endswith(" |||"): c.append("")
        if len(c) != 5: raise Failure("%d columns in scored line %r" % (len(c), l))
        k = (c[0], c[1])
        if k not in model: raise Failure("rule that should not be there: %r" % l)
        if k in seen: raise Failure("rule printed twice: %r" % l)
        seen.add(k); order.append(k); r = model[k]
        if c[4] not in r.aligns: raise Failure("alignment %r of %r is not among the most frequent %r" % (c[4], l, r.aligns))
        want = dict(r.fixed)
        if r.lex is not None: want[r.lexname] = r.lex[c[4]]
        same_feats(feats(c[2]), want, l)
        cs = list(map(float, c[3].split()))
        if len(cs) != 2 or not near(cs[0], r.count, 1e-9) or not near(cs[1], r.total, 1e-9): raise Failure("counts of %r, expected %s %s" % (l, r.count, r.total))
    miss = set(model) - seen
    if miss: raise Failure("rule missing from the scored table: %r" % (sorted(miss)[0],))
    return order
def fof_model(model): return Counter(int(r.count) for r in model.values() if int(r.count) <= 20)
def check_fof(path, model):
    got = open(path).read().split("\n"); want = fof_model(model)
    for i in range(21):
        g = float(got[i]) if i < len(got) and got[i] else 0
        if g != want.get(i, 0): raise Failure("%s rules seen %d times according to the frequency file, expected %d" % (g, i, want.get(i, 0)))
def write(path, text):
    with open(path, "w", encoding="utf-8", newline="\n") as f: f.write(text)
    return path
def gzwrite(path, text):
    with gzip.open(path, "wb") as f: f.write(text.encode("utf-8"))
def must(r, what):
    if r.rc != 0: raise Failure("%s exits with %d: %s" % (what, r.rc, r.err[-400:]))
    return r.out

def score_opts(s, rs, kind, d):
    o = dict(cooc=s.pick([0, 0, 0, 1, 1.5, 2]), srcmin=s.pick([0, 0, 0, 2, 3]), prefix=s.pick(["", "", "t_"]), cond=s.pick(["egf", "fge"]),
             joint=s.coin(), aligned=s.coin(), trgsyn=s.coin(1, 3), sl=s.coin(1, 3) and kind == "tree", tl=s.coin(1, 3), stl=s.coin(1, 3) and kind == "tree")
    args = []
    if o["cooc"]: args += ["--cooc-min-freq", str(o["cooc"])]
    if o["srcmin"]: args += ["--src-min-freq", str(o["srcmin"])]
    if o["prefix"]: args.append("--prefix=" + o["prefix"])
    args.append("--cond-prefix=" + o["cond"])
    if o["joint"]: args.append("--joint")
    if o["aligned"]: args.append("--lex-type=aligned")
    for k, n in (("trgsyn", "trg-syntax"), ("sl", "src-label"), ("tl", "trg-label"), ("stl", "src-trg-label")):
        if o[k]: args.append("--" + n)
    return o, args
def p_score(s):
    rs, kind, label = rules(s)
    o, args = score_opts(s, rs, kind, s.tmp)
    lex = lex_of(s, rs) if s.coin(2, 3) else None
    d = s.tmp
    if lex is not None:
        args.append("--lex-prob-file=" + write(d + "/lex", "".join("%s %s %s\n" % (f, e, p) for (f, e), p in lex.items())))
    if s.coin(): args.append("--fof-file=" + d + "/fof")
    lines = csort(rule_line(r) for r in s.shuffle(rs))
    s.note("score-t2s.pl", *args); s.note("\n".join(lines))
    out = must(run(["perl", sc("train", "score-t2s.pl")] + args, "".join(l + "\n" for l in lines)), "score-t2s.pl")
    model = score_model(rs, o, lex)
    s.note("output:\n" + out)
    order = check_score(out, model, o)
    first = OrderedDict((tuple(l.split(" ||| ")[:2]), 1) for l in lines)
    s.check(order == [k for k in first if k in model], "rules are printed in another order than they came in")
    if any(a.startswith("--fof") for a in args): check_fof(d + "/fof", model)
    s.nontrivial(len(model) >= 2 and len(rs) > len(model))
    if o["aligned"] and lex: s.label("aligned lexical weights")

def p_reverse(s):
    rs, kind, label = rules(s); scored = s.coin(); lines = []
    if s.coin(): rs = [(r[0], r[1], r[2], " ".join("%d-%d" % (s.size(0, 120), s.size(0, 120)) for _ in range(s.range(0, 4)))) + tuple(r[4:]) for r in rs]; s.label("long phrases")
    for r in rs:
        if scored: lines.append("%s ||| %s ||| %s ||| %s ||| %s" % (r[0], r[1], "p=1 w=2", "1 2", r[3]))
        else: lines.append(rule_line(r))
    s.note("\n".join(lines))
    out = must(run(["perl", sc("train", "reverse-rt.pl")], "".join(l + "\n" for l in lines)), "reverse-rt.pl").split("\n")[:-1]
    want = []
    for l in lines:
        c = l.split(" ||| "); c[0], c[1] = c[1], c[0]; c[-1] = " ".join("-".join(reversed(a.split("-"))) for a in c[-1].split()); want.append(" ||| ".join(c))
    s.check(out == want, lambda: "reversed table\n%s\nexpected\n%s" % ("\n".join(out), "\n".join(want)))
    back = must(run(["perl", sc("train", "reverse-rt.pl")], "".join(l + "\n" for l in out)), "reverse-rt.pl").split("\n")[:-1]
    s.check(back == lines, "reversing twice changes the table")
    s.nontrivial(len(rs) >= 2)

def kn_discounts(fof, size=3):
    """None when they cannot be computed"""
    if len(fof) <= size + 1 or not fof[1]: return None
    den = fof[1] + 2 * fof[2]; Y = fof[1] / den; d = [0.0]
    for i in range(1, size + 1):
        if not fof[i]: return None
        d.append(max(0.0, i - (i + 1) * Y * fof[i + 1] / fof[i]))
    return d
def discounted(c, kd):
    down = int(c)
    if down >= len(kd) - 1: return c - kd[-1]
    f = c - down
    return c - (kd[down] * (1 - f) + kd[down + 1] * f)

def p_combine(s):
    kind = s.pick(["tree", "flat"]); n = s.range(1, 5); rows, keys = [], set()
    for _ in range(n):
        w = []; src = source(s, kind, w)
        for _ in range(s.size(1, 5)):
            tw = []; trg = target(s, src, tw, s.coin(1, 4))
            if (src, trg) in keys: continue
            keys.add((src, trg))
            rows.append((src, trg, float(num(s))))
    rows.sort(key=lambda r: (r[0] + " ||| " + r[1] + " ||| ").encode("utf-8"))
    lines0, lines1, info = [], [], []
    for i, (src, trg, c) in enumerate(rows):
        c0, c1 = c + s.range(0, 5), c + s.range(0, 5); al = s.pick(["", "0-0", "0-0 1-0"])
        f0 = OrderedDict([("egfp", -s.range(0, 300) / 100.0)]); f1 = OrderedDict([("fgep", -s.range(0, 300) / 100.0)])
        if s.coin(): f0["p"] = 1; f0["w"] = s.range(1, 4)
        if s.coin(): f1["fgel"] = -s.range(0, 99) / 7.0
        if s.coin(1, 4): f0["both"] = 1; f1["both"] = 2
        fmt = lambda f: " ".join("%s=%s" % (k, repr(v)) for k, v in f.items())
        g = lambda x: "%.15g" % x
        lines0.append("%s ||| %s ||| %s ||| %s %s ||| %s" % (src, trg, fmt(f0), g(c), g(c0), al))
        lines1.append("%s ||| %s ||| %s ||| %s %s ||| %s" % (src, trg, fmt(f1), g(c), g(c1), s.pick(["", "0-0"])))
        f = dict(f1); f.update(f0); info.append((src, trg, c, c0, c1, f, al))
    args = []; kd = None; fof = None
    smooth = s.pick(["none", "kn", "kn", None, "none"])
    if smooth: args.append("--smooth=" + smooth)
    if smooth == "kn" or s.coin(1, 4):
        fof = [s.range(0, 3)] + [s.range(0 if s.coin(1, 12) else 1, 60) for _ in range(s.pick([2, 3, 4, 4, 6, 20]))]
        fof = fof[:1] + sorted(fof[1:], reverse=True) if s.coin(3, 4) else fof
        args.append("--fof-file=" + write(s.tmp + "/fof", "\n".join(str(x) if x else "" for x in fof) + "\n"))
    top = s.pick([0, 0, 1, 2, 3]); 
    if top: args.append("--top-n=%d" % top)
    if smooth == "kn": kd = kn_discounts(fof)
    broken = None
    if rows and s.coin(1, 8):
        broken = s.below(4); i = s.below(len(rows))
        if broken == 0: lines1.pop(i)
        elif broken == 1: lines1[i] = lines1[i].replace(" ||| ", ' "zz" ||| ', 1)
        elif broken == 2: c = lines1[i].split(" ||| "); c[3] = "999 1000"; lines1[i] = " ||| ".join(c)
        else: lines0[i] = " ||| ".join(lines0[i].split(" ||| ")[:4])
    names = []
    for nm, ls in (("s0", lines0), ("s1", lines1)):
        t = "".join(l + "\n" for l in ls)
        if s.coin(1, 3): gzwrite(s.tmp + "/" + nm + ".gz", t); names.append(s.tmp + "/" + nm + (".gz" if s.coin() else ""))
        else: names.append(write(s.tmp + "/" + nm, t))
    s.note("combine-rt.pl", *args); s.note("\n".join(lines0)); s.note("and\n" + "\n".join(lines1)); s.note("frequencies of frequencies", fof)
    r = run(["perl", sc("train", "combine-rt.pl")] + args + names)
    if broken is not None:
        s.label("mismatching tables"); s.check(r.rc != 0, "tables that do not match (%d) are combined" % broken); return
    if smooth == "kn" and kd is None:
        s.label("discounts undefined"); s.check(r.rc != 0, "discounts computed from missing frequencies"); return
    out = must(r, "combine-rt.pl").split("\n")[:-1]; s.note("output:\n" + "\n".join(out))
    want = []
    for i, (src, trg, c, c0, c1, f, al) in enumerate(info):
        cc = c; f = dict(f)
        if kd:
            cc = discounted(c, kd)
            z = abs(cc) < 1e-12
            f["lfreq"] = math.log(cc) if not z else -99; f["fgep"] = math.log(cc / c1) if not z else -99; f["egfp"] = math.log(cc / c0) if not z else -99
        want.append((re.sub(r" @ \S+$", "", src), cc, i, (src, trg, f, [c, c0, c1], al)))
    groups = OrderedDict()
    for w in want: groups.setdefault(w[0], []).append(w)
    keep = []
    tie = False
    for g in groups.values():
        if top and len(g) > top:
            o = sorted(g, key=lambda w: (-w[1], w[2]))
            if abs(o[top - 1][1] - o[top][1]) < 1e-9 and o[top - 1][1] != o[top][1]: tie = True
            g = sorted(o[:top], key=lambda w: w[2]); s.label("limited")
        keep += g
    if tie: raise pbt.Discard()
    s.check(len(out) == len(keep), lambda: "%d rules combined, expected %d" % (len(out), len(keep)))
    for l, w in zip(out, keep):
        src, trg, f, cs, al = w[3]; c = l.split(" ||| ")
        if len(c) != 5: raise Failure("%d columns in %r" % (len(c), l))
        s.check(c[0] == src and c[1] == trg and c[4] == al, "rule %r, expected %r ||| %r with alignment %r" % (l, src, trg, al))
        same_feats(feats(c[2]), f, l); g = list(map(float, c[3].split()))
        s.check(len(g) == 3 and all(near(a, b, 1e-9) for a, b in zip(g, cs)), "counts in %r, expected %s" % (l, cs))
    s.nontrivial(len(rows) >= 3 and len(groups) >= 2)

def p_lex(s):
    d = s.tmp; n = s.range(1, 4); F, E, A = [], [], []; fc, ec, fec = Counter(), Counter(), Counter(); bad = s.below(4) if s.coin(1, 10) else None
    for k in range(n):
        f = [word(s) for _ in range(s.size(0 if s.coin(1, 8) else 1, 6))]; e = [word(s) for _ in range(s.size(1, 6))]
        al = s.shuffle([(i, j) for i in range(len(f)) for j in range(len(e)) if s.coin(1, 3)])
        for i, j in al: fec[(f[i], e[j])] += 1; fc[f[i]] += 1; ec[e[j]] += 1
        fc["NULL"] += 1; ec["NULL"] += 1
        for j in range(len(e)):
            if not any(y == j for x, y in al): fec[("NULL", e[j])] += 1; fc["NULL"] += 1
        for i in range(len(f)):
            if not any(x == i for x, y in al): fec[(f[i], "NULL")] += 1; ec["NULL"] += 1
        pad = s.pick(["", " ", "  "]); F.append(pad + (" " + pad).join(f)); E.append(" ".join(e) + pad); A.append(pad + " ".join("%d-%d" % a for a in al))
    if bad == 0: A.pop()
    elif bad == 1: E.append("x")
    elif bad == 2: A[-1] += " 99-0"
    elif bad == 3: A[-1] += " 0-99"
    for nm, ls in (("f", F), ("e", E), ("a", A)): write(d + "/" + nm, "".join(l + "\n" for l in ls))
    s.note("\n".join(F)); s.note("\n".join(E)); s.note("\n".join(A))
    r = run(["perl", sc("train", "align2lex.pl")] + [d + "/" + x for x in ("f", "e", "a", "fe", "ef")])
    if bad is not None:
        s.label("files that do not match"); s.check(r.rc != 0, "inconsistent files accepted (%d)" % bad); return
    must(r, "align2lex.pl")
    for nm, flip, cnt in (("fe", False, ec), ("ef", True, fc)):
        got = {}
        for l in open(d + "/" + nm, encoding="utf-8").read().split("\n")[:-1]:
            x = l.split(" "); s.check(len(x) == 3 and (x[0], x[1]) not in got, "line %r of the lexical table" % l); got[(x[0], x[1])] = float(x[2])
        want = {}
        for (f, e), v in fec.items():
            if not flip and f != "NULL": want[(f, e)] = v / ec[e]
            if flip and e != "NULL": want[(e, f)] = v / fc[f]
        # "NULL" that is a word of the text is not told apart from no word
        s.check(set(got) == set(want), lambda: "entries of the lexical table %s: %s too many, %s missing" % (nm, sorted(set(got) - set(want))[:5], sorted(set(want) - set(got))[:5]))
        for k in want: s.check(near(got[k], want[k], 1e-9), lambda: "probability of %s: %s, expected %s" % (k, got[k], want[k]))
        sums = Counter()
        for (x, y), p in got.items(): sums[y] += p
        for y, p in sums.items(): s.check(p <= 1 + 1e-9, lambda: "the probabilities given %s sum to %s" % (y, p))
    s.nontrivial(len(fec) >= 4)

# ---- filtering -----------------------------------------------------------
def penn(s, ws_, depth=0):
    """A parse of the words in Penn format, one word per preterminal."""
    if len(ws_) == 1: return "(%s %s)" % (s.pick(["NN", "DT", ",", "."]), ws_[0])
    if len(ws_) == 0: return ""
    k = s.range(1, len(ws_) - 1)
    return "(%s %s %s)" % (s.pick(["NP", "VP", "S"]), penn(s, ws_[:k]), penn(s, ws_[k:]))
def rt_usable(words, sents):
    """Could the words and gaps of a source match some sentence, every gap covering a word or more?"""
    def m(i, sent, p, gap):
        if i == len(words): return gap or True
        if words[i] is None: return any(m(i + 1, sent, q, False) for q in range(p + 1, len(sent) + 1))
        return p < len(sent) and sent[p] == words[i] and m(i + 1, sent, p + 1, False)
    return any(m(0, st, p, False) for st in sents for p in range(len(st) + 1))
def segments(words):
    out, cur = [], []
    for w in words:
        if w is None:
            if cur: out.append(cur)
            cur = []
        else: cur.append(w)
    if cur: out.append(cur)
    return out
def filter_case(s, wordset):
    sents = [[s.pick(wordset) for _ in range(s.size(1, 8))] for _ in range(s.range(1, 3))]
    rs = []
    for _ in range(s.range(1, 8)):
        words = []
        if s.coin(2, 3):                          # cut from a sentence
            st = s.pick(sents); b = s.below(len(st)); e = s.range(b + 1, len(st)); words = list(st[b:e])
            for _ in range(s.below(3)):
                i = s.below(len(words)); j = s.range(i + 1, len(words)); words[i:j] = [None]
            if s.coin(1, 4): words[s.below(len(words))] = s.pick(wordset)
        else: words = [None if s.coin(1, 3) else s.pick(wordset) for _ in range(s.size(1, 5))]
        n = 0; toks = []
        unl = s.coin(1, 6)
        for w in words:
            if w is None: toks.append("x%d%s" % (n, "" if unl else ":" + s.pick(["X", "NP", "S"]))); n += 1
            else: toks.append('"%s"' % w)
        form = s.below(3)
        if form == 0: src = " ".join(toks) + " @ X"
        elif form == 1: src = "S ( " + " ".join(t if not t.startswith('"') or s.coin(1, 3) else "NN ( %s )" % t for t in toks) + " )"
        else: src = "S ( NP ( %s ) )" % " ".join(toks)
        rs.append((src, words))
    return sents, rs
def sent_file(s, sents, fmt, path):
    if fmt == "word": t = "".join(" ".join(x) + "\n" for x in sents)
    elif fmt == "penn":
        sp = s.coin(1, 3)
        t = "".join(("( (S %s) )" if sp else "(ROOT %s)") % penn(s, x) + "\n" for x in sents)
    else: t = "".join("sentence %d :\n%s\nNN[0,1] => %s\nS[0,%d] => NN[0,1]\n\n" % (i + 1, " ".join(x), x[0], len(x)) for i, x in enumerate(sents))
    write(path, t); return t
SAFE = ["0", "a", "b", "c", "d", "é", "の", ",", ".", '"', "@", "x0", "[a]", "-LRB-", "a=b"]
def p_filter_rt(s):
    sents, rs = filter_case(s, SAFE); fmt = s.pick(["penn", "egret", "word"]); d = s.tmp
    args = []; nosrc = s.coin(1, 8)
    ln, nt, mx = (s.range(0, 4) if s.coin(1, 4) else None), (s.range(0, 2) if s.coin(1, 4) else None), (s.range(1, 3) if s.coin(1, 4) and not nosrc else None)
    if ln is not None: args.append("--len=%d" % ln)
    if nt is not None: args.append("--ntlen=%d" % nt)
    if mx is not None: args.append("--max-rule-len=%d" % mx)
    txt = ""
    if not nosrc: txt = sent_file(s, sents, fmt, d + "/src"); args += ["--src", d + "/src", "--src-format", fmt]
    lines = [src + s.pick([' ||| "z"', ' ||| "z" ||| p=1 ||| 2 3 4 ||| 0-0', ' ||| x0 "b" @ X ||| p=1']) for src, w in rs]
    s.note("filter-rt.pl", *args); s.note(txt + "\n".join(lines))
    out = must(run(["perl", sc("train", "filter-rt.pl")] + args, "".join(l + "\n" for l in lines)), "filter-rt.pl").split("\n")[:-1]
    want = []
    for l, (src, words) in zip(lines, rs):
        ok = (ln is None or len(ws(words)) <= ln) and (nt is None or words.count(None) <= nt)
        if not nosrc:
            for seg in segments(words):
                if mx is not None and len(seg) > mx: ok = False
                elif not any(st[i:i + len(seg)] == seg for st in sents for i in range(len(st))): ok = False
        if ok: want.append(l)
    s.check(out == want, lambda: "filtered table\n%s\nexpected\n%s" % ("\n".join(out), "\n".join(want)))
    if not args or (nosrc and ln is None and nt is None): s.check(out == lines, "rules lost without a limit")
    s.nontrivial(len(want) not in (0, len(lines)))
def p_filter_py(s):
    sents, rs = filter_case(s, [w for w in SAFE if w != "[a]"]); d = s.tmp
    fmt = s.pick(["penn", "egret", "word"]); args = []
    if sents[0][0].startswith("("): fmt = "penn"
    txt = sent_file(s, sents, fmt, d + "/src")
    if s.coin(): args += ["--format", fmt]
    mn = None
    if s.coin(1, 3): mn = s.pick([1, 1.5, 2, 3]); args += ["-c", str(mn)]
    lines, counts = [], []
    for i, (src, w) in enumerate(rs):
        for _ in range(s.pick([1, 1, 2])):
            c = s.pick([1, 1.5, 2, 3]); counts.append((src, w, c, s.coin(4, 5)))
            lines.append(src + (' ||| "z" x0 @ X ||| p=1 ||| %s %s %s ||| 0-0' % (c, c + s.below(3), c + s.below(3)) if counts[-1][3] else ' ||| "z" @ X ||| p=1'))
    s.note("filter-rule-table.py", *args); s.note(txt + "\n".join(lines))
    out = must(run(["python3", sc("train", "filter-rule-table.py")] + args + [d + "/src"], "".join(l + "\n" for l in lines), env={"PYTHONUTF8": "1"}), "filter-rule-table.py").split("\n")[:-1]
    want = []
    for l, (src, words, c, has) in zip(lines, counts):
        if mn is not None and has and c < mn and None in words: continue
        if rt_usable(words, sents): want.append(l)
        elif not ws(words): want.append(l)      # rules without words are kept
    s.check(out == want, lambda: "filtered table\n%s\nexpected\n%s" % ("\n".join(out), "\n".join(want)))
    s.nontrivial(len(want) not in (0, len(lines)))
def p_filters(s):
    """The hand-written filters split a table in two, and the plain ones cut where they say."""
    rs = []; POS = ["PRP", "dt", "NN", "VBZ", "IN", "pn", "助詞", "WDT", "VB"]
    JA = ["。", "か", "も", "な", "い", "する", "さ", "3", "３", "三", "彼", "に", "を", "?", "？", "ま", "せ", "ん"]; EN = ["the", "not", "he", "to", "3", "12", "?", "did", "was", "dog", ".", "3.5"]
    for _ in range(s.range(1, 8)):
        a, b = (EN, JA) if s.coin() else (JA, EN)
        sw = [s.pick(a) for _ in range(s.range(0, 3))]; tw = [s.pick(b) for _ in range(s.size(0, 3))]
        pos = [s.pick(POS) for _ in sw]
        src = "NP ( " + " ".join(['%s ( "%s" )' % (p, w) for p, w in zip(pos, sw)] + (["x0:NN"] if s.coin() or not sw else [])) + " )"
        trg = " ".join(s.shuffle(['"%s"' % w for w in tw] + ["x0"]))
        rs.append((src, trg, pos, tw, s.range(0, 4)))
    lines = ["%s ||| %s ||| p=1 ||| %d %d %d ||| 0-0" % (r[0], r[1], r[4], r[4] + 1, r[4] + 2) for r in rs]; inp = "".join(l + "\n" for l in lines)
    f = s.pick(["filter-enja.pl", "filter-jaen.pl", "filter-zhja.pl", "filter-null.pl", "filter-infrequent.pl"]); args = []
    if f == "filter-enja.pl": args = ["--skip-" + x for x in ("sahen", "number", "trgpart", "polar", "quest") if s.coin(1, 3)]
    if f == "filter-jaen.pl": args = ["--skip-" + x for x in ("number", "polar", "det", "md", "prn", "prep") if s.coin(1, 3)]
    if f == "filter-zhja.pl": args = ["--skip-" + x for x in ("punc", "quest") if s.coin(1, 3)]
    th, ml = s.range(0, 3), s.pick([0, 0, 3, 5])
    if f == "filter-infrequent.pl": args = ["--threshold=%d" % th, "--min-len=%d" % ml]
    s.note(f, *args); s.note("\n".join(lines))
    out = must(run(["perl", sc("filter", f)] + args, inp), f).split("\n")[:-1]
    if f == "filter-infrequent.pl": want = [l for l, r in zip(lines, rs) if not (r[4] <= th and (ml == 0 or len(r[0].split(" ")) >= ml))]; s.check(out == want, lambda: "kept\n%s\nexpected\n%s" % ("\n".join(out), "\n".join(want)))
    else:
        rest = must(run(["perl", sc("filter", f), "--show-filtered"] + args, inp), f).split("\n")[:-1]
        s.check(Counter(out) + Counter(rest) == Counter(lines), "the kept and the filtered rules are not the table")
        if f == "filter-null.pl":
            null = re.compile(r"(pn|prp|dt|wdt|in|助|語尾|補助記号)", re.I)
            want = [l for l, r in zip(lines, rs) if r[3] or all(null.match(p) for p in r[2])]; s.check(out == want, lambda: "kept\n%s\nexpected\n%s" % ("\n".join(out), "\n".join(want)))
        it = iter(lines); s.check(all(any(l == x for x in it) for l in out), "the order of the rules is changed")
    if f in ("filter-enja.pl", "filter-jaen.pl", "filter-zhja.pl") and len(args) == {"filter-enja.pl": 5, "filter-jaen.pl": 6, "filter-zhja.pl": 2}[f]: s.check(out == lines, "rules filtered though every filter is skipped")
    s.nontrivial(len(out) not in (0, len(lines)))
def p_reduce(s):
    names = ["egfp", "p", "w", "lm", "f=g", "tl_NP", "é"]; wt = {n: s.pick([0.5, -1.25, 0, 1e-3, 2]) for n in names if s.coin(2, 3)}
    d = s.tmp; cfg = "[tm_file]\nx=y\n\n" + ("[weight_vals]\n" + "".join("%s=%s\n" % kv for kv in wt.items()) if s.coin(9, 10) else "")
    if "[weight" not in cfg: wt = {}
    if s.coin(): cfg += "\n[other]\n1\negfp=99\n"
    write(d + "/ini", cfg); lines, want = [], []
    for _ in range(s.range(1, 6)):
        f = [(n, s.pick([1, -0.5, 0.25, 3])) for n in names if s.coin()] or [("p", 1)]
        l = '"a" x0:X @ X ||| x0 "%s" @ X ||| %s' % (s.pick(["b", "é"]), " ".join("%s=%s" % x for x in f)); lines.append(l + s.pick(["", " ||| 1 2 3 ||| 0-0"])); want.append((l.rsplit(" ||| ", 1)[0], sum(wt.get(n, 0) * v for n, v in f)))
    s.note(cfg); s.note("\n".join(lines))
    out = must(run(["perl", sc("train", "reduce-features.pl"), d + "/ini"], "".join(l + "\n" for l in lines)), "reduce-features.pl").split("\n")[:-1]
    s.check(len(out) == len(lines), "%d lines instead of %d" % (len(out), len(lines)))
    for l, (rule, v) in zip(out, want):
        c = l.split(" ||| "); s.check(" ||| ".join(c[:2]) == rule and len(c) == 3 and c[2].startswith("rule=") and abs(float(c[2][5:]) - v) < 1e-6, "line %r, expected %r with %s" % (l, rule, v))
    s.nontrivial(len(wt) >= 2 and len(lines) >= 2)
def p_filter_model(s):
    d = s.tmp; os.mkdir(d + "/m"); n = s.range(0, 3); paths, texts = [], []
    for i in range(n):
        t = "".join('"%s" @ X ||| "%s" @ X ||| p=%d\n' % (s.pick(PLAIN), s.pick(PLAIN), k) for k in range(s.size(0, 4))); z = s.coin(); p = d + "/m/rt%d%s" % (i, ".gz" if z else "")
        gzwrite(p, t) if z else write(p, t); paths.append(p); texts.append(t)
    secs = [["[binarize]", "left", ""], ["[weight_vals]", "p=1", "tm_file=2", ""], ["[lm_file]", "/x/y.lm", ""]]
    if n: secs.append(["[tm_file]"] + paths + [""])
    secs = s.shuffle(secs); conf = [l for x in secs for l in x]
    if s.coin(): conf.pop()
    write(d + "/ini", "".join(l + "\n" for l in conf)); s.note("\n".join(conf))
    must(run(["perl", sc("train", "filter-model.pl"), d + "/ini", d + "/new.ini", d + "/out/dir", "sed s/a/Q/"]), "filter-model.pl")
    got = open(d + "/new.ini", encoding="utf-8").read().split("\n"); want = [d + "/out/dir/" + os.path.basename(l) if l in paths else l for l in conf]
    while got and got[-1] == "": got.pop()
    while want and want[-1] == "": want.pop()
    s.check(got == want, lambda: "new configuration\n%s\nexpected\n%s" % ("\n".join(got), "\n".join(want)))
    for p, t in zip(paths, texts):
        o = d + "/out/dir/" + os.path.basename(p); g = (gzip.open(o, "rb") if o.endswith(".gz") else open(o, "rb")).read().decode("utf-8")
        s.check(g == "".join(re.sub("a", "Q", l, count=1) + "\n" for l in t.split("\n")[:-1]), "the filter of %s gave %r" % (p, g))
    s.nontrivial(n >= 1 and any(texts))

# ---- the whole of training -------------------------------------------------
def tree_of(s, words):
    """Penn tree over words with unary pre-terminals"""
    if len(words) == 1: return "(%s %s)" % (s.pick(["NN", "DT", "VB"]), words[0])
    k = s.range(1, len(words) - 1)
    return "(%s %s %s)" % (s.pick(["NP", "VP", "S"]), tree_of(s, words[:k]), tree_of(s, words[k:]))
def p_train(s):
    d = s.tmp; n = s.range(1, 4); hiero = s.coin(1, 3); trgtree = (not hiero) and s.coin(1, 4)
    os.makedirs(d + "/tv/src/bin"); os.symlink(os.path.join(REPO, "script"), d + "/tv/script")
    for k, v in BIN.items(): os.symlink(v, d + "/tv/src/bin/" + k)
    W1, W2 = ["a", "b", "c", "é", '"', "100%"], ["A", "B", "C", "の", '"', "@"]
    F, E, A, S_, T_ = [], [], [], [], []
    for _ in range(n):
        f = [s.pick(W1) for _ in range(s.range(1, 5))]; e = [s.pick(W2) for _ in range(s.range(1, 5))]
        al = [(i, j) for i in range(len(f)) for j in range(len(e)) if s.coin(2, 3) and (i == j or s.coin(1, 6))]
        F.append(f); E.append(e); A.append(al); S_.append(" ".join(f) if hiero else "(ROOT %s)" % tree_of(s, f)); T_.append("(ROOT %s)" % tree_of(s, e) if trgtree else " ".join(e))
    txt = lambda ls: "".join(l + "\n" for l in ls); giza = s.coin(1, 3); sym = s.pick(["grow", "intersect", "union", None])
    if giza:   # links from an aligner stand-in
        os.makedirs(d + "/giza")
        for q, x in (("GIZA++", GIZA), ("snt2cooc.out", "#!/bin/sh\ncat $1 $2 $3\n"), ("mkcls", "#!/bin/sh\nexit 0\n")): os.chmod(write(d + "/giza/" + q, x), 0o755)
        links = must(run(["perl", sc("train", "symmetrize.pl")] + (["--sym=" + sym] if sym else []) + [write(d + "/st", a3(F, E)), write(d + "/ts", a3(E, F))]), "symmetrize.pl").split("\n")[:-1]
        A = [[tuple(map(int, x.split("-"))) for x in l.split()] for l in links]
    write(d + "/s", txt(S_)); write(d + "/t", txt(T_)); write(d + "/a", txt(" ".join("%d-%d" % x for x in al) for al in A))
    so = {"cooc": s.pick([0, 0, 0, 1]), "aligned": s.coin(1, 3), "tl": trgtree and s.coin(), "trgsyn": trgtree and s.coin(), "srcmin": 0, "prefix": "", "sl": 0, "stl": 0}
    opts = " ".join((["--cooc-min-freq %s" % so["cooc"]] if so["cooc"] else []) + (["--lex-type aligned"] if so["aligned"] else []) + (["--trg-label"] if so["tl"] else []) + (["--trg-syntax"] if so["trgsyn"] else []))
    top = s.pick([0, 0, 0, 1, 2]); smooth = s.pick(["none", "none", "none", "kn"]); binz = s.pick(["left", "right", "none"]); norm = s.pick(["false", "true"]); comp = s.range(1, 3)
    cmd = ["perl", sc("train", "train-travatar.pl"), "-work_dir", d + "/w", "-travatar_dir", d + "/tv", "-src_file", d + "/s", "-trg_file", d + "/t", "-no_lm", "true", "-threads", str(s.range(1, 2)), "-score_options", opts, "-nbest_rules", str(top), "-smooth", smooth]
    cmd += ["-bin_dir", d + "/giza"] + (["-symmetrize", sym] if sym else []) if giza else ["-align_file", d + "/a"]
    O = [("initial_phrase", "10", ["1", "2", "3"]), ("hiero_rule_len", "5", ["1", "2", "3"])] if hiero else [("attach", "top", ["top", "exhaustive", "none"]), ("attach_len", "1", ["0", "1", "2", "3"]), ("nonterm_len", "2", ["1", "2", "3"]), ("term_len", "10", ["1", "2", "5"])]
    V = {}
    for k, v, o in O:
        if s.coin(): v = s.pick(o); cmd += ["-" + k, v]
        V[k] = v
    if hiero: cmd += ["-method", "hiero"]
    else: cmd += ["-src_format", "penn", "-trg_format", "penn" if trgtree else "word", "-binarize", binz, "-normalize", norm, "-compose", str(comp)]
    s.note(" ".join(cmd[2:])); s.note(txt(S_) + txt(T_) + open(d + "/a").read())
    r = run(cmd)
    # the same rules, extracted by the program itself
    if hiero: x = run([BIN["hiero-extractor"], "-max_initial_phrase", V["initial_phrase"], "-max_terminals", V["hiero_rule_len"], d + "/s", d + "/t", d + "/a"])
    else: x = run([BIN["forest-extractor"], "-input_format", "penn", "-output_format", "penn" if trgtree else "word", "-normalize_probs", norm, "-binarize", binz, "-compose", str(comp), "-attach", V["attach"], "-attach_len", V["attach_len"], "-nonterm_len", V["nonterm_len"], "-term_len", V["term_len"], d + "/s", d + "/t", d + "/a"])
    rs = []
    for l in must(x, "extractor").split("\n")[:-1]:
        c = l.split(" ||| ")
        if len(c) == 3: c.append("")
        c[3] = c[3].strip()
        if len(c) != 4 or not c[1] or c[1].startswith("|||"): raise pbt.Discard()
        w = lambda t: [y[1:-1] for y in t.split(" ") if len(y) > 2 and y[0] == '"' and y[-1] == '"']
        rs.append((c[0], c[1], c[2], c[3], w(c[0]), w(c[1])))
    # lexical tables
    fc, ec, fec = Counter(), Counter(), Counter()
    for f, e, al in zip(F, E, A):
        for i, j in al: fec[(f[i], e[j])] += 1; fc[f[i]] += 1; ec[e[j]] += 1
        fc["NULL"] += 1; ec["NULL"] += 1
        for j in range(len(e)):
            if not any(y == j for _, y in al): fec[("NULL", e[j])] += 1; fc["NULL"] += 1
        for i in range(len(f)):
            if not any(y == i for y, _ in al): fec[(f[i], "NULL")] += 1; ec["NULL"] += 1
    egf = {(e, f): v / fc[f] for (f, e), v in fec.items() if e != "NULL"}; fge = {(f, e): v / ec[e] for (f, e), v in fec.items() if f != "NULL"}
    fwd = score_model(rs, dict(so, cond="egf", joint=True), egf)
    rev = score_model([(t, sr, c, " ".join("-".join(reversed(a.split("-"))) for a in al.split()), tw, sw) for sr, t, c, al, sw, tw in rs], dict(so, cond="fge", joint=False, tl=0, trgsyn=0), fge)
    kd = None
    if smooth == "kn":
        fo = fof_model(fwd); m = max(fo) if fo else 0; kd = kn_discounts([fo.get(i, 0) for i in range(m + 1)])
        if kd is None: s.label("discounts undefined"); raise pbt.Discard()
    if not rs: raise pbt.Discard()
    tm = d + "/w/model/rule-table"
    def table(r, what):
        if r.rc != 0: raise Failure(what + " exits with %d: %s" % (r.rc, r.err[-600:]))
        data = gzip.open(tm + ".gz", "rb").read().decode("utf-8"); s.note("table:\n" + data)
        got = []; seen = set()
        for l in data.split("\n")[:-1]:
            c = l.split(" ||| ")
            if len(c) == 4 and l.endswith(" |||"): c.append("")
            s.check(len(c) == 5, "%d columns in %r" % (len(c), l)); k = (c[0], c[1])
            s.check(k in fwd and k not in seen, "rule %r is new or repeated" % l); seen.add(k); got.append(k)
            a, b = fwd[k], rev[(k[1], k[0])]; f = dict(b.fixed); f.update(a.fixed); cc = a.count
            s.check(c[4] in a.aligns, "alignment of %r, expected one of %r" % (l, a.aligns)); f["egfl"] = a.lex[c[4]]
            if kd: cc = discounted(cc, kd); z = abs(cc) < 1e-12; f["lfreq"] = math.log(cc) if not z else -99; f["egfp"] = math.log(cc / a.total) if not z else -99; f["fgep"] = math.log(cc / b.total) if not z else -99
            gf = feats(c[2]); gl = gf.pop("fgel", None); s.check(gl is not None and any(near(gl, v) for v in b.lex.values()), "fgel of %r, expected one of %s" % (l, sorted(b.lex.values()))); same_feats(gf, f, l)
            cs = list(map(float, c[3].split())); s.check(len(cs) == 3 and all(near(p, q, 1e-6) for p, q in zip(cs, (a.count, a.total, b.total))), "counts of %r, expected %s" % (l, (a.count, a.total, b.total)))
        groups = defaultdict(list)
        for k, v in fwd.items(): groups[re.sub(r" @ \S+$", "", k[0])].append(k)
        for g, ks in groups.items():
            mine = [k for k in got if re.sub(r" @ \S+$", "", k[0]) == g]
            s.check(len(mine) == (min(top, len(ks)) if top else len(ks)), "%d of %d rules for %r in the table (limit %d)" % (len(mine), len(ks), g, top))
            if mine:
                val = lambda k: discounted(fwd[k].count, kd) if kd else fwd[k].count
                lo = min(map(val, mine)); rest = [k for k in ks if k not in mine]; s.check(all(val(k) <= lo + 1e-6 for k in rest), "a rule for %r with a higher count is dropped" % g)
        if hiero:
            s.check(open(d + "/w/model/glue-rules").read() == "x0:X @ S ||| x0:X @ S ||| \nx0:X x1:S @ S ||| x0:X x1:S @ S ||| glue=1\n", "glue rules")
        ini = open(d + "/w/model/travatar.ini").read(); s.check(tm in ini.split("[tm_file]\n")[1], "the configuration does not name the table")
    table(r, "train-travatar.pl")
    if giza: s.check([sorted(l.split()) for l in open(d + "/w/align/align.txt").read().split("\n")[:-1]] == [sorted("%d-%d" % x for x in al) for al in A], "alignment %s, expected %s" % (open(d + "/w/align/align.txt").read(), A))
    if s.coin(1, 3):
        # As if the run had been stopped while a step was writing its files
        w = d + "/w/"; steps = [["data/src.word", "data/trg.word"], ["align/src-trg.giza.A3.final", "align/trg-src.giza.A3.final"], ["align/align.txt"], ["lex/src_given_trg.lex", "lex/trg_given_src.lex"], ["model/extract.gz"], ["model/rule-table.src-trg.gz", "model/rule-table.trg-src.gz", "model/fof.txt"], ["model/rule-table.gz"], ["model/travatar.ini"]]
        steps = [[f for f in x if os.path.exists(w + f)] for x in steps]; steps = [x for x in steps if x]; at = s.below(len(steps)); s.note("stopped while writing", steps[at]); s.label("resumed")
        for x in steps[at]:
            b = open(w + x, "rb").read(); open(w + x, "wb").write(b[:s.below(len(b) + 1)])
        for x in steps[at + 1:]:
            for f in x: os.remove(w + f)
        table(run(cmd + ["-resume"]), "train-travatar.pl -resume")
    if giza: s.label("aligned")
    s.nontrivial(len(fwd) >= 3); s.label("hiero" if hiero else "tree")
PROPS = [Prop("score", p_score, 900, 30000), Prop("reverse", p_reverse, 150, 4000), Prop("combine", p_combine, 600, 30000), Prop("lex", p_lex, 400, 10000),
         Prop("filter_rt", p_filter_rt, 600, 20000), Prop("filter_py", p_filter_py, 400, 10000), Prop("filters", p_filters, 300, 8000), Prop("reduce", p_reduce, 200, 5000),
         Prop("filter_model", p_filter_model, 60, 1000), Prop("train", p_train, 200, 4000)]
