"""C25: alignment, corpus, tree, n-best, weight and case scripts, compared with models of what they state."""
import os, re
from collections import OrderedDict, Counter
from vlib import pbt
from vlib.pbt import Prop, Failure, run

REPO = None
def prepare(build):
    global REPO
    REPO = build.REPO
def sc(*a): return os.path.join(REPO, "script", *a)
def write(path, text):
    with open(path, "w", encoding="utf-8", newline="\n") as f: f.write(text)
    return path
def must(r, what):
    if r.rc != 0: raise Failure("%s exits with %d: %s" % (what, r.rc, r.err[-400:]))
    return r.out
def lines(out):
    s = out.split("\n")
    if s[-1] != "": raise Failure("the last line is not ended: %r" % s[-1])
    return s[:-1]
def txt(ls): return "".join(l + "\n" for l in ls)
WORDS = ["a", "b", "c", "dog", "é", "の", ",", ".", "0", "({", "x=y", "A", "``", "-LRB-", "100%"]

# ---- symmetrisation --------------------------------------------------------
def giza(words, arr, n):
    """The third line: for every word of the other side (0: NULL) the positions aligned to it."""
    out = []
    for i in range(len(words) + 1):
        out.append("%s ({ %s})" % ("NULL" if i == 0 else words[i - 1], "".join("%d " % j for j in range(1, n + 1) if arr[j] == i)))
    return " ".join(out) + " "
def eligible_grow(cur, uni, nb):
    rows, cols = set(i for i, _ in cur), set(j for _, j in cur)
    return [(i, j) for (i, j) in uni - cur if not (i in rows and j in cols) and any((i + a, j + b) in cur for a, b in nb)]
def eligible_final(cur, uni, both):
    rows, cols = set(i for i, _ in cur), set(j for _, j in cur)
    return [(i, j) for (i, j) in uni - cur if ((i not in rows and j not in cols) if both else not (i in rows and j in cols))]
def reachable(res, inter, uni, nb, final, both):
    """Can the heuristic end in res? Search over the orders of adding links."""
    seen = set()
    def go(cur, phase):
        k = (cur, phase)
        if k in seen: return False
        seen.add(k)
        if phase == 0:
            el = eligible_grow(cur, uni, nb)
            if el: return any(go(cur | {e}, 0) for e in el if e in res)
            if not final: return cur == res
            return go(cur, 1)
        el = eligible_final(cur, uni, both)
        if not el: return cur == res
        return any(go(cur | {e}, 1) for e in el if e in res)
    return go(frozenset(inter), 0)
def p_sym(s):
    d = s.tmp; n = s.range(1, 4); FE, EF, W = [], [], []
    for k in range(n):
        e = [s.pick(WORDS[:9]) for _ in range(s.range(1, 5))]; f = [s.pick(WORDS[:9]) for _ in range(s.range(1, 5))]
        diag = s.coin(2, 3)
        def link(p, m): 
            if s.coin(1, 4): return 0
            return min(m, max(1, p + s.range(-1, 1))) if diag else s.range(1, m)
        a = [0] + [link(j, len(e)) for j in range(1, len(f) + 1)]   # f position -> e position
        b = [0] + [link(i, len(f)) for i in range(1, len(e) + 1)]   # e position -> f position
        h = "# Sentence pair (%d) source length %d target length %d alignment score : 1" % (k + 1, len(e), len(f))
        FE += [h, " ".join(f), giza(e, a, len(f))]; EF += [h, " ".join(e), giza(f, b, len(e))]
        A = set((a[j] - 1, j - 1) for j in range(1, len(f) + 1) if a[j]); B = set((i - 1, b[i] - 1) for i in range(1, len(e) + 1) if b[i]); W.append((A, B))
    sym = s.pick(["grow", "grow", "grow", "intersect", "union", None]); dg, fi, an = s.coin(2, 3), s.coin(2, 3), s.coin(2, 3)
    args = []
    if sym: args.append("--sym=" + sym)
    tf = lambda b: "true" if b else "false"
    for nm, v in (("diag", dg), ("final", fi), ("and", an)):
        if not v or s.coin(): args.append("--%s=%s" % (nm, tf(v)))
    uneven = s.coin(1, 20)
    if uneven: FE = FE[:-3] if s.coin() else FE + FE[:3]
    write(d + "/fe", txt(FE)); write(d + "/ef", txt(EF)); s.note("symmetrize.pl", *args); s.note(txt(FE)); s.note(txt(EF))
    r = run(["perl", sc("train", "symmetrize.pl")] + args + [d + "/fe", d + "/ef"])
    if uneven: s.label("uneven files"); s.check(r.rc != 0, "files of different lengths are accepted"); return
    out = lines(must(r, "symmetrize.pl")); s.check(len(out) == n, "%d alignments for %d sentences" % (len(out), n))
    nb = [(-1, 0), (0, -1), (1, 0), (0, 1)] + ([(-1, -1), (-1, 1), (1, -1), (1, 1)] if dg else [])
    for l, (A, B) in zip(out, W):
        got = [tuple(map(int, x.split("-"))) for x in l.split()]; g = set(got); s.check(len(g) == len(got), "link twice in %r" % l)
        if sym == "intersect": s.check(g == A & B, "intersection %r, expected %s" % (l, sorted(A & B)))
        elif sym == "union": s.check(g == A | B, "union %r, expected %s" % (l, sorted(A | B)))
        else:
            s.check(A & B <= g <= A | B, lambda: "%r is not between the intersection %s and the union %s" % (l, sorted(A & B), sorted(A | B)))
            s.check(reachable(frozenset(g), A & B, A | B, nb, fi, an), lambda: "%r cannot come from growing %s within %s (diagonal %s, final %s, and %s)" % (l, sorted(A & B), sorted(A | B), dg, fi, an))
            if A & B < g < A | B: s.nontrivial()
        if sym in ("intersect", "union") and A != B: s.nontrivial()

def p_clean(s):
    d = s.tmp; k = s.range(1, 3); n = s.size(1, 8); files = []
    for _ in range(k):
        f = []
        for _ in range(n):
            w = [s.pick(WORDS) for _ in range(s.size(0, 9))]; f.append(s.pick(["", "", "", " "]) + s.pick([" ", " ", "  "]).join(w) + s.pick(["", "", " "]))
        files.append(f)
    mx, mn = s.pick([None, 1, 3, 5, 8]), s.pick([None, None, 0, 2]); ids = s.coin(); args = []
    if mx is not None: args += ["-max_len", str(mx)]
    if mn is not None: args += ["-min_len", str(mn)]
    if ids: args += ["-ids", d + "/ids"]
    bad = s.below(2) if s.coin(1, 12) else None
    if bad == 0 and k > 1: files[-1] = files[-1][:-1]
    for i, f in enumerate(files): write("%s/in%d" % (d, i), txt(f))
    if bad == 1: write(d + "/out0", "precious\n")
    s.note("clean-corpus.pl", *args); s.note("\n--\n".join(txt(f) for f in files))
    r = run(["perl", sc("train", "clean-corpus.pl")] + args + ["%s/in%d" % (d, i) for i in range(k)] + ["%s/out%d" % (d, i) for i in range(k)])
    if bad == 1: s.label("existing output"); s.check(r.rc != 0 and open(d + "/out0").read() == "precious\n", "an existing file is overwritten"); return
    if bad == 0 and k > 1: s.label("uneven files"); s.check(r.rc != 0, "files of different lengths are accepted"); return
    must(r, "clean-corpus.pl"); lo, hi = mn if mn is not None else 1, mx if mx is not None else 60
    keep = [i for i in range(n) if all(lo <= len(f[i].split()) <= hi for f in files)]
    for i, f in enumerate(files): g = open("%s/out%d" % (d, i), encoding="utf-8").read(); s.check(g == txt(f[j] for j in keep), lambda: "cleaned file %d\n%s\nexpected\n%s" % (i, g, txt(f[j] for j in keep)))
    if ids: g = open(d + "/ids").read(); s.check(g == txt(str(j + 1) for j in keep), "line numbers %r, expected %s" % (g, keep))
    s.nontrivial(0 < len(keep) < n)

# ---- n-best lists and weights -----------------------------------------------
NAMES = ["egfp", "p", "w", "lm", "lm1", "tl_NP", "é"]
def nb_lines(s, ids):
    out = []
    for i in ids:
        for _ in range(s.size(1, 4)):
            f = ["%s=%s" % (n, s.pick(["1", "-0.5", "2"])) for n in NAMES[:3] if s.coin()] or ["p=1"]
            out.append("%d ||| %s ||| %s ||| %s%s" % (i, " ".join(s.pick(["a", "b"]) for _ in range(s.range(0, 2))), s.pick(["1", "-2.5"]), " ".join(s.shuffle(f)), s.pick(["", "", " ||| (S a)"])))
    return out
def entry(l): c = l.split(" ||| "); return (c[0], c[1], tuple(sorted(c[3].split(" "))))
def p_nbest(s):
    d = s.tmp; N = s.range(1, 4); new = nb_lines(s, [i for i in range(N) if s.coin(5, 6)] or [0]); old = [nb_lines(s, [i for i in range(N + 1) if s.coin(3, 4)]) for _ in range(s.below(3))]
    for o in old:
        for _ in range(s.below(3)):
            e = s.pick(new); at = len([l for l in o if int(l.split()[0]) <= int(e.split()[0])]); o.insert(at, e)
    for i, o in enumerate(old): write("%s/o%d" % (d, i), txt(o))
    s.note("new\n" + txt(new) + "\nold\n" + "\n--\n".join(txt(o) for o in old))
    out = lines(must(run(["perl", sc("mert", "nbest-uniq.pl")] + ["%s/o%d" % (d, i) for i in range(len(old))], txt(new)), "nbest-uniq.pl") or "") if new else []
    seen = set(entry(l) for o in old for l in o); want = []
    for l in new:
        if entry(l) not in seen: seen.add(entry(l)); want.append(l)
    s.check(out == want, lambda: "unique entries\n%s\nexpected\n%s" % ("\n".join(out), "\n".join(want)))
    s.nontrivial(0 < len(want) < len(new))
def p_number(s):
    new = nb_lines(s, list(range(s.range(1, 6)))); args = []; first, last, reb = s.pick([None, 0, 1, 2]), s.pick([None, -1, 0, 2, 3]), s.pick([None, 0, 5])
    for nm, v in (("first", first), ("last", last), ("rebase", reb)):
        if v is not None: args.append("-%s=%d" % (nm, v))
    s.note("number-nbest.pl", *args); s.note(txt(new)); out = must(run(["perl", sc("mert", "number-nbest.pl")] + args, txt(new)), "number-nbest.pl")
    f, la, re_ = first or 0, -1 if last is None else last, reb or 0; want = []
    for l in new:
        i, rest = l.split(" ", 1); i = int(i)
        if i >= f and (la < 0 or i <= la): want.append("%d %s" % (i - f + re_, rest))
    s.check(out == txt(want), lambda: "numbered\n%s\nexpected\n%s" % (out, txt(want))); s.nontrivial(0 < len(want) < len(new))
def config(s, wt):
    pre = ["[tm_file]", "/x/rt.gz", "", "[lm_file]", "/x/lm=1", ""]; post = ["[binarize]", "left", "", "[pop_limit]", "2000"] if s.coin() else []
    return pre, post, txt(pre + ["[weight_vals]"] + ["%s=%s" % kv for kv in wt.items()] + ([""] if post or s.coin() else []) + post)
def weights(s): return OrderedDict((n, s.pick(["0.5", "-1.25", "0", "1e-05", "3"])) for n in s.shuffle(NAMES) if s.coin(2, 3))
def p_weights(s):
    d = s.tmp; old = weights(s); mode = s.pick(["log", "model", "weights", "weights"]); pre, post, c = config(s, old); write(d + "/ini", c)
    if mode == "log":
        vals = [s.pick(["0.1", "-2", "7e-3"]) for _ in range(len(old) + (s.range(-1, 1) if s.coin(1, 6) else 0))]; bad = len(vals) != len(old)
        write(d + "/log", "Reading\nBest point: %s  => 0.5\nBest point: 9 9  => 0.6\n" % " ".join(vals)); want = OrderedDict(zip(old, vals))
    else:
        want = OrderedDict() if s.coin(1, 12) else weights(s); bad = False
        if not want and (mode == "model" or not old or s.coin()): want = OrderedDict(p="2")
        if mode == "model": write(d + "/log", config(s, want)[2])
        else: write(d + "/log", txt(["%s=%s" % kv for kv in want.items()]) if s.coin() else " ".join("%s=%s" % kv for kv in want.items()) + "\n")
    s.note("update-weights.pl", mode); s.note(c); s.note(open(d + "/log").read())
    r = run(["perl", sc("mert", "update-weights.pl"), "-" + mode, d + "/log", d + "/ini"])
    if not want and old: s.label("all weights zero"); want = OrderedDict((n, "0") for n in old)
    if bad and old: s.label("wrong number of weights"); s.check(r.rc != 0, "%d weights for %d features are accepted" % (len(vals), len(old))); return
    if not old and mode == "log": raise pbt.Discard()
    got = must(r, "update-weights.pl").split("\n"); i = got.index("[weight_vals]"); s.check(got[:i] == pre, lambda: "before the weights: %s" % got[:i])
    j = got.index("", i); g = OrderedDict(l.split("=") for l in got[i + 1:j]); s.check(len(g) == j - i - 1 and dict(g) == dict(want), lambda: "weights %s, expected %s" % (dict(g), dict(want)))
    if mode == "log": s.check(list(g) == list(want), "the order of the weights is changed")
    rest = got[j + 1:]
    while rest and rest[-1] == "": rest.pop()
    s.check(rest == post, lambda: "after the weights: %s" % rest); s.nontrivial(len(want) >= 2)
def p_densify(s):
    d = s.tmp; wt = weights(s) or OrderedDict(p="1"); _, _, c = config(s, wt); write(d + "/ini", c); rows, L = [], []
    for i in range(s.range(1, 5)):
        f = OrderedDict((n, s.pick(["1", "-0.5", "3"])) for n in wt if s.coin()); rows.append(f); L.append("%d ||| %s ||| 1 ||| %s" % (i, " ".join(s.pick(["a", "b"]) for _ in range(s.range(0, 3))), " ".join("%s=%s" % kv for kv in s.shuffle(list(f.items())))))
    unk = s.coin(1, 10)
    if unk: L[-1] += " nope=1"
    s.note(c); s.note(txt(L)); r = run(["perl", sc("mert", "densify-nbest.pl"), d + "/ini"], txt(L))
    if unk: s.check(r.rc != 0, "a feature without a weight is dropped"); return
    out = lines(must(r, "densify-nbest.pl")); s.check(len(out) == len(L), "%d lines" % len(out)); col = [[] for _ in wt]
    for o, l, f in zip(out, L, rows):
        a, b = o.split(" ||| "), l.split(" ||| "); s.check(a[:2] == b[:2] and len(a) == 3, "line %r from %r" % (o, l)); v = a[2].split(" ")
        s.check(v == [f.get(n, "0") for n in wt], lambda: "values %s of %r, expected the order of the weights %s" % (v, l, list(wt)))
    io = run(["perl", sc("mert", "make-init-opt.pl")], c); sm = sum(abs(float(v)) for v in wt.values())
    if sm > 0:
        o = lines(must(io, "make-init-opt.pl")); s.check(len(o) == 3 and o[1].split() == ["0"] * len(wt) and o[2].split() == ["1"] * len(wt), "initial options %r" % o)
        v = list(map(float, o[0].split())); s.check(len(v) == len(wt) and all(abs(x - float(y) / sm) < 1e-9 for x, y in zip(v, wt.values())), lambda: "initial weights %s of %s" % (v, list(wt.values())))
    s.nontrivial(len(wt) >= 2 and any(len(f) < len(wt) for f in rows))

# ---- trees --------------------------------------------------------------------
def tree(s, words, punc=False):
    """A tree as nested lists."""
    if len(words) == 1: return [("." if words[0] in ".,!" else "$," if words[0] == ";" else s.pick(["NN", "DT", "VBZ"])), words[0]]
    k = min(len(words), s.range(2, 4)); cuts = sorted(s.shuffle(range(1, len(words)))[:k - 1]); b = [0] + cuts + [len(words)]
    return [s.pick(["NP", "VP", "S"])] + [tree(s, words[x:y]) for x, y in zip(b, b[1:])]
def show(t): return t if isinstance(t, str) else "(" + " ".join(show(x) for x in t) + ")"
def parse(l):
    toks = re.findall(r"\(|\)|[^() ]+", l); pos = 0
    def go():
        nonlocal pos
        if toks[pos] != "(": pos += 1; return toks[pos - 1]
        pos += 1; t = []
        while toks[pos] != ")": t.append(go())
        pos += 1; return t
    try: t = go()
    except IndexError: raise Failure("unbalanced tree %r" % l)
    if pos != len(toks): raise Failure("more than a tree: %r" % l)
    return t
def isp(t): return isinstance(t, list) and re.match(r"\$*[.,]", t[0]) is not None
def p_raise(s):
    T = [tree(s, [s.pick(["a", "b", "dog", ".", ",", ";", "!", "é"]) for _ in range(s.size(1, 8))]) for _ in range(s.range(1, 3))]; L = [show(t) for t in T]; s.note(txt(L))
    out = lines(must(run(["perl", sc("tree", "raise-punc.pl")], txt(L)), "raise-punc.pl")); s.check(len(out) == len(L), "%d trees from %d" % (len(out), len(L)))
    def undo(t):
        if isinstance(t, str): return t
        t = [undo(x) for x in t]
        if t[0].endswith("PUNC"): 
            s.check(isinstance(t[1], list) and t[0] == t[1][0] + "PUNC", "raised node %s over %s" % (t[0], t[1][0])); t = t[1] + t[2:]; s.nontrivial()
        return t
    def ok(t):
        if isinstance(t, str) or isinstance(t[1], str): return
        kids = t[1:]; last = [i for i, k in enumerate(kids) if not isp(k)]
        if t[0].endswith("PUNC"): s.check(len(kids) >= 2 and all(isp(k) for k in kids[1:]) and not isp(kids[0]), "raised punctuation of %s" % show(t))
        elif last: s.check(last[-1] == len(kids) - 1, "punctuation left at the end of %s" % show(t))
        for k in kids: ok(k)
    for o, t in zip(out, T):
        g = parse(o); ok(g); u = undo(g); s.check(u == t, lambda: "%s is not %s with punctuation raised" % (o, show(t)))
def p_failed(s):
    d = s.tmp; n = s.range(1, 5); root = s.pick([None, "TOP"]); args = (["--root=" + root] if root else []) + (["--nobuf"] if s.coin(1, 4) else []); R = root or "ROOT"
    if s.coin():
        A = ["(%s %s)" % (s.pick(["", "ROOT"]), show(tree(s, [s.pick(WORDS[:7]) for _ in range(s.range(1, 4))]))) for _ in range(n)]; B = []
        for a in A:
            B.append(s.pick(["", "(())"]) if s.coin(1, 3) else "(%s %s)" % (s.pick(["", "ROOT", "S"]), show(tree(s, [s.pick(WORDS[:7]) for _ in range(s.range(1, 4))]))))
        write(d + "/a", txt(A)); write(d + "/b", txt(B)); s.note("replace-failed-parse.pl", *args); s.note(txt(A)); s.note(txt(B))
        out = lines(must(run(["perl", sc("tree", "replace-failed-parse.pl")] + args + [d + "/a", d + "/b"]), "replace-failed-parse.pl"))
        want = [re.sub(r"^\( ", "(%s " % R, a if b in ("", "(())") else b) for a, b in zip(A, B)]; s.nontrivial(any(b in ("", "(())") for b in B) and n > 1)
    else:
        mx = s.pick([None, 0, 2, 4, 6]); A, B = [], []; args += ["--format=egret"] + (["--max-forest=%d" % mx] if mx is not None else []); lim = 2500 if mx is None else mx
        def forest(i, w, fail): return ["sentence %d :" % (i + 1), " ".join(w)] + (["", ""] if fail else ["%s[%d,%d] => %s ||| -0.%d" % (s.pick(["NP", "VP"]), k, k, w[k % len(w)], k) for k in range(s.range(1, 7))] + [""])
        for i in range(n): w = [s.pick(WORDS[:7]) for _ in range(s.range(1, 4))]; A.append(forest(i, w, s.coin(1, 8))); B.append(forest(i, w, s.coin(1, 3)))
        write(d + "/a", txt(sum(A, []))); write(d + "/b", txt(sum(B, []))); s.note("replace-failed-parse.pl", *args); s.note(txt(sum(A, []))); s.note(txt(sum(B, [])))
        out = lines(must(run(["perl", sc("tree", "replace-failed-parse.pl")] + args + [d + "/a", d + "/b"]), "replace-failed-parse.pl"))
        want = sum([a if b[2] == "" or (lim and len(b) - 1 > lim) else b for a, b in zip(A, B)], []); s.nontrivial(any(b[2] == "" for b in B) and n > 1); s.label("egret")
    s.check(out == want, lambda: "parses\n%s\nexpected\n%s" % (txt(out), txt(want)))
def p_small(s):
    """Line-by-line scripts"""
    k = s.below(4); L = [" ".join(s.pick(["a", "B", "Dog", "É", "Ａｂ", "Z", "x=Y", "0", "の"]) for _ in range(s.size(0, 6))) for _ in range(s.range(1, 5))]
    if k == 0: name, args, want = "limit-length.pl", [str(s.range(1, 5))], None; want = [" ".join(l.split(" ")[:int(args[0])]) for l in L]; s.nontrivial(want != L)
    elif k == 1: name, args = "lowercase.pl", (["-nobuf"] if s.coin() else []); want = [l.lower() for l in L]; s.nontrivial(want != L)
    elif k == 2:
        name, args, T = "stanford2oneline.pl", [], [show(tree(s, [s.pick(WORDS[:7]) for _ in range(s.range(1, 5))])) for _ in L]; L, want = [], T
        for t in T:
            ls = t.split(" "); i = 0
            while i < len(ls): j = s.range(i + 1, len(ls)); L.append("  " * min(i, 4) + " ".join(ls[i:j]) + s.pick(["", " "])); i = j
            L.append("")
        s.nontrivial(len(T) > 1)
    else:
        name, args = "han2zen.pl", []; nh, nsp, rt = s.coin(), s.coin(), s.coin()
        L = ["".join(s.pick(["a", "Z", "0", "-", " ", "/", "(", "é", "の", "。", "｡", ",", "\t", "_", "&", "*", '"', "'", "|", "%"]) for _ in range(s.size(0, 9))) for _ in L]; args = (["--nohyphen"] if nh else []) + (["--nospace"] if nsp else []) + (["--remtab"] if rt else [])
        src = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789()[]{}<>.,_%｢｣､"?･+:｡!&*/'; dst = 'ａｂｃｄｅｆｇｈｉｊｋｌｍｎｏｐｑｒｓｔｕｖｗｘｙｚＡＢＣＤＥＦＧＨＩＪＫＬＭＮＯＰＱＲＳＴＵＶＷＸＹＺ０１２３４５６７８９（）［］｛｝＜＞．，＿％「」、”？・＋：。！＆＊／'
        m = dict(zip(map(ord, src), dst)); want = []
        for l in L:
            x = l.translate(m)
            if not nh: x = x.replace("-", "－")
            if not nsp: x = x.replace(" ", "　")
            if rt: x = x.replace("\t", " ")
            want.append(x)
        s.nontrivial(want != L)
    s.note(name, *args); s.note(txt(L)); out = lines(must(run(["perl", sc("tree", name)] + args, txt(L)), name)); s.check(out == want, lambda: "output\n%s\nexpected\n%s" % (txt(out), txt(want))); s.label(name)
def dep(s, n):
    """A projective head-final dependency tree: heads[i] > i, the last word is the root."""
    h = [0] * n; stack = []
    for i in range(n - 1, -1, -1):
        if i == n - 1: h[i] = -1; stack = [i]; continue
        k = s.below(len(stack)); stack = stack[:len(stack) - k] if k else stack   # nearer heads close those inside
        h[i] = stack[-1]; stack.append(i)
    return h
def p_dep(s):
    T, L = [], []
    for _ in range(s.range(1, 3)):
        n = s.range(1, 7); h = dep(s, n); w = [s.pick(["犬", "が", "走る", "(", "b", "た", "]", "で"]) for _ in range(n)]; p = [s.pick(["名詞", "助詞", "動詞", "助動詞", "記号", "形容詞"]) for _ in range(n)]; T.append((w, h, p))
        if s.coin(1, 3): L.append("ID=%d" % len(T))
        L += ["%03d %03d %s %s _" % (i + 1, h[i] + 1 if h[i] >= 0 else s.pick([0, 0, -1]), w[i], p[i]) for i in range(n)] + [""]
    s.note(txt(L)); mk = lambda x: x.replace("(", "-LRB-").replace(")", "-RRB-").replace("[", "-LSB-").replace("]", "-RSB-").replace("{", "-LCB-").replace("}", "-RCB-")
    out = lines(must(run(["perl", sc("tree", "ja-dep2cfg.pl")], txt(L)), "ja-dep2cfg.pl")); s.check(len(out) == len(T), "%d trees from %d" % (len(out), len(T)))
    for o, (w, h, p) in zip(out, T):
        t = parse(o); s.check(t[0] == "ROOT" and len(t) == 2, "root of %s" % o); words, spans = [], []
        def go(t):
            if isinstance(t[1], str): s.check(len(t) == 2, "leaf %s" % show(t)); words.append(t[1]); i = len(words) - 1; s.check(t[0] == p[i], "label of word %d" % i); return i, i + 1, i
            b = len(words); hs = [go(k) for k in t[1:]]; s.check(len(hs) == 2, "%d children in a binary tree" % len(hs)); (b1, e1, x), (b2, e2, y) = hs
            # one of the two heads depends on the other
            if h[x] == y: r = y
            elif h[y] == x: r = x
            else: raise Failure("%s joins words %d and %d, neither of which depends on the other" % (show(t), x, y))
            s.check(t[0] == p[r] + "P", "phrase label of %s, head %d" % (show(t), r)); return b, len(words), r
        go(t[1]); s.check(words == [mk(x) for x in w], lambda: "words %s, expected %s" % (words, [mk(x) for x in w]))
    # adjusting keeps the words and gives a single tree
    adj = must(run(["perl", sc("tree", "ja-adjust-dep.pl")], txt(L)), "ja-adjust-dep.pl").split("\n\n")[:-1]; s.check(len(adj) == len(T), "%d adjusted trees" % len(adj))
    for a, (w, h, p) in zip(adj, T):
        rows = [x.split(" ") for x in a.split("\n")]; s.check([r[2] for r in rows] == w and [int(r[0]) for r in rows] == list(range(1, len(w) + 1)), lambda: "adjusted words %s" % a)
        hd = [int(r[1]) for r in rows]; s.check(hd.count(0) == 1, lambda: "%d roots in\n%s" % (hd.count(0), a))
        for i in range(len(w)):
            j, c = i + 1, 0
            while j and c <= len(w): j = hd[j - 1]; c += 1
            s.check(j == 0, lambda: "a cycle of heads in\n%s" % a)
    s.nontrivial(any(len(w) >= 3 for w, _, _ in T))

# ---- truecasing -----------------------------------------------------------------
END = set(".:?!"); DELAY = set(["(", "[", '"', "'", "&apos;", "&quot;", "&#91;", "&#93;"])
TOK = ["the", "The", "THE", "dog", "Dog", "é", "É", ".", "?", '"', "(", "&quot;", "a", "A", "iPhone", "3"]
def sents(s, n): return [s.pick(["", "", " "]) + s.pick([" ", " ", "  "]).join(s.pick(TOK) for _ in range(s.size(0, 8))) for _ in range(n)]
def p_case(s):
    d = s.tmp; C = sents(s, s.range(1, 8)); first = s.coin(1, 3); write(d + "/c", txt(C)); s.note("corpus\n" + txt(C))
    must(run(["perl", sc("recaser", "train-truecaser.pl"), "--corpus", d + "/c", "--model", d + "/m"] + (["--possiblyUseFirstToken"] if first else [])), "train-truecaser.pl")
    cas = OrderedDict()
    for l in C:
        w = l.split(); st = 0
        while st < len(w) and w[st] in DELAY: st += 1
        fw = True
        for i in range(st, len(w)):
            if not fw and w[i - 1] in END: fw = True
            wt = 0
            if not fw: wt = 1
            elif first: wt = 1 if w[i][0].lower() == w[i][0] else 0.1 if len(w) == 1 else 0
            if wt: cas.setdefault(w[i].lower(), Counter())[w[i]] += wt
            fw = False
    best, known = {}, set(); model = lines(open(d + "/m", encoding="utf-8").read() or "\n") if cas else []
    s.check(len(model) == len(cas), "%d types in the model, expected %d" % (len(model), len(cas)))
    for l in model:
        p = l.split(" "); lw = p[0].lower(); s.check(lw in cas and lw not in best and len(p) % 2 == 0, "model line %r" % l); c = cas[lw]; a, b = map(float, p[1].strip("()").split("/"))
        s.check(abs(a - c[p[0]]) < 1e-9 and abs(a - max(c.values())) < 1e-9 and abs(b - sum(c.values())) < 1e-9, lambda: "model line %r for counts %s" % (l, dict(c)))
        rest = dict((p[i], float(p[i + 1].strip("()"))) for i in range(2, len(p), 2)); s.check(set(rest) == set(c) - {p[0]} and all(abs(rest[k] - c[k]) < 1e-9 for k in rest), lambda: "model line %r for counts %s" % (l, dict(c)))
        best[lw] = p[0]; known |= set(c)
    X = sents(s, s.range(1, 5)); s.note("model\n" + txt(model) + "input\n" + txt(X)); out = lines(must(run(["perl", sc("recaser", "truecase.pl"), "--model", d + "/m"] + (["-b"] if s.coin(1, 4) else []), txt(X)), "truecase.pl")); want = []
    for l in X:
        st, o = True, []
        for w in l.split():
            if st and w.lower() in best: o.append(best[w.lower()])
            elif w in known: o.append(w)
            else: o.append(best.get(w.lower(), w))
            if w in END: st = True
            elif w not in DELAY: st = False
        want.append(o)
    s.check([o.split() for o in out] == want, lambda: "truecased\n%s\nexpected\n%s" % (txt(out), txt(" ".join(o) for o in want)))
    # and back
    hl = s.coin(1, 3); flags = [s.coin() for _ in X]; args = []; low = ("a", "the", "in", "of")
    if hl:
        sg, cur = [], False
        for f in flags:
            if f != cur: sg.append("<hl>" if f else "</hl>"); cur = f
            sg.append("<seg id=1> x </seg>")
        args = ["--headline", write(d + "/sgm", txt(sg))]; s.note("headlines", flags)
    if s.coin(1, 4): args += ["--in", write(d + "/x", txt(X))]
    out = lines(must(run(["perl", sc("recaser", "detruecase.pl")] + args, txt(X)), "detruecase.pl")); want = []; up = lambda w: w[0].upper() + w[1:] if w else w
    for l, f in zip(X, flags):
        st, o = True, []
        for w in l.split():
            if st: w = up(w)
            if w in END or (w[:1] in END and len(w) == 1): st = True
            elif w not in DELAY: st = False
            o.append(w)
        if hl and f: o = [w if w in low else up(w) for w in o]
        want.append(" ".join(o))
    s.check(out == want, lambda: "detruecased\n%s\nexpected\n%s" % (txt(out), txt(want)))
    s.nontrivial(any(len(c) > 1 for c in cas.values()))

PROPS = [Prop("symmetrize", p_sym, 900, 30000), Prop("clean", p_clean, 400, 10000), Prop("nbest_uniq", p_nbest, 400, 10000), Prop("number", p_number, 150, 4000), Prop("weights", p_weights, 300, 8000),
         Prop("densify", p_densify, 200, 5000), Prop("raise_punc", p_raise, 300, 8000), Prop("failed_parse", p_failed, 300, 8000), Prop("small", p_small, 300, 8000), Prop("dependencies", p_dep, 250, 6000), Prop("case", p_case, 300, 8000)]
