"""C25: the preprocessing script, with stand-ins for the external parsers, compared with its steps on the whole corpus."""
import os, re
from collections import Counter
from vlib.pbt import Prop, run
from pychecks.scripts_corpus import write, txt, must

REPO = None
def prepare(build):
    global REPO
    REPO = build.REPO
    import pychecks.scripts_corpus as c
    c.REPO = REPO
BIN = {}
def sc(*a): return os.path.join(REPO, "script", *a)
def tool(n): return os.path.join(REPO, "src", "bin", n)

# A parser stand-in: right-branching trees whose labels depend on the words (it ignores its options)
CKY = r'''#!/usr/bin/perl
while(<STDIN>) { chomp; s/\(/-LRB-/g; s/\)/-RRB-/g; my @w = split(/ +/); @w = grep { $_ ne "" } @w; my ($o, $c) = ("", "");
  for(0 .. $#w) { my $t = "T" . (length($w[$_]) % 3); if($_ < $#w) { $o .= "(S ($t $w[$_]) "; $c .= ")"; } else { $o .= "($t $w[$_])"; } }
  print "(ROOT $o$c)\n"; }
'''
# A forest parser stand-in: flat trees, no tree for lines that hold FAIL, in the format of Egret
EGRET = r'''#!/usr/bin/perl
my ($f) = map { /^-i=(.*)/ ? $1 : () } @ARGV; open F, "<", $f or die; my $n = 0;
while(<F>) { chomp; s/\(/-LRB-/g; s/\)/-RRB-/g; my @w = grep { $_ ne "" } split(/ +/); $n++; print "sentence $n :\n"; 
  if(/FAIL/) { print "\n\n\n"; next; }
  print "@w\n"; my $k = $#w; print "ROOT[0,$k] => X^g[0,$k] ||| -0.5\nX[0,$k] =>" . join("", map { " Y[$_,$_]" } 0 .. $k) . " ||| -1\n"; print "Y[$_,$_] => $w[$_] ||| -0.25\n" for 0 .. $k; print "\n"; }
'''
# A segmenter stand-in: the words are separated already
KYTEA = '''#!/bin/sh
for i; do f=$i; done; cat "$f"
'''
# An aligner stand-in: links that depend on the lengths of the sentences only, written in the format of GIZA++
GIZA = r'''#!/usr/bin/perl
my %o = @ARGV; sub vcb { my %v; open V, "<", $_[0] or die; while(<V>) { chomp; my @c = split(/\t/); $v{$c[0]} = $c[1]; } %v } my %s = vcb($o{"-s"}); my %t = vcb($o{"-t"});
open F, "<", $o{"-c"} or die; open O, ">", "$o{'-o'}.A3.final" or die; -s $o{"-CoocurrenceFile"} or die;
while(<F>) { my $s = <F>; my $t = <F>; chomp $s; chomp $t; my @s = split(/ /, $s); my @t = split(/ /, $t); my @l = map { "" } (0 .. @s); $l[($_ * 3 + @t) % (@s + 1)] .= "$_ " for (1 .. @t);
  print O "# Sentence pair\n".join(" ", map { $t{$_} } @t)." \n".join(" ", map { ($_ ? $s{$s[$_-1]} : "NULL")." ({ $l[$_]})" } (0 .. @s))." \n"; }
'''
def a3(src, trg):
    """What the aligner stand-in writes"""
    o = ""
    for a, b in zip(src, trg):
        l = [""] * (len(a) + 1)
        for j in range(1, len(b) + 1): l[(j * 3 + len(b)) % (len(a) + 1)] += "%d " % j
        o += "# Sentence pair\n%s \n%s \n" % (" ".join(b), " ".join("%s ({ %s})" % (w, x) for w, x in zip(["NULL"] + a, l)))
    return o
WORDS = ["0", "The", "dog", "FAIL", "well-known", "Mr.", "don't", "(a)", "x", "100%", "É", "Dog", "the", "a-b-c", "end.", "\"so\"", "#", "'", "$5", "&amp;", "sentence 1 :"]
ASIA = ["+", "日本", "犬", "\\", "+5", "a+", "FAIL", "(", ")", "の"]   # words as the segmenter stand-in returns them, a backslash stands for a space
def line(s, asia=False):
    w = [s.pick(ASIA if asia and s.coin(2, 3) else WORDS) for _ in range(s.size(1, 9))]
    return s.pick([" ", "  "]).join(w if any(x != "\\" for x in w) and w[0] != "\\" and w[-1] != "\\" else ["x"] + w + ["y"])
def read(p): return open(p, encoding="utf-8", newline="\n").read()
def blocks(t):
    """Forests without the numbers of their sentences."""
    t = re.sub(r"(?m)^sentence \d+ :$", "sentence # :", t)
    return t
def p_prep(s):
    d = s.tmp; n = s.size(1, 9); both = s.coin(4, 5); langs = [s.pick(["en", "en", "zh", "ja"])] + ([s.pick(["de", "fr", "ja", "zh"])] if both else [])
    if langs[0] == langs[-1]: langs[0] = "en"
    asia = [l for l in langs if l in ("ja", "zh")]; files = {l: [line(s, l in asia) for _ in range(n)] for l in langs}
    threads = s.range(1, 3); inter = s.coin(1, 3); clean = s.pick([0, 0, 5, 8]) if both else 0
    if clean and s.coin(1, 3): files[s.pick(langs)][s.below(n)] = ""
    align = both and s.coin(1, 3); forest = s.coin(1, 2); split = s.coin(1, 3); true = [s.coin(1, 3) for _ in langs]; resume = s.coin(1, 3); cr = s.coin(1, 4)
    raw = {l: [x + ("\r" if cr and s.coin() else "") for x in files[l]] for l in langs}
    for l in langs: write(d + "/in." + l, txt(raw[l]))
    for q in ("tools/ckylark/src/bin", "tools/egret", "tools/kytea/src/bin"): os.makedirs(os.path.join(d, q), exist_ok=True)
    for q, t in (("tools/ckylark/src/bin/ckylark", CKY), ("tools/egret/egret", EGRET), ("tools/kytea/src/bin/kytea", KYTEA)): os.chmod(write(os.path.join(d, q), t), 0o755)
    if align:
        os.makedirs(d + "/tools/giza", exist_ok=True); args0 = ["-align", "-giza-dir", d + "/tools/giza"]
        for q, x in (("GIZA++", GIZA), ("snt2cooc.out", "#!/bin/sh\ncat $1 $2 $3\n"), ("mkcls", "#!/bin/sh\nexit 0\n")): os.chmod(write(d + "/tools/giza/" + q, x), 0o755)
    write(d + "/tools/model.grammar", ""); write(d + "/tools/egret/eng_grammar", "")
    args = ["-program-dir", d + "/tools", "-travatar-dir", REPO, "-threads", str(threads), "-ckylark-src-model", d + "/tools/model", "-src", langs[0]]
    if both: args += ["-trg", langs[1], "-ckylark-trg-model", d + "/tools/model"]
    if align: args += args0
    for i, l in enumerate(langs):
        if l in asia: args += ["-kytea-%s-model" % ("src", "trg")[i], d + "/tools/kytea/model"]
    if clean: args += ["-clean-len", str(clean)]
    if inter: args += ["-split-type", "interleave"]
    if split: args += ["-split-words-src", "-"]
    if forest: args += ["-forest-src"]
    for i, l in enumerate(langs):
        if true[i]: args += ["-truecase-" + ("src", "trg")[i]]
    s.note("preprocess.pl", *[a.replace(d, ".") for a in args]); s.note("\n--\n".join(txt(files[l]) for l in langs))
    o = d + "/out"; cmd = ["perl", sc("preprocess", "preprocess.pl")] + args + [d + "/in." + l for l in langs] + [o]
    # The steps on the whole corpus
    want = {}; tok = {}
    for l in langs:
        if l in asia: tok[l] = [re.sub(r" \\ ", "", re.sub(r"[\t ]+", " ", x).strip(" ")) for x in files[l]]
        else: tok[l] = must(run([tool("tokenizer")], txt(files[l])), "tokenizer").split("\n")[:-1]
        want["tok/" + l] = txt(tok[l])
    order = list(range(n)); keep = order
    if clean:
        keep = [i for i in order if all(1 <= len([w for w in tok[l][i].split(" ") if w]) <= clean for l in langs)]
        if inter:  # the sentences of each part are dealt out again
            parts = [[i for i in keep if i % threads == k] for k in range(threads)]; keep = []
            while any(parts): keep += [p.pop(0) for p in parts if p]
    s.label("everything removed" if not keep else "kept")
    if clean and not keep: return   # the caser has nothing to learn from
    for i, l in enumerate(langs):
        c = txt(tok[l][j] for j in keep); want["clean/" + l] = c
        t = must(run(["perl", d + "/tools/ckylark/src/bin/ckylark"], c), "parser")
        sp = split and i == 0
        if sp: t = must(run([tool("tree-converter"), "-split", "-"], t), "tree-converter")
        want["tree/" + l] = t; low = must(run(["perl", sc("tree", "lowercase.pl")], t), "lowercase.pl"); want["treelow/" + l] = low
        conv = lambda x, *a: must(run([tool("tree-converter")] + list(a), x), "tree-converter")
        want["low/" + l] = conv(low, "-output_format", "word")
        if forest and i == 0:
            write(d + "/c", c); tf = write(d + "/tf", conv(t, "-output_format", "egret")); ef = write(d + "/ef", must(run(["perl", d + "/tools/egret/egret", "-i=" + d + "/c"]), "egret").replace("^g", "" if l != "ja" else "^g"))
            f = must(run(["perl", sc("tree", "replace-failed-parse.pl"), "-format", "egret", tf, ef]), "replace-failed-parse.pl")
            if sp: f = conv(f, "-split", "-", "-input_format", "egret", "-output_format", "egret")
            want["for/" + l] = f; want["forlow/" + l] = must(run(["perl", sc("tree", "lowercase.pl")], f), "lowercase.pl")
        if true[i]:
            high = conv(t, "-output_format", "word"); want["high/" + l] = high; m = write(d + "/model", must(run([tool("train-caser")], high), "train-caser"))
            want["true/" + l] = conv(high, "-input_format", "word", "-output_format", "word", "-case", "true:model=" + m)
            want["treetrue/" + l] = conv(t, "-case", "true:model=" + m)
            if forest and i == 0: want["fortrue/" + l] = conv(want["for/" + l], "-input_format", "egret", "-output_format", "egret", "-case", "true:model=" + m)
    if align:
        W = {l: [x.split() for x in want["low/" + l].split("\n")[:-1]] for l in langs}; x, y = langs
        A = write(d + "/st", a3(W[x], W[y])), write(d + "/ts", a3(W[y], W[x])); al = must(run(["perl", sc("train", "symmetrize.pl")] + list(A)), "symmetrize.pl").split("\n")[:-1]; write(d + "/al", txt(al))
        must(run(["perl", sc("train", "align2lex.pl"), write(d + "/lx", want["low/" + x]), write(d + "/ly", want["low/" + y]), d + "/al", d + "/l1", d + "/l2"]), "align2lex.pl")
    def compare_align(what):
        links = lambda f: [sorted(q.split(" ")) for q in read(o + "/" + f).split("\n")[:-1]]
        for k, w in (("train/align/align.txt", al), ("giza/" + x + y, al), ("giza/" + y + x, [" ".join("-".join(reversed(q.split("-"))) for q in z.split(" ")) for z in al])):
            g = links(k); s.check(g == [sorted(q.split(" ")) for q in w], lambda: "%s: %s has\n%s\nexpected\n%s" % (what, k, g, w))
        for k, f in (("train/lex/src_given_trg.lex", "/l1"), ("train/lex/trg_given_src.lex", "/l2")): s.check(sorted(read(o + "/" + k).split("\n")) == sorted(read(d + f).split("\n")), "%s: %s differs from the one of the links" % (what, k))
        for k, l in (("src", x), ("trg", y)):
            v = [r.split("\t") for r in read(o + "/train/align/%s.vcb" % k).split("\n")[:-1]]; cnt = Counter(w for q in W[l] for w in q); s.check(v[:1] == [["1", "UNK", "0"]] and sorted((w, int(c)) for _, w, c in v[1:]) == sorted(cnt.items()) and sorted(int(q[0]) for q in v) == list(range(1, len(v) + 1)), lambda: "%s: the vocabulary %s of %s" % (what, v, W[l]))
    def compare(what):
        if align: compare_align(what)
        for k in sorted(want):
            s.check(os.path.exists(o + "/" + k), "%s: %s is missing" % (what, k)); g = read(o + "/" + k); w = want[k]
            if "for" in k: g, w = blocks(g), blocks(w)
            s.check(g == w, lambda: "%s: %s is\n%s\nexpected\n%s" % (what, k, g, w))
        lens = {k: want[k].count("\n") for k in want if k.split("/")[0] in ("low", "treelow", "true")}; s.check(len(set(lens.values())) == 1, "files of %s lines" % lens)
    must(run(cmd), "preprocess.pl"); compare("preprocess.pl")
    if resume:
        # Delete a step's output, as documented, and run again
        steps = [x for x in ("tree", "treelow", "low", "true") if x + "/" + langs[0] in want]; st = s.pick(steps); s.label("resumed"); s.note("deleting", st)
        part = s.coin() and s.below(threads)
        for f in os.listdir(o + "/" + st):
            if not f.startswith(langs[0]): continue
            if f in (langs[0], langs[0] + ".DONE") or part is False or f.startswith("%s.%d" % (langs[0], part)): os.remove(o + "/" + st + "/" + f)
        must(run(cmd), "preprocess.pl"); compare("preprocess.pl run again")
    if inter: s.label("interleaved")
    if forest: s.label("forests")
    if align: s.label("aligned")
    if asia: s.label("segmented")
    if clean: s.label("cleaned")
    s.nontrivial(threads > 1 and n > 1)
PROPS = [Prop("preprocess", p_prep, 48, 1200)]
