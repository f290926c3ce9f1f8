"""C23: the options of every program: documented defaults, the last value given, refusal of bad settings."""
import os, re
from vlib.pbt import Prop, Failure, run

BIN = {}
def prepare(build):
    for p in build.PROGRAMS: BIN[p] = build.program(p)

# name, documented default, kind of value (s text, i integer, r real, b boolean, il list of integers)
DOC = {
 "travatar": [("all_unk", "false", "b"), ("binarize", "right", "s"), ("buffer", "true", "b"), ("chart_limit", "100", "i"), ("config_file", "", "s"), ("consider_trg", "false", "b"), ("debug", "1", "i"), ("delete_unknown", "false", "b"), ("forest_nbest_trim", "0", "i"), ("forest_out", "", "s"), ("hiero_span_limit", "20", "il"), ("in_format", "penn", "s"), ("lm_file", "", "s"), ("lm_multi_type", "joint", "s"), ("nbest", "1", "i"), ("nbest_out", "", "s"), ("nbest_tree", "false", "b"), ("nbest_uniq", "false", "b"), ("pop_limit", "2000", "il"), ("root_symbol", "S", "s"), ("search", "inc", "s"), ("threads", "1", "i"), ("tm_file", "", "s"), ("tm_storage", "marisa", "s"), ("trace_out", "", "s"), ("trg_factors", "1", "i"), ("unk_symbol", "X", "s"), ("weight_vals", "", "s"), ("tune_loss", "bleu", "s"), ("tune_ref_files", "", "s"), ("tune_l1_coeff", "0", "r"), ("tune_step_count", "0", "i"), ("tune_step_size", "1", "r"), ("tune_update", "none", "s"), ("tune_weight_out", "", "s"), ("tune_weight_ranges", "", "s")],
 "batch-tune": [("nbest", "", "s"), ("forest", "", "s"), ("algorithm", "mert", "s"), ("debug", "0", "i"), ("eval", "bleu", "s"), ("l1", "0.0", "r"), ("l2", "0.0", "r"), ("ent", "0.0", "r"), ("margin_scale", "0", "r"), ("mert_directions", "coord", "s"), ("rand_seed", "0", "i"), ("rate", "1", "r"), ("restarts", "18", "i"), ("stat_in", "", "s"), ("stat_out", "", "s"), ("threads", "1", "i"), ("threshold", "1e-6", "r"), ("trg_factors", "1", "i"), ("update", "perceptron", "s"), ("weight_in", "", "s"), ("weight_ranges", "", "s")],
 "forest-extractor": [("input_format", "penn", "s"), ("output_format", "word", "s"), ("binarize", "right", "s"), ("compose", "4", "i"), ("src_lex_len", "-1", "i"), ("attach", "top", "s"), ("attach_len", "1", "i"), ("term_len", "10", "i"), ("nonterm_len", "3", "i"), ("normalize_probs", "false", "b"), ("partial_count_thresh", "0.0", "r"), ("count_rules", "false", "b"), ("debug", "0", "i")],
 "hiero-extractor": [("max_initial_phrase", "10", "i"), ("max_terminals", "5", "i")],
 "mt-evaluator": [("ref", "", "s"), ("bootstrap", "0", "i"), ("debug", "0", "i"), ("eval", "bleu ribes", "s"), ("sent", "false", "b")],
 "mt-segmenter": [("ref", "", "s"), ("eval", "bleu:smooth=1", "s"), ("slack", "2.0", "r"), ("debug", "0", "i")],
 "rescorer": [("nbest", "", "s"), ("nbest_out", "", "s"), ("mbr_eval", "", "s"), ("mbr_scale", "1", "r"), ("mbr_hyp_cnt", "0", "i"), ("debug", "0", "i"), ("weight_in", "", "s")],
 "tokenizer": [("type", "penn", "s"), ("debug", "0", "i")],
 "train-caser": [("debug", "0", "i")],
 "tree-converter": [("input_format", "penn", "s"), ("output_format", "penn", "s"), ("split", "", "s"), ("compoundsplit", "", "s"), ("compoundsplit_filler", "", "s"), ("compoundsplit_threshold", "0.01", "r"), ("compoundsplit_minchar", "3", "i"), ("binarize", "none", "s"), ("case", "none", "s"), ("flatten", "false", "b"), ("debug", "0", "i")],
}
ARGS = {"travatar": (0, 0), "batch-tune": (1, 1), "forest-extractor": (3, 3), "hiero-extractor": (3, 3), "mt-evaluator": (1, 10), "mt-segmenter": (1, 1), "rescorer": (0, 0), "tokenizer": (0, 0), "train-caser": (0, 0), "tree-converter": (0, 1)}

def write(s, name, text):
    p = os.path.join(s.tmp, name)
    with open(p, "w") as f: f.write(text)
    return p

# ---- small valid data -------------------------------------------------------
TREES = ["(S (NP (DT the) (NN cat)) (VP (VBZ eats) (NP (NN fish))))", "(S (NP (NN fish)) (VP (VBZ sleeps)))", "(S (NP (DT a) (NN dog)) (VP (VBD saw) (NP (DT the) (NN cat)) (PP (IN in) (NP (NN town)))))"]
TRGS = ["neko ga sakana wo taberu", "sakana ga neru", "inu ga machi de neko wo mita"]
ALS = ["0-0 1-0 2-4 3-2", "0-0 1-2", "1-0 2-6 4-4 6-2 5-3"]
RULES = "S ( x0:NP x1:VP ) ||| x0 \"ga\" x1 @ S ||| p=0.5\nNP ( \"DT\" ) ||| \"x\" @ NP ||| p=1\nNP ( NN ( \"fish\" ) ) ||| \"sakana\" @ NP ||| p=-0.25 lfd=1\nNP ( NN ( \"fish\" ) ) ||| \"uo\" @ NP ||| p=-0.5\nNP ( DT ( \"the\" ) NN ( \"cat\" ) ) ||| \"neko\" @ NP ||| p=-0.5\nVP ( VBZ ( \"sleeps\" ) ) ||| \"neru\" @ VP ||| p=-1\nVP ( VBZ ( \"eats\" ) x0:NP ) ||| x0:NP \"wo\" \"taberu\" @ VP ||| p=-0.125\n"
HIERO = "x0:X \"eats\" x1:X @ S ||| x0:X \"ga\" x1:X \"taberu\" @ S ||| p=0.5\n\"cat\" @ X ||| \"neko\" @ X ||| p=-1\n\"fish\" @ X ||| \"sakana\" @ X ||| p=-1\n\"the\" @ X ||| \"no\" @ X ||| p=-2\nx0:X x1:X @ X ||| x0:X x1:X @ X ||| p=-0.5\nx0:X @ S ||| x0:X @ S ||| p=-3\n"
ARPA = "\\data\\\nngram 1=7\nngram 2=2\n\n\\1-grams:\n-1\t<unk>\n-99\t<s>\t-0.5\n-1\t</s>\n-0.5\tneko\t-0.25\n-0.75\tga\t-0.25\n-1.5\tsakana\t-0.125\n-1.25\ttaberu\n\n\\2-grams:\n-0.25\tneko ga\n-0.5\tsakana ga\n\n\\end\\\n"
NBEST = ["0 ||| neko ga taberu ||| 1 ||| p=1 q=0.5", "0 ||| neko wo taberu ||| 0.5 ||| p=0.5 q=1", "1 ||| sakana ga neru ||| 0.25 ||| p=0.25 q=0.25", "1 ||| uo ga neru ||| 0 ||| q=1"]
REFS = ["neko ga sakana wo taberu", "sakana ga neru"]

# ---- defaults and last values -----------------------------------------------
def text_value(s): return s.pick(["a", "penn", "x y", "f=3 g=-1", "a|b", "1|2|lm", "no/such/file", "true", "-", "12", "p:q=r"])
def value(s, kind):
    if kind == "i": return str(s.range(-3, 40))
    if kind == "il": return s.pick(["|", " "]).join(str(s.range(0, 60)) for _ in range(s.range(1, 3)))
    if kind == "r": return s.pick(["0.0", "1e-3", "-2.5", ".5", "7", "0.00", "-1e2"])
    if kind == "b": return s.pick(["true", "false"])
    return text_value(s)
def listing(prog, vals, args):
    return "Main arguments:\n" + "".join(" %d: %s\n" % (i, a) for i, a in enumerate(args)) + "Optional arguments:\n" + "".join(" -%s \t%s\n" % (n, vals[n]) for n, _, _ in DOC[prog])
def layout(s, n, v):
    parts = v.split(" ")
    out, cur = [], parts[0]
    for p in parts[1:]:
        if s.coin(1, 3): out.append(cur); cur = p
        else: cur += " " + p
    return "[%s]\n%s\n" % (n, "\n".join(out + [cur]))
def given_values(s):
    prog = s.pick(sorted(DOC))
    opts = DOC[prog]; vals = {n: d for n, d, _ in opts}
    lo, hi = ARGS[prog]; na = s.range(lo, min(hi, lo + 2)); args = ["no/such/%d" % i for i in range(na)]
    cmd, cur = [], list(args); given = 0
    if prog == "travatar":
        cfg = ""
        for _ in range(s.below(8)):
            n, _, k = s.pick(opts)
            if n == "config_file": continue
            v = value(s, k); cfg += layout(s, n, v); vals[n] = v; given += 1
            cfg += "\n" * s.range(1, 2) + ("# note\n" if s.coin(1, 4) else "")
        cf = write(s, "conf.ini", cfg); s.note("config file:\n" + cfg)
        cmd = ["-config_file", cf]; vals["config_file"] = cf
    for _ in range(s.below(7)):
        n, _, k = s.pick(opts)
        if n == "config_file": continue
        given += 1
        if k == "b" and s.coin(1, 3):
            cmd.append("-" + n); vals[n] = "true"
            # a switch is only a switch before another option or the end
            m, _, k2 = s.pick([o for o in opts if o[0] != "config_file"]); v = value(s, k2); cmd += ["-" + m, v]; vals[m] = v
        else:
            v = value(s, k); cmd += ["-" + n, v]; vals[n] = v
        if cur and s.coin(): cmd.append(cur.pop(0))
    cmd += cur
    s.note(prog, *["'%s'" % a for a in cmd])
    r = run([BIN[prog]] + cmd, "", cwd=s.tmp)
    want = listing(prog, vals, args)
    s.check(want in r.err, lambda: "%s printed the configuration\n%s\nexpected\n%s" % (prog, r.err[:3000], want))
    s.label(prog); s.nontrivial(given >= 2 or prog in ("train-caser", "tokenizer"))

# ---- valid invocations ------------------------------------------------------
def setup(s, prog):
    """(options as a list of (name, value), main args, stdin): an invocation that must succeed"""
    if prog == "travatar":
        st = s.pick(["marisa", "hash", "fsm", "cfg"]); o = [("tm_storage", st), ("weight_vals", s.pick(["p=1", "p=1 unk=-2 lm=0.5", "dummy=0", "p=-1\nlm=2"]) if False else s.pick(["p=1", "p=1 unk=-2 lm=0.5", "dummy=0"]))]
        word = st in ("fsm", "cfg")
        o.append(("tm_file", write(s, "rules", HIERO if word else RULES)))
        if st == "fsm": o.append(("hiero_span_limit", s.pick(["20", "3"])))
        o.append(("in_format", "word") if word else ("in_format", "penn"))
        if word: o.append(("binarize", "none"))
        elif s.coin(): o.append(("binarize", s.pick(["right", "left", "none"])))
        if s.coin(1, 3):
            o.append(("lm_file", write(s, "lm.arpa", ARPA)))
            if st != "cfg" and s.coin(): o.append(("search", s.pick(["inc", "cp"])))
            if s.coin(1, 3): o.append(("pop_limit", str(s.range(10, 300))))
        if s.coin(): o += [("nbest", str(s.range(1, 5))), ("nbest_out", os.path.join(s.tmp, "nb"))]
        if st != "cfg" and s.coin(1, 4): o.append(("trace_out", os.path.join(s.tmp, "tr")))
        if s.coin(1, 4): o.append(("threads", str(s.range(1, 3))))
        if s.coin(1, 4): o.append(("buffer", s.pick(["true", "false"])))
        inp = "the cat eats fish\ncat fish\n" if word else "".join(TREES[i] + "\n" for i in range(s.range(1, 2)))
        return o, [], inp
    if prog == "forest-extractor":
        n = s.range(1, 3); o = []
        if s.coin(1, 3): o.append(("binarize", s.pick(["left", "right", "none"])))
        if s.coin(1, 3): o.append(("compose", str(s.range(1, 4))))
        if s.coin(1, 3): o.append(("attach", s.pick(["top", "none", "exhaustive"])))
        if s.coin(1, 4): o.append(("normalize_probs", "true"))
        if s.coin(1, 4): o.append(("nonterm_len", str(s.range(1, 3))))
        return o, [write(s, "src", "".join(t + "\n" for t in TREES[:n])), write(s, "trg", "".join(t + "\n" for t in TRGS[:n])), write(s, "al", "".join(t + "\n" for t in ALS[:n]))], ""
    if prog == "hiero-extractor":
        n = s.range(1, 3); o = []
        if s.coin(1, 3): o.append(("max_initial_phrase", str(s.range(1, 9))))
        if s.coin(1, 3): o.append(("max_terminals", str(s.range(1, 6))))
        src = [" ".join(re.findall(r" ([^() ]+)\)", t)) for t in TREES]
        return o, [write(s, "src", "".join(t + "\n" for t in src[:n])), write(s, "trg", "".join(t + "\n" for t in TRGS[:n])), write(s, "al", "".join(t + "\n" for t in ALS[:n]))], ""
    if prog == "mt-evaluator":
        o = [("ref", write(s, "ref", "\n".join(REFS) + "\n"))]
        if s.coin(): o.append(("eval", s.pick(["bleu", "ribes", "ter wer", "bleu:smooth=1 interp:0.5|bleu|0.5|ribes"])))
        if s.coin(1, 3): o.append(("sent", "true"))
        return o, [write(s, "sys%d" % i, "neko ga taberu\nsakana ga %s\n" % ("neru" if i else "taberu")) for i in range(s.range(1, 2))], ""
    if prog == "mt-segmenter":
        o = [("ref", write(s, "ref", "\n".join(REFS) + "\n"))]
        if s.coin(1, 3): o.append(("slack", s.pick(["2", "3.5"])))
        return o, [write(s, "sys", "neko ga taberu sakana ga neru\n")], ""
    if prog == "rescorer":
        o = []; inp = "\n".join(NBEST) + "\n"
        if s.coin(): o.append(("nbest", write(s, "nb", inp))); inp = ""
        if s.coin(): o.append(("weight_in", write(s, "w", "p=1\nq=-1\n")))
        if s.coin(1, 3): o.append(("mbr_eval", s.pick(["bleu:smooth=1", "ribes"])))
        if s.coin(1, 3): o.append(("nbest_out", os.path.join(s.tmp, "nbo")))
        return o, [], inp
    if prog == "tokenizer": return ([("type", s.pick(["penn", "none"]))] if s.coin() else []), [], "It's a cat.\n"
    if prog == "train-caser": return [], [], "The cat saw the Dog\nA cat\n"
    if prog == "tree-converter":
        o = []
        if s.coin(1, 3): o.append(("binarize", s.pick(["none", "left", "right"])))
        if s.coin(1, 3): o.append(("output_format", s.pick(["penn", "json", "egret", "word", "mosesxml"])))
        if s.coin(1, 3): o.append(("case", s.pick(["none", "low", "title"])))
        if s.coin(1, 3): o.append(("flatten", s.pick(["true", "false"])))
        if s.coin(1, 4): o.append(("split", s.pick(["-", "a"])))
        t = "".join(x + "\n" for x in TREES[:s.range(1, 3)])
        if s.coin(): return o, [write(s, "in", t)], ""
        return o, [], t
    o = [("nbest", write(s, "nb", "\n".join(NBEST) + "\n")), ("rand_seed", "7"), ("restarts", str(s.below(3)))]
    if s.coin(): o.append(("algorithm", s.pick(["mert", "lbfgs", "greedy-mert"])))
    if s.coin(): o.append(("weight_in", write(s, "w", "p=1\nq=-1\n")))
    if s.coin(1, 3): o.append(("weight_ranges", s.pick(["0|1|p", "-1|1", "|2|q -3||p"])))
    if s.coin(1, 3): o.append(("threads", str(s.range(1, 3))))
    return o, [write(s, "ref", "\n".join(REFS) + "\n")], ""

def invoke(s, prog, o, args, inp, infile=()):
    cmd = []
    if prog == "travatar":
        cf = write(s, "conf.ini", "".join("[%s]\n%s\n\n" % (n, v) for n, v in o if n in infile)); cmd = ["-config_file", cf]
    left = list(args)
    for n, v in o:
        if n not in infile or prog != "travatar": cmd += ["-" + n, v]
    s.note(prog, *["'%s'" % a for a in cmd + left])
    return run([BIN[prog]] + cmd + left, inp, cwd=s.tmp)
OUTS = ("nb", "tr", "nbo", "fo")
def outputs(s, r):
    d = {"": r.out}
    for n in OUTS:
        p = os.path.join(s.tmp, n)
        if os.path.exists(p):
            d[n] = open(p, errors="replace").read()
            if n != "nb": os.unlink(p)
    return d
def same_output(s):
    prog = s.pick(sorted(DOC)); o, args, inp = setup(s, prog)
    r = invoke(s, prog, o, args, inp, [n for n, _ in o])
    s.check(r.rc == 0, lambda: "valid settings refused (%d): %s" % (r.rc, r.err[-800:]))
    a = outputs(s, r)
    # the same settings in another order, split between file and command line, defaults spelt out, and stale values given first
    have = {n for n, _ in o}; alt = s.shuffle(o)
    skip = ("config_file", "rand_seed")
    extra = [(n, d) for n, d, _ in DOC[prog] if n not in have and n not in skip and d != "" and s.coin(1, 3)]
    infile = [n for n, _ in alt + extra if s.coin()]
    stale = [(n, value(s, k)) for n, d, k in DOC[prog] if n in have and s.coin(1, 4)]
    if prog == "travatar":
        s.note("stale:", stale)
        alt2 = alt + s.shuffle(extra)
        cf = write(s, "conf.ini", "".join("[%s]\n%s\n\n" % (n, v) for n, v in [x for x in stale if x[0] != "nbest_out" and x[0] != "trace_out"] + [x for x in alt2 if x[0] in infile]))
        cmd = ["-config_file", cf]
        for n, v in alt2:
            if n not in infile: cmd += ["-" + n, v]
    else:
        cmd = []
        for n, v in stale + s.shuffle(alt + extra): cmd += ["-" + n, v]
    s.note(prog, *["'%s'" % x for x in cmd])
    r = run([BIN[prog]] + cmd + args, inp, cwd=s.tmp)
    s.check(r.rc == 0, lambda: "valid settings refused (%d): %s" % (r.rc, r.err[-800:]))
    b = outputs(s, r)
    s.check(a == b, lambda: "different output\n%r\n%r" % (a, b))
    s.label(prog); s.nontrivial(bool(extra or stale or len(o) > 1)); s.check(a[""] != "" or prog in ("rescorer", "forest-extractor"), "no output")

BADNUM = {"i": ["x", "3x", "1.5", "", "true", "1e3", "99999999999", "0x1f", "five"], "r": ["x", "1.5x", "", "true", "1,5", "one"], "b": ["yes", "1", "0", "True", "TRUE", ""], "il": ["x", "3x", "20,30", "1.5"]}
READ = {  # options a program always reads as a number or switch, whatever the others say
 "travatar": "debug trg_factors nbest_tree consider_trg nbest nbest_uniq threads pop_limit forest_nbest_trim".split(),
 "batch-tune": "debug trg_factors threads restarts threshold rand_seed".split(),
 "forest-extractor": "debug attach_len nonterm_len count_rules src_lex_len compose partial_count_thresh term_len normalize_probs".split(),
 "hiero-extractor": "max_initial_phrase max_terminals".split(), "mt-evaluator": "debug bootstrap sent".split(), "mt-segmenter": "debug slack".split(),
 "rescorer": ["debug"], "tokenizer": ["debug"], "train-caser": [], "tree-converter": "debug flatten".split()}
ENUM = {"travatar": ["in_format", "tm_storage", "tune_update", "binarize"], "batch-tune": ["algorithm", "eval"], "forest-extractor": ["input_format", "output_format", "binarize", "attach"], "hiero-extractor": [], "mt-evaluator": ["eval"],
 "mt-segmenter": ["eval"], "rescorer": ["mbr_eval"], "tokenizer": ["type"], "train-caser": [], "tree-converter": ["input_format", "output_format", "binarize", "case"]}
FILES = {"travatar": ["tm_file", "lm_file", "config_file"], "batch-tune": ["nbest", "weight_in", "stat_in"], "mt-evaluator": ["ref"], "mt-segmenter": ["ref"], "rescorer": ["nbest", "weight_in"]}
OUTF = {"travatar": ["nbest_out", "forest_out", "trace_out"], "rescorer": ["nbest_out"]}
def with_opt(o, n, v): return [x for x in o if x[0] != n] + [(n, v)]
def damages(s, prog, o, args):
    """every way of spoiling this invocation: (what, options, main args, raw extra command line)"""
    d, get = [], dict(o)
    for n in READ[prog]:
        k = dict((a, c) for a, _, c in DOC[prog])[n]
        if n == "normalize_probs" or n == "partial_count_thresh" or True: d.append(("%s of the wrong type" % n, lambda n=n, k=k: (with_opt(o, n, s.pick(BADNUM[k])), args, [])))
    for n in ENUM[prog]: d.append(("bad %s" % n, lambda n=n: (with_opt(o, n, s.pick(["nosuch", "pen", "Penn", "none2", "x", "rightt"])), args, [])))
    for n in FILES.get(prog, []):
        if n == "lm_file" and get.get("tm_storage") == "cfg": pass
        d.append(("%s does not exist" % n, lambda n=n: (with_opt(o, n, os.path.join(s.tmp, "nosuch")), args, [])))
    for n in OUTF.get(prog, []): d.append(("%s cannot be written" % n, lambda n=n: (with_opt(o, n, os.path.join(s.tmp, "no", "such")), args, [])))
    for i in range(len(args)): d.append(("input file %d does not exist" % i, lambda i=i: (o, args[:i] + [os.path.join(s.tmp, "nosuch")] + args[i+1:], [])))
    lo, hi = ARGS[prog]
    if len(args) == lo and lo: d.append(("too few files", lambda: (o, args[:-1], [])))
    if hi < 10: d.append(("too many files", lambda: (o, args + ["extra"] * (hi - len(args) + 1), [])))
    d.append(("unknown option", lambda: (o, args, [s.pick(["-nosuch", "-" + (DOC[prog][0][0]) + "x", "--debug", "-Debug"])] + (["1"] if s.coin() else []))))
    d.append(("value missing", lambda: (o, args, None)))
    if prog == "travatar":
        d.append(("no weights", lambda: ([x for x in o if x[0] != "weight_vals"], args, [])))
        d.append(("bad weights", lambda: (with_opt(o, "weight_vals", s.pick(["p", "p=1 q", "p=1 p=2", "p=x", "p=", "p=1x", "p=1 =", "p 1"])), args, [])))
        d.append(("no rule table", lambda: ([x for x in o if x[0] != "tm_file"], args, [])))
        d.append(("no threads", lambda: (with_opt(o, "threads", s.pick(["0", "-1"])), args, [])))
        if get["tm_storage"] in ("hash", "marisa"): d.append(("two rule tables", lambda: (with_opt(o, "tm_file", get["tm_file"] + s.pick([" ", "|"]) + get["tm_file"]), args, [])))
        if get["tm_storage"] == "fsm": d.append(("span limits do not match", lambda: (with_opt(o, "hiero_span_limit", s.pick(["20 20", "", "x", "3|4|5"])), args, [])))
        if "lm_file" in get:
            lm = get["lm_file"]
            if get["tm_storage"] == "cfg": d.append(("several models", lambda: (with_opt(o, "lm_file", lm + " " + lm) if s.coin() else with_opt(o, "pop_limit", "10 20"), args, [])))
            else:
                d.append(("bad search", lambda: (with_opt(o, "search", s.pick(["cpp", "INC", "x"])), args, [])))
                d.append(("bad lm_multi_type", lambda: (with_opt(o, "lm_multi_type", s.pick(["both", "x"])), args, [])))
                d.append(("pop limits for joint models", lambda: (with_opt(o, "pop_limit", s.pick(["10 20", "5|6|7", ""])), args, [])))
                d.append(("no pop limit", lambda: (with_opt(with_opt(o, "lm_multi_type", "consec"), "pop_limit", ""), args, [])))
        tune = lambda extra: [x for x in o if x[0] != "threads"] + extra
        W, R = ("tune_weight_out", os.path.join(s.tmp, "wout")), ("tune_ref_files", write(s, "tref", "\n".join(REFS) + "\n"))
        P = ("tune_update", "perceptron")
        d.append(("tuning without references", lambda: (tune([P, W]), args, [])))
        d.append(("tuning without a place for weights", lambda: (tune([P, R]), args, [])))
        d.append(("tuning with threads", lambda: (tune([P, R, W, ("threads", "2")]), args, [])))
        d.append(("tuning with a bad measure", lambda: (tune([P, R, W, ("tune_loss", "nosuch")]), args, [])))
        d.append(("tuning with bad ranges", lambda: (tune([P, R, W, ("tune_weight_ranges", s.pick(["1", "1|2|3|4", "a|b", "0|x|p"]))]), args, [])))
        d.append(("tuning with missing references", lambda: (tune([P, W, ("tune_ref_files", os.path.join(s.tmp, "nosuch"))]), args, [])))
    if prog == "batch-tune":
        nb = get["nbest"]
        d.append(("both n-best and forest", lambda: (o + [("forest", nb)], args, [])))
        d.append(("neither n-best nor forest", lambda: ([x for x in o if x[0] != "nbest"], args, [])))
        d.append(("statistics do not match", lambda: (o + [("stat_in", nb + "," + nb)], args, [])))
        d.append(("bad ranges", lambda: (with_opt(o, "weight_ranges", s.pick(["1", "1|2|3|4", "a|b", "0|x|p"])), args, [])))
        d.append(("bad weights", lambda: (with_opt(o, "weight_in", write(s, "badw", s.pick(["p", "p=1\nq", "p=1\np=2", "p=x", "p=", "p=1x"]) + "\n")), args, [])))
        d.append(("no threads", lambda: (with_opt(o, "threads", s.pick(["0", "-2"])), args, [])))
        d.append(("negative restarts", lambda: (with_opt(o, "restarts", s.pick(["-1", "-2", "-5"])), args, [])))
        d.append(("bad directions", lambda: (with_opt(with_opt(o, "algorithm", "mert"), "mert_directions", s.pick(["x", "Coord", ""])), args, [])))
        d.append(("bad update", lambda: (with_opt(with_opt([x for x in o if x[0] != "threads"], "algorithm", "online"), "update", s.pick(["x", "percep", ""])), args, [])))
    if prog == "rescorer": d.append(("bad weights", lambda: (with_opt(o, "weight_in", write(s, "badw", s.pick(["p", "p=1\nq", "p=1\np=2", "p=x", "p="]) + "\n")), args, [])))
    if prog == "hiero-extractor": d.append(("limit below one", lambda: (with_opt(o, s.pick(["max_initial_phrase", "max_terminals"]), s.pick(["0", "-1"])), args, [])))
    if prog in ("forest-extractor", "hiero-extractor"):
        def uneven():
            i = s.below(3); t = open(args[i]).read(); return o, args[:i] + [write(s, "uneven", t + t.split("\n")[0] + "\n")] + args[i+1:], []
        d.append(("files of different length", uneven))
    if prog == "tree-converter":
        d.append(("casing model missing", lambda: (with_opt(o, "case", s.pick(["true:model=" + os.path.join(s.tmp, "nosuch"), "true", "low:x=y"])), args, [])))
        d.append(("compound splitting model missing", lambda: (with_opt(o, "compoundsplit", os.path.join(s.tmp, "nosuch")), args, [])))
    return d
def refusals(s):
    prog = s.pick(sorted(DOC) + ["travatar"] * 4 + ["batch-tune"] * 2); o, args, inp = setup(s, prog)
    what, f = s.pick(damages(s, prog, o, args)); o2, args2, raw = f()
    infile = [n for n, _ in o2 if s.coin()] if prog == "travatar" else []
    if raw is None:          # an option that wants a number is given nothing
        num = [n for n in READ[prog] if dict((a, c) for a, _, c in DOC[prog])[n] != "b"]
        if not num: s.check(True, ""); return
        n = s.pick(num); what = "no value for " + n; o2 = [x for x in o2 if x[0] != n]; raw = ["-" + n]
    cmd = []
    if prog == "travatar":
        bad = [n for n, v in o2 if v == ""]            # an empty value can only be given on the command line
        infile = [n for n in infile if n not in bad and n != "config_file"]
        cf = dict(o2).get("config_file") or write(s, "conf.ini", "".join("[%s]\n%s\n\n" % (n, v) for n, v in o2 if n in infile))
        cmd = ["-config_file", cf] if s.coin() else []
        rest = [x for x in o2 if x[0] != "config_file" and x[0] not in infile]
        for n, v in rest: cmd += ["-" + n, v]
        if "-config_file" not in cmd: cmd += ["-config_file", cf]
    else:
        for n, v in o2: cmd += ["-" + n, v]
    cmd = args2 + cmd + raw if s.coin() else cmd + args2 + raw if not raw or s.coin() else args2 + cmd + raw
    s.note(what + ":", prog, *["'%s'" % a for a in cmd])
    r = run([BIN[prog]] + cmd, inp, cwd=s.tmp, timeout=60)
    s.check(r.rc != 0, lambda: "%s: %s went on and printed %r" % (what, prog, r.out[:300]))
    s.check(r.rc in (1, -6), lambda: "%s: %s crashed with status %d\n%s" % (what, prog, r.rc, r.err[-600:]))
    tail = r.err.split("Optional arguments:")[-1]
    s.check("what():" in r.err or "Value '" in r.err or "Illegal argument" in r.err or "Wrong number" in r.err or "ERROR" in r.err or "Must specify" in r.err, lambda: "%s: no error message\n%s" % (what, tail[-500:]))
    s.label(prog + ": " + re.sub(r"^no value for .*", "value missing", re.sub(r"^\w+ of the wrong type", "wrong type", what))); s.nontrivial()

def weights(s):
    """weights given to the decoder and the rescorer are the ones that score"""
    names = []
    for _ in range(s.range(1, 6)):
        n = s.pick(["p", "lfd", "egf", "p0", "w", "lm", "x=y", "a=", "p.1", "-p", "0"]) + s.pick(["", "", "1", "_e"])
        if n not in names: names.append(n)
    num = lambda: s.pick(["1", "-1", "0.5", "-0.25", "2e-1", ".75", "-3.", "1E1", "+0.125", "0", "100"])
    w = [(n, num()) for n in names if s.coin(4, 5)]; fe = [(n, s.pick(["1", "-1", "0.5", "2", "-0.25", "4"])) for n in names if s.coin(4, 5)]
    if not w: w = [("dummy", "0")]
    want = sum(float(v) * float(dict(w)[n]) for n, v in fe if n in dict(w))
    sep = lambda: s.pick([" ", "\n", "  ", "\n"])
    wt = w[0][0] + "=" + w[0][1] + "".join(sep() + n + "=" + v for n, v in w[1:]); ft = " ".join(n + "=" + v for n, v in fe)
    s.note("weights", repr(wt), "features", ft)
    if s.coin():
        wf = write(s, "w", wt + "\n"); r = run([BIN["rescorer"], "-weight_in", wf, "-nbest_out", os.path.join(s.tmp, "nb")], "0 ||| a b ||| 17 ||| %s\n" % ft, cwd=s.tmp)
        s.check(r.rc == 0, lambda: "rescorer failed: " + r.err[-500:]); line = open(os.path.join(s.tmp, "nb")).read()
    else:
        o = [("tm_file", write(s, "rules", 'S ( A ( "b" ) ) ||| "c" @ S ||| %s\n' % ft)), ("tm_storage", s.pick(["hash", "marisa"])), ("nbest_out", os.path.join(s.tmp, "nb"))]
        cf, cmd, first = "", [], "\n".join(re.split(r"\n+", wt))
        stale = " ".join(n + "=" + num() for n in names if s.coin())
        if s.coin() or wt.startswith("-"): cf = "[weight_vals]\n%s\n\n" % first
        else: cf = "[weight_vals]\n%s\n\n" % (stale or "q=1"); cmd = ["-weight_vals", wt]
        cf += "".join("[%s]\n%s\n\n" % x for x in o)
        r = run([BIN["travatar"], "-config_file", write(s, "conf.ini", cf)] + cmd, "(S (A b))\n", cwd=s.tmp)
        s.check(r.rc == 0, lambda: "travatar failed: " + r.err[-500:]); line = open(os.path.join(s.tmp, "nb")).read()
    cols = line.strip("\n").split(" ||| ")
    s.check(len(cols) == 4, lambda: "n-best line " + line)
    s.check(abs(float(cols[2]) - want) <= 1e-3 + 1e-5 * abs(want), lambda: "score %s, expected %g" % (cols[2], want))
    s.nontrivial(len([1 for n, v in fe if float(dict(w).get(n, 0)) != 0]) >= 2)

PROPS = [Prop("weights", weights, 1000, 15000), Prop("given_values", given_values, 1500, 20000), Prop("same_output", same_output, 1200, 12000), Prop("refusals", refusals, 3000, 30000)]
