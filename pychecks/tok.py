"""C20: the tokenizer program and detok.pl against invariants, positional laws and a reference cascade."""
import os, re
from vlib.pbt import Prop, Failure, run

REPO = TOK = None
def prepare(build):
    global REPO, TOK
    REPO = build.REPO
    TOK = build.program("tokenizer")

# ---- the reference: a hand-written scanner per rule ------------------------
# Every rule works on the padded line left to right; a rule looks at one place at a time and goes on after
# what it has consumed. Everything is in bytes.
SP = b" \t\v"
OPEN = b" ([{<"
def quote_at(s, i):
    """length of the unicode quote at i, or 0"""
    if s[i:i+2] == b"\xc2\xab": return 2
    t = s[i:i+3]
    if len(t) == 3 and ((t[:2] == b"\xe2\x80" and (0x98 <= t[2] <= 0x9f or 0xb9 <= t[2] <= 0xba)) or (t[:2] == b"\xe3\x80" and 0x88 <= t[2] <= 0x9b)): return 3
    return 0
def scan(s, rule):
    out, i = b"", 0
    while i < len(s):
        r = rule(s, i)
        if r is None: out += s[i:i+1]; i += 1
        else:
            n, t = r; out += t; i += n
    return out
def at_start(what, repl):
    def f(s):
        i = 0
        while i < len(s) and s[i:i+1] in (b" ", b"\t", b"\v"): i += 1
        n = what(s, i)
        return repl(s[i:i+n]) + s[i+n:] if n else s
    return f
def one_of(chars): return lambda s, i: 1 if i < len(s) and s[i:i+1] in [bytes([c]) for c in chars] else 0
def after_open(what, repl):
    def r(s, i):
        if s[i] in OPEN:
            n = what(s, i + 1)
            if n: return 1 + n, s[i:i+1] + repl(s[i+1:i+1+n])
    return lambda s: scan(s, r)
def before_close(what, repl):
    def r(s, i):
        n = what(s, i)
        if n and i + n < len(s) and s[i+n] in b" ,.": return n + 1, repl(s[i:i+n]) + s[i+n:i+n+1]
    return lambda s: scan(s, r)
def apostrophe_close(s):
    def r(s, i):
        if s[i] != 0x27 and i + 2 < len(s) + 0 and s[i+1:i+2] == b"'" and s[i+2:i+3] in (b" ", b",", b"."):
            return 3, s[i:i+1] + b" '" + s[i+2:i+3]
    return scan(s, r)
SYM = b";@#$%&=*"
def symbols(s):
    def r(s, i):
        j = i
        while j < len(s) and s[j] in SYM: j += 1
        if j > i: return j - i, b" " + s[i:j] + b" "
        if s[i:i+3] == b"...": return 3, b" ... "
    return scan(s, r)
DIG = b"0123456789"
def comma_after(s):
    def r(s, i):
        if s[i] not in DIG and s[i+1:i+2] in (b",", b":"): return 2, s[i:i+1] + b" " + s[i+1:i+2] + b" "
    return scan(s, r)
def comma_before(s):
    def r(s, i):
        if s[i] in b",:" and i + 1 < len(s) and s[i+1] not in DIG: return 2, b" " + s[i:i+1] + b" " + s[i+1:i+2]
    return scan(s, r)
def period_close(s):
    def r(s, i):
        if s[i] == 0x2e:
            j = i + 1
            while j < len(s) and s[j] in b"[])}>\"'": j += 1
            # the opening square bracket is among the characters of the rule
            if j > i + 1: return j - i, b". " + s[i+1:j]
    return scan(s, r)
def brackets(s):
    def r(s, i):
        if s[i] in b"?![](){}<>": return 1, b" " + s[i:i+1] + b" "
        if s[i:i+2] == b"--": return 2, b" -- "
    return scan(s, r)
CONTR = [b"s", b"S", b"m", b"M", b"d", b"D", b"ll", b"LL", b"re", b"RE", b"ve", b"VE"]
def contractions(s):
    def r(s, i):
        if s[i] == 0x27:
            for c in CONTR:
                j = i + 1 + len(c)
                if s[i+1:j] == c and j < len(s) and s[j] in b" ,.\"'": return j + 1 - i, b" '" + c + s[j:j+1]
    return scan(s, r)
def negations(s):
    def r(s, i):
        if s[i:i+3] in (b"n't", b"N'T") and i + 3 < len(s) and s[i+3] in b" ,.\"'": return 4, b" " + s[i:i+4]
    return scan(s, r)
NUMW = [b"No", b"Vol", b"vol", b"no", b"nos", b"Fig", b"fig", b"Tab", b"tab", b"pp", b"c"]
def numbered(s):
    def r(s, i):
        if s[i] == 0x20:
            for w in NUMW:
                j = i + 1 + len(w)
                if s[i+1:j] == w and s[j:j+1] == b"." and j + 1 < len(s) and s[j+1] in DIG: return j + 2 - i, b" " + w + b". " + s[j+1:j+2]
    return scan(s, r)
PRE = [b""] + [x.encode() for x in "T G M k h da d c m n p".split()]
UNIT = [x.encode() for x in "m g l A K mol cd rad sr Hz N Pa J W C V eV F Ω S Wb T H lm lx Bq Gy Sv kat rpm Wd dB db".split()]
ALLU = set(p + u for p in PRE for u in UNIT)
def units(s):
    def r(s, i):
        if s[i] in DIG:
            j = s.find(b" ", i)
            if j > i and s[i+1:j] in ALLU: return j + 1 - i, s[i:i+1] + b" " + s[i+1:j+1]
    return scan(s, r)
NONBREAK = set(x.encode() for x in "A B C D E F G H J K L M N O P Q R S T U V W X Y Z Jan Feb Mar Apr Jun Jul Aug Sep Sept Oct Dec Adj Adm Adv Asst Bart Bldg Brig Bros Capt Cmdr Co CO Col Comdr Con Corp Cpl Dept DR Dr Drs Ens Gen Gov Hon Hr Hosp Inc INC Insp Lt Ltd LTD MM MR MRS MS Maj Messrs Mlle Mme Mr Mrs Ms Msgr Mt No Op Ord Pfc Ph Prof Pvt Rep Reps Res Rev Rt Sen Sens Sfc Sgt Sr St Supt Surg v vs rev Nos Nr etc al c nos ca cf m p ed No Vol vol no nos Fig fig Tab tab pp approx ..".split())
REPL = {"…": "...", "–": "--", ".'": ". '", "Cannot": "Can not", "D'ye": "D' ye", "Gimme": "Gim me", "Gonna": "Gon na", "Gotta": "Got ta", "Lemme": "Lem me",
        "More'n": "More 'n", "'Tis": "'T is", "'Twas": "'T was", "Wanna": "Wan na", "cannot": "can not", "d'ye": "d' ye", "gimme": "gim me", "gonna": "gon na",
        "gotta": "got ta", "lemme": "lem me", "more'n": "more 'n", "'tis": "'t is", "'twas": "'t was", "wanna": "wan na",
        "(": "-LRB-", ")": "-RRB-", "[": "-LSB-", "]": "-RSB-", "{": "-LCB-", "}": "-RCB-"}
REPL = {k.encode(): v.encode() for k, v in REPL.items()}
sq, dq = one_of(b"'`"), one_of(b"\"")
RULES = [at_start(sq, lambda t: b" ` "), after_open(sq, lambda t: b" ` "), at_start(dq, lambda t: b" `` "), after_open(dq, lambda t: b" `` "),
         apostrophe_close, before_close(dq, lambda t: b" '' "),
         at_start(quote_at, lambda t: b" " + t + b" "), after_open(quote_at, lambda t: b" " + t + b" "), before_close(quote_at, lambda t: b" " + t + b" "),
         symbols, comma_after, comma_before, period_close, brackets, contractions, negations, numbered, units]
def reference(line):
    s = b" " + line + b" "
    for r in RULES: s = r(s)
    out = []
    for w in s.split(b" "):
        if not w: continue
        if w.endswith(b"."):
            out.append(w[:-1] + b" ." if len(w) > 1 and w.count(b".") == 1 and w[:-1] not in NONBREAK else w)
        else: out.append(REPL.get(w, w))
    return b" ".join(out)

# ---- generators ------------------------------------------------------------
PIECES = ["a", "b", "cat", "Dog", "5", "10", "1,000", "3:45", "'", "''", "\"", "`", "``", "“", "”", "‘", "’", "«", "»", "「", "」", "〈", "›", "…", "–", "...", "..", ".", ".",
          ",", ",", ":", ";", "?", "!", "(", ")", "[", "]", "{", "}", "<", ">", "-", "--", "---", "/", "\\", "@", "#", "$", "%", "&", "=", "*", "|||", "^", "~", "_", "+",
          "'s", "'m", "'D", "'ll", "'re", "'VE", "n't", "N'T", "don't", "CAN'T", "it's", "cannot", "Cannot", "gonna", "Lemme", "'tis", "'Twas", "d'ye", "more'n", "wanna", "Gimme",
          "Mr.", "etc.", "U.S.", "e.g.", "Dr", "No.", "no.", "Fig.", "pp.", "vol.", "c.", "tab.", "approx", "km", "kg", "MHz", "mol", "dB", "Ω", "m", "K", "da", "é", "の", "語", "Ω", "𝄞", "\u3000",
          "-LRB-", "-RRB-", "\t", "nos", "Nov.", "Sept.", "May.", "..)", ".'", ".\"", "x"]
def line(s):
    n = s.size(0, 12); out = ""
    tight = s.range(0, 2)
    for _ in range(n):
        out += s.pick(PIECES)
        if tight == 0 or (tight == 1 and s.coin(2, 3)): out += s.pick([" ", " ", " ", "  "])
    return out
def tokenize(lines, args=(), end=True):
    r = run([TOK] + list(args), inp=b"".join(l + b"\n" for l in lines) if end else b"\n".join(lines))
    if r.rc != 0: raise Failure("tokenizer exits with %d: %s" % (r.rc, r.err[-300:]))
    if r.raw and not r.raw.endswith(b"\n"): raise Failure("the last line is not ended: %r" % r.raw)
    return r.raw.split(b"\n")[:-1]
BR = {b"-LRB-": b"(", b"-RRB-": b")", b"-LSB-": b"[", b"-RSB-": b"]", b"-LCB-": b"{", b"-RCB-": b"}", "…".encode(): b"...", "–".encode(): b"--", b'"': b"''", b"`": b"'"}
def canon(b):
    for c in (b" ", b"\t", b"\v", b"\f", b"\r"): b = b.replace(c, b"")
    for k, v in BR.items(): b = b.replace(k, v)
    return b
def invariants(s, ls, out):
    s.check(len(ls) == len(out), lambda: "%d lines in, %d lines out" % (len(ls), len(out)))
    for a, b in zip(ls, out):
        s.check(canon(a) == canon(b), lambda: "text changed: %r became %r" % (a, b))
        s.check(not b.startswith(b" ") and not b.endswith(b" ") and b"  " not in b, lambda: "spaces of %r" % b)
def p_text(s):
    """text is kept, lines are independent, whatever the bytes"""
    def raw():
        if s.coin(1, 3): return bytes(s.pick([0x20, 0x41, 0x27, 0x22, 0x2e, 0x80, 0xe2, 0xc2, 0xab, 0xff, 0x01, 0x09, 0x28, 0x98, 0xe3, 0x35, 0x0d, 0x0c, 0x00]) for _ in range(s.size(0, 14)))
        return line(s).encode()
    ls = [raw() for _ in range(s.size(0, 8))]
    for l in ls: s.note(repr(l))
    args = s.pick([[], ["-type", "penn"]])
    out = tokenize(ls, args, True if not ls or not ls[-1] else s.coin())
    invariants(s, ls, out)
    if ls:
        k = s.below(len(ls)); alone = tokenize([ls[k]])
        s.check(alone == [out[k]], lambda: "alone %r becomes %r, among others %r" % (ls[k], alone, out[k]))
    s.nontrivial(sum(a.split() != b.split() for a, b in zip(ls, out)) >= 1 and len(ls) >= 2)
def p_reference(s):
    ls = [line(s).encode() for _ in range(s.range(4, 12))]
    out = tokenize(ls)
    for l, o in zip(ls, out):
        w = reference(l)
        if o != w:
            s.note(repr(l)); raise Failure("%r becomes %r, expected %r" % (l.decode(), o.decode(errors="replace"), w.decode(errors="replace")))
        if len(s.log) < 4: s.note(l.decode(), " => ", o.decode(errors="replace"))
    invariants(s, ls, out)
    s.nontrivial(sum(len(o.split()) >= len(l.split()) + 2 for l, o in zip(ls, out)) >= 2)
WORDS = ["the", "cat", "Dog", "house", "x", "ab", "état", "語", "Zoo", "words", "it"]
def p_laws(s):
    """where the tokens of a sentence of plain words and separated punctuation are known"""
    ins, want = [], []
    for _ in range(s.range(3, 8)):
        text, toks, opened = "", [], []
        n = s.range(1, 9)
        for i in range(n):
            w = s.pick(WORDS); lead = [], []
            kind = s.below(13); pre = post = ""; tp, ts, body = [], [], None
            if kind == 0: pre, post, tp, ts = "(", ")", ["-LRB-"], ["-RRB-"]
            elif kind == 1: pre, post, tp, ts = '"', '"', ["``"], ["''"]
            elif kind == 2: pre, post, tp, ts = "[", "]", ["-LSB-"], ["-RSB-"]
            elif kind == 3: post, ts = ",", [","]
            elif kind == 4: post, ts = s.pick([("?", ["?"]), ("!", ["!"]), ("?!", ["?", "!"]), (";", [";"]), (":", [":"]), ("%", ["%"]), ("...", ["..."])])
            elif kind == 5: pre, tp = s.pick([("$", ["$"]), ("#", ["#"]), ("@", ["@"]), ("&", ["&"])])
            elif kind == 6: post, ts = s.pick([("'s", ["'s"]), ("'ll", ["'ll"]), ("'RE", ["'RE"]), ("n't", ["n't"])])
            elif kind == 7: pre, post, tp, ts = "“", "”", ["“"], ["”"]
            elif kind == 8: w = s.pick(["1,000", "3:45", "3.14", "a-b", "and/or", "10", "U.S.", "e.g.", "Mr.", "Sept."])
            elif kind == 9: w = s.pick(["cannot", "gonna", "Wanna"]); body = [w[:3], w[3:]]
            elif kind == 10: w = s.pick(["5km", "3kg", "7Hz"]); body = [w[0], w[1:]]
            elif kind == 11 and i == n - 1: post, ts = s.pick([(".", ["."]), (".\"", [".", "''"]), (".)", [".", "-RRB-"])])
            if kind == 10 and i == n - 1 and False: pass
            toks += tp + (body or [w]) + ts
            text += pre + w + post
            if i < n - 1 or s.coin(1, 4): text += s.pick([" ", "  "])
        ins.append(text); want.append(" ".join(toks))
    out = [o.decode() for o in tokenize([t.encode() for t in ins])]
    for t, w, o in zip(ins, want, out):
        if o != w: raise Failure("%r becomes %r, expected %r" % (t, o, w))
    s.note(ins[0], " => ", want[0]); s.nontrivial(sum(len(w.split()) >= len(t.split()) + 2 for t, w in zip(ins, want)) >= 2)
def p_none(s):
    ls = [line(s).encode() for _ in range(s.range(0, 5))]
    out = tokenize(ls, ["-type", "none"])
    s.check(out == ls, lambda: "%r became %r" % (ls, out)); s.nontrivial(sum(map(len, ls)) > 10)
    bad = s.pick(["penn2", "Penn", "x"])
    r = run([TOK, "-type", bad], inp=b"a\n"); s.check(r.rc != 0 and r.raw == b"", lambda: "tokenizer type %s gives %d %r" % (bad, r.rc, r.raw))

# ---- detokenisation --------------------------------------------------------
def cjk(c): o = ord(c); return 0x3040 <= o <= 0x30ff or 0xff00 <= o <= 0xffef or 0x4e00 <= o <= 0x9fff or c in "、。「」\u3000“”"
DUNIT = set(p + u for p in ["", "T", "G", "M", "k", "h", "da", "d", "c", "m", "μ", "n", "p"] for u in "m g l s A K mol cd rad sr Hz N Pa J W C V eV F Ω S Wb T H lm lx Bq Gy Sv kat rpm Wd dB db".split())
def detok_model(t, lang):
    t = re.sub(r"([0-9]) ([^\W0-9_]+)(?=[ /-])", lambda m: m.group(1) + m.group(2) if m.group(2) in DUNIT else m.group(0), t)
    t = re.sub(r"([0-9]) ([℃°K] )", r"\1\2", t)
    out = ""
    for i, c in enumerate(t):
        if c == " " and 0 < i < len(t) - 1 and cjk(t[i-1]) and cjk(t[i+1]): continue
        out += c
    t = out
    t = re.sub(r" ([,.?:。、%!])", r"\1", t)
    t = t.replace(" - ", "-").replace("\\*", "*").replace(" \\/ ", "/").replace("`` ", '"').replace(" ''", '"')
    t = re.sub(r" (n't|'ve|'s|'d|'m|'ll)", r"\1", t, flags=re.I | re.A)
    for a, o, c in (("r", "(", ")"), ("s", "[", "]"), ("c", "{", "}")):
        t = re.sub(r" ?-r%sb-" % a, c, t, flags=re.I | re.A); t = re.sub(r"-l%sb- ?" % a, o, t, flags=re.I | re.A)
    if lang not in ("zh", "ja") and t: t = t[0].upper() + t[1:]
    return t
def detok(lines, lang):
    r = run(["perl", os.path.join(REPO, "script", "tok", "detok.pl")] + (["--lang", lang] if lang else []), inp="".join(l + "\n" for l in lines))
    if r.rc != 0: raise Failure("detok.pl exits with %d: %s" % (r.rc, r.err[-300:]))
    return r.out.split("\n")[:-1]
DTOK = ["a", "the", "Cat", "é", "5", "10", "km", "kg", "Hz", "μm", "s", "/", "-", "--", "℃", "°", "K", "の", "語", "カ", "。", "、", "「", "」", "“", "”", "Ａ", ",", ".", "?", ":", "%", "!", ";", "\\*", "\\/", "``", "''", "'",
        "n't", "'ve", "'S", "'d", "'m", "'ll", "'re", "-lrb-", "-RRB-", "-LSB-", "-rsb-", "-LCB-", "-rcb-", "-LRB-", "-RRB-", "$", "&", "x"]
def p_detok(s):
    lang = s.pick(["", "en", "ja", "zh", "fr"]); ls = []
    for _ in range(s.range(2, 8)): ls.append(" ".join(s.pick(DTOK) for _ in range(s.size(0, 10))))
    out = detok(ls, lang); s.check(len(out) == len(ls), lambda: "%d lines in, %d out" % (len(ls), len(out)))
    for a, b in zip(ls, out):
        w = detok_model(a, lang or "en")
        if b != w: raise Failure("%r becomes %r, expected %r (lang %s)" % (a, b, w, lang))
    s.note(ls[0], " => ", out[0]); s.nontrivial(sum(len(b) < len(a) for a, b in zip(ls, out)) >= 2)
def p_round(s):
    """detokenising a tokenised sentence of ordinary spacing gives the sentence"""
    ins = []
    for _ in range(s.range(2, 8)):
        t = ""; n = s.range(1, 9)
        for i in range(n):
            w = s.pick(["the", "cat", "Dog", "house", "xy", "état", "Zoo", "words", "10", "well-known", "and/or", "3.14", "1,000"])
            kind = s.below(10); pre = post = ""
            alpha = w[0].isalpha() and w[-1].isalpha()
            if kind == 0: pre, post = "(", ")"
            elif kind == 1: pre, post = '"', '"'
            elif kind == 2: pre, post = "[", "]"
            elif kind == 3: post = ","
            elif kind == 4: post = s.pick(["?", "!", ":", "%"])
            elif kind == 5: pre, post = "{", "}"
            elif kind == 6 and alpha: post = s.pick(["'s", "'ve", "'d", "n't"])
            elif kind == 7 and i == n - 1: post = "."
            t += (" " if t else "") + pre + w + post
        ins.append(t[0].upper() + t[1:])
    toks = [o.decode() for o in tokenize([t.encode() for t in ins])]
    out = detok(toks, "en")
    for t, k, o in zip(ins, toks, out):
        if o != t: raise Failure("%r tokenised is %r, detokenised %r" % (t, k, o))
    s.note(ins[0], " => ", toks[0]); s.nontrivial(sum(len(k.split()) >= len(t.split()) + 2 for t, k in zip(ins, toks)) >= 2)

PROPS = [Prop("text", p_text, 1500, 60000), Prop("reference", p_reference, 2500, 100000), Prop("laws", p_laws, 1500, 60000), Prop("none", p_none, 200, 4000),
         Prop("detok", p_detok, 1000, 30000), Prop("round", p_round, 600, 20000)]
