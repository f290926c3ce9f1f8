// C28: readers of external data on damaged input: an error or a usable value, never a memory error.
#include "tree.h"
#include "lmgen.h"
#include <travatar/config-travatar-runner.h>
#include <travatar/travatar-runner.h>
#include <travatar/config-forest-extractor-runner.h>
#include <travatar/forest-extractor-runner.h>
#include <travatar/config-hiero-extractor-runner.h>
#include <travatar/hiero-extractor-runner.h>
#include <travatar/config-tree-converter-runner.h>
#include <travatar/tree-converter-runner.h>
#include <travatar/config-mt-evaluator-runner.h>
#include <travatar/mt-evaluator-runner.h>
#include <travatar/config-mt-segmenter-runner.h>
#include <travatar/mt-segmenter-runner.h>
#include <travatar/config-rescorer-runner.h>
#include <travatar/rescorer-runner.h>
#include <travatar/config-batch-tune.h>
#include <travatar/batch-tune-runner.h>
#include <travatar/config-tokenizer-runner.h>
#include <travatar/tokenizer-runner.h>
#include <travatar/config-train-caser-runner.h>
#include <travatar/train-caser-runner.h>
#include <travatar/tree-io.h>
#include <travatar/binarizer.h>
#include <travatar/caser.h>
#include <travatar/unary-flattener.h>
#include <travatar/weights.h>
#include <travatar/alignment.h>
#include <travatar/math-query.h>
#include <travatar/eval-measure.h>
#include <travatar/eval-measure-loader.h>
#include <travatar/lookup-table-hash.h>
#include <travatar/lookup-table-marisa.h>
#include <travatar/lookup-table-fsm.h>
#include <travatar/lookup-table-cfglm.h>
#include <travatar/symbol-set.h>
#include <lm/model.hh>
#include <unistd.h>
#include <fstream>
using namespace tg; typedef vector<string> Words;

struct Sink : streambuf { int overflow(int c) { return c; } std::streamsize xsputn(const char*, std::streamsize n) { return n; } };
struct Hush { Sink s; streambuf *o, *e, *i; int f; Hush(streambuf* in = 0) : o(cout.rdbuf(&s)), e(cerr.rdbuf(&s)), i(cin.rdbuf()), f(GlobalVars::trg_factors) { if (in) { cin.rdbuf(in); cin.clear(); } } ~Hush() { cout.rdbuf(o); cerr.rdbuf(e); cin.rdbuf(i); cin.clear(); GlobalVars::trg_factors = f; GlobalVars::debug = 0; } };
static string file(const string& n, const string& text) { string p = pbt::scratch() + "/" + n; pbt::spew(p, text); return p; }
static string slurp(const string& p) { ifstream i(p.c_str()); stringstream o; o << i.rdbuf(); return o.str(); }

// run one of the programs in process; true when it went through
template <class C, class R> bool prog(const Words& args, const string& input, string* out = 0) {
  istringstream in(input); Hush h(in.rdbuf()); ostringstream os; cout.rdbuf(os.rdbuf()); vector<char*> av; av.push_back((char*)"prog"); for (auto& a : args) av.push_back((char*)a.c_str());
  try { C c; c.LoadConfig(av.size(), &av[0], false); R r; r.Run(c); } catch (std::exception& e) { return false; } if (out) *out = os.str(); return true;
}

// ---- damage ----
static const char* TOK[] = {"|||", " ||| ", "(", ")", "\"", "\"\"", " ", "\n", "@", " @ ", "x0", "x1:NP", "x9", "x99:A", "x2147483647", "x2147483648:A", "x-1", "-1", "0", "1", "-", "=", "==", "a=", "=1", "nan", "1e999", "-inf", "99999999999999999999", "4294967296", "2147483647", "-2147483648", "|COL|", " |COL| ", "{", "}", "[", "]", ":", ",", "null", "\\", "\\u12", "&", "<tree label=\"X\">", "</tree>", "<", ">", "\t", "\r", "0-0", "5-7", "1-", "-2-3", "100000-1", "<s>", "</s>", "<unk>", "\\end\\", "\\data\\", "sent 1 len", "||| -1", "TOP", "NP[0,1]", "[0,9]", "\xff\xfe", "\xe3\x81", "max=1", "|", "1|2", ".", ";", "#"};
static string mangle(S& s, string t, int least = 0) {
  int n = s.range(least, 4); if (s.coin(1, 12)) n += s.below(12);
  for (int k = 0; k < n; k++) {
    size_t L = t.size(); switch (s.below(10)) {
      case 0: if (L) t.erase(s.below(L)); break;                                                      // truncated
      case 1: if (L) t[s.below(L)] = (char)s.below(256); break;                                      // a byte changed
      case 2: if (L) t.erase(s.below(L), s.range(1, 6)); break;                                        // some lost
      case 3: t.insert(s.below(L + 1), TOK[s.below(sizeof TOK / sizeof *TOK)]); break;               // something slipped in
      case 4: if (L) { size_t a = s.below(L), b = s.range(1, 12); t.insert(s.below(L + 1), t.substr(a, b)); } break;   // a piece repeated
      case 5: case 6: case 7: { vector<pair<size_t, size_t> > w; for (size_t i = 0; i < L;) { while (i < L && isspace((unsigned char)t[i])) i++; size_t b = i; while (i < L && !isspace((unsigned char)t[i])) i++; if (i > b) w.push_back(make_pair(b, i - b)); } if (w.empty()) break; auto a = w[s.below(w.size())]; int d = s.below(4);
        if (d == 0) t.erase(a.first, a.second); else if (d == 1) t.replace(a.first, a.second, TOK[s.below(sizeof TOK / sizeof *TOK)]); else if (d == 2) t.insert(a.first, t.substr(a.first, a.second) + " "); else { auto b = w[s.below(w.size())]; string x = t.substr(a.first, a.second), y = t.substr(b.first, b.second); if (a.first > b.first) { swap(a, b); swap(x, y); } if (a.first + a.second <= b.first) { t.replace(b.first, b.second, x); t.replace(a.first, a.second, y); } } break; }
      case 8: { Words l; string x; istringstream is(t); while (getline(is, x)) l.push_back(x); if (l.empty()) break; int i = s.below(l.size()), d = s.below(3); if (d == 0) l.erase(l.begin() + i); else if (d == 1) l.insert(l.begin() + s.below(l.size() + 1), l[i]); else l[i] = ""; t = ""; for (auto& y : l) t += y + "\n"; break; }
      case 9: { size_t p = t.find_first_of("0123456789", L ? s.below(L) : 0); if (p == string::npos) break; size_t e = p; while (e < t.size() && isdigit(t[e])) e++; static const char* N[] = {"0", "1", "2", "3", "7", "20", "-1", "99", "100000", "2147483647", "2147483648", "9223372036854775808", "1.5", "1e9"}; t.replace(p, e - p, N[s.below(14)]); break; }
    }
  }
  return t;
}
static string soup(S& s, int most) { string t; int n = s.below(most); for (int i = 0; i < n; i++) { if (s.coin(3, 4)) t += TOK[s.below(sizeof TOK / sizeof *TOK)]; else t += word(s.below(4)); if (s.coin(1, 3)) t += s.coin(1, 4) ? "\n" : " "; } return t; }
static string spoil(S& s, const string& good) { string t = s.coin(1, 10) ? soup(s, 14) : mangle(s, good, s.coin(1, 8) ? 0 : 1); return t; }

// ---- good data to start from ----
static T tree(S& s) { TreeOpt o; o.words = 5; return gen_tree(s, o); }
static string trees(S& s, int fmt, int n, vector<T>* keep = 0) {      // 0 penn 1 egret 2 json 3 rule 4 word 5 mosesxml
  ostringstream o; Hush h; for (int i = 0; i < n; i++) { T t = tree(s); if (keep) keep->push_back(t); unique_ptr<HyperGraph> g(tree_graph(t)); unique_ptr<TreeIO> io(fmt == 0 ? (TreeIO*)new PennTreeIO : fmt == 1 ? (TreeIO*)new EgretTreeIO : fmt == 2 ? (TreeIO*)new JSONTreeIO : fmt == 3 ? (TreeIO*)new RuleTreeIO : fmt == 4 ? (TreeIO*)new WordTreeIO : (TreeIO*)new MosesXMLTreeIO);
    if (fmt == 3) { o << "S ( x0:NP VP ( \"a\" x1:X ) )\n"; continue; } io->WriteTree(*g, o); o << "\n"; }
  return o.str();
}
static const char* RULES = "S ( x0:NP x1:VP ) ||| x0 \"ga\" x1 @ S ||| p=0.5\nNP ( DT ( \"a\" ) ) ||| \"x\" @ NP ||| p=1\nNP ( x0:NN ) ||| x0:NN \"b\" @ NP ||| p=-0.25 q=1\nNN ( \"b\" ) ||| \"u\" ||| p=-0.5\nVP ( x0:NN x1:NP ) ||| x1:NP \"wo\" x0:NN @ VP ||| p=-0.125 q=2\nVP ( NN ( \"a\" ) x0:X ) ||| x0 ||| \n";
static const char* GRAMMAR = "x0:X \"a\" x1:X @ S ||| x1:X \"ga\" x0:X @ S ||| p=0.5\n\"b\" @ X ||| \"u\" @ X ||| p=-1\n\"a\" @ X ||| \"v\" \"w\" @ X ||| p=-1\nx0:X x1:X @ X ||| x0:X x1:X @ X ||| q=-0.5\nx0:X @ S ||| x0:X @ S ||| p=-3\n\"c\" x0:X \"d\" @ X ||| \"z\" x0:X @ X ||| p=1\n";
static const char* ARPA = "\\data\\\nngram 1=7\nngram 2=4\nngram 3=1\n\n\\1-grams:\n-1\t<unk>\n-99\t<s>\t-0.5\n-1\t</s>\n-0.5\tu\t-0.25\n-0.75\tga\t-0.25\n-1.5\tv\t-0.125\n-1.25\tw\n\n\\2-grams:\n-0.25\t<s> u\t-0.125\n-0.25\tu ga\t-0.25\n-0.5\tv w\n-0.5\tga v\n\n\\3-grams:\n-0.125\t<s> u ga\n\n\\end\\\n";
static const char* NBEST = "0 ||| a b c ||| 1.5 ||| p=1 q=0.5\n0 ||| a c ||| 0.5 ||| p=0.5 q=1\n1 ||| b ||| 0.25 ||| p=0.25\n1 ||| b b d ||| 0 ||| q=1 r=-2\n";
static string words(S& s, int n) { string t; for (int i = 0; i < n; i++) t += (i ? " " : "") + word(s.below(5)); return t; }
static string al(S& s, int n, int m) { string t; int k = s.below(5); for (int i = 0; i < k; i++) t += (i ? " " : "") + to_string(s.below(n)) + "-" + to_string(s.below(m)); return t; }

// ---- trees and forests ----
static const char* FOREST = "{\"nodes\": [{\"id\": 0, \"sym\": \"S\", \"span\": [0, 2]}, {\"id\": 1, \"sym\": \"NP\", \"span\": [0, 1]}, {\"id\": 2, \"sym\": \"VP\", \"span\": [1, 2]}], \"edges\": [{\"id\": 0, \"head\": 0, \"tails\": [1, 2], \"features\": {\"p\": 0.5, \"lm\": -2}, \"trg\": [{\"words\": [-1, \"ga\", -2], \"label\": \"S\"}], \"src_str\": \"S ( x0:NP x1:VP )\", \"score\": 0.25}, {\"id\": 1, \"head\": 1, \"trg\": [{\"words\": [\"u\"]}], \"features\": {\"p\": 1}}, {\"id\": 2, \"head\": 2, \"trg\": [{\"words\": [\"v\", \"3\"]}]}], \"words\": [\"a\", \"b\"]}\n";
PROP(trees, 12000, 240000) {
  int fmt = s.below(6); string good = fmt == 2 && s.coin(1, 3) ? FOREST : trees(s, fmt, s.range(1, 2)), t = spoil(s, good); s.log << fmt << " " << pbt::jesc(t) << "\n"; s.sync(); s.nontrivial(t != good && t.size() > 4);
  unique_ptr<TreeIO> io(fmt == 0 ? (TreeIO*)new PennTreeIO : fmt == 1 ? (TreeIO*)new EgretTreeIO : fmt == 2 ? (TreeIO*)new JSONTreeIO : fmt == 3 ? (TreeIO*)new RuleTreeIO : fmt == 4 ? (TreeIO*)new WordTreeIO : (TreeIO*)new MosesXMLTreeIO);
  istringstream in(t); Hush h; int got = 0; bool usable = false;
  try { for (int i = 0; i < 200; i++) { unique_ptr<HyperGraph> g(io->ReadTree(in)); if (!g.get()) break; got++; CHECK(i < 199, "the reader never comes to the end");
      // whatever was accepted must be usable
      if (g->NumNodes() == 0) continue;
      usable = true; g->GetWords(); ostringstream o; try { g->GetLabeledSpans(); } catch (std::exception&) {}
      for (int w = 0; w < 6; w++) { unique_ptr<TreeIO> out(w == 0 ? (TreeIO*)new PennTreeIO : w == 1 ? (TreeIO*)new EgretTreeIO : w == 2 ? (TreeIO*)new JSONTreeIO : w == 3 ? (TreeIO*)new RuleTreeIO : w == 4 ? (TreeIO*)new WordTreeIO : (TreeIO*)new MosesXMLTreeIO); s.log << "writer " << w << "\n"; s.sync(); try { out->WriteTree(*g, o); } catch (std::exception&) {} }
      static const char* B[] = {"left", "right", "leftrp", "rightrp", "cky"}; for (int b = 0; b < 5; b++) { unique_ptr<GraphTransformer> z(Binarizer::CreateBinarizerFromString(B[b])); s.log << B[b] << "\n"; s.sync(); try { unique_ptr<HyperGraph> x(z->TransformGraph(*g)); } catch (std::exception&) {} }
      s.log << "flatten, case, scores\n"; s.sync(); { UnaryFlattener u; try { unique_ptr<HyperGraph> x(u.TransformGraph(*g)); } catch (std::exception&) {} } { unique_ptr<Caser> c(Caser::CreateCaserFromString("title")); try { unique_ptr<HyperGraph> x(c->TransformGraph(*g)); } catch (std::exception&) {} }
      try { g->InsideOutsideNormalize(); } catch (std::exception&) {} try { g->ResetViterbiScores(); g->GetNbest(3); } catch (std::exception&) {}
    } } catch (std::exception& e) { s.label("refused"); return; }
  s.label(usable ? "accepted" : "nothing read");
}
PROP(converter, 2500, 50000) {
  static const char* F[] = {"penn", "egret", "json", "rule", "word"}; static const char* O[] = {"penn", "egret", "json", "mosesxml", "rule", "word"}; static const char* B[] = {"none", "left", "right", "cky", "leftrp", "rightrp"}; int f = s.below(5); string good = trees(s, f, s.range(1, 3)), t = spoil(s, good);
  Words a; a.push_back("-input_format"); a.push_back(F[f]); a.push_back("-output_format"); a.push_back(O[s.below(6)]); a.push_back("-binarize"); a.push_back(B[s.below(6)]); if (s.coin(1, 3)) { a.push_back("-flatten"); a.push_back("true"); } if (s.coin(1, 3)) { string m = spoil(s, "a b The c\nd\n"); s.log << "casing model " << pbt::jesc(m) << "\n"; a.push_back("-case"); a.push_back("true:model=" + file("case", m)); } if (s.coin(1, 3)) { static const char* R[] = {"-", "a", "[", "(a|b)*", "\\", "(", "a{2,1}", ".", "x*", "^"}; a.push_back("-split"); string r = R[s.below(10)]; a.push_back(r == "-" ? "-" : r); }
  if (s.coin(1, 3)) { string m = spoil(s, ARPA); s.log << "splitting model " << pbt::jesc(m) << "\n"; a.push_back("-compoundsplit"); a.push_back(file("cs", m)); a.push_back("-compoundsplit_minchar"); a.push_back(to_string((int)s.below(5) - 1)); a.push_back("-compoundsplit_filler"); a.push_back(s.coin() ? "e:es" : ""); a.push_back("-compoundsplit_threshold"); a.push_back("0.0001"); }
  a.push_back(file("in", t)); s.log << pbt::show(a) << "\n" << pbt::jesc(t) << "\n"; s.sync(); bool ok = prog<ConfigTreeConverterRunner, TreeConverterRunner>(a, ""); s.label(ok ? "accepted" : "refused"); s.nontrivial(t != good);
}
// ---- extraction ----
PROP(extraction, 4000, 80000) {
  int n = s.range(1, 2); vector<T> ts; int fmt = s.below(3); static const char* F[] = {"penn", "egret", "json"}; string src = trees(s, fmt, n, &ts), trg, a; bool tt = s.coin(1, 4); vector<T> us; if (tt) trg = trees(s, 0, n, &us);
  for (int i = 0; i < n; i++) { int m = tt ? (int)leaves(us[i]).size() : s.range(1, 5); if (!tt) trg += words(s, m) + "\n"; a += al(s, (int)leaves(ts[i]).size(), m) + "\n"; } int which = s.below(4); bool hurt = false; if (which == 0 || which == 3) { string x = spoil(s, src); hurt |= x != src; src = x; } if (which == 1 || which == 3) { string x = spoil(s, trg); hurt |= x != trg; trg = x; } if (which == 2 || which == 3) { string x = spoil(s, a); hurt |= x != a; a = x; }
  Words v; v.push_back("-input_format"); v.push_back(F[fmt]); if (tt) { v.push_back("-output_format"); v.push_back("penn"); } static const char* A[] = {"top", "none", "exhaustive"}; v.push_back("-attach"); v.push_back(A[s.below(3)]); static const char* B[] = {"none", "left", "right", "cky"}; v.push_back("-binarize"); v.push_back(B[s.below(4)]); if (s.coin(1, 3)) { v.push_back("-normalize_probs"); v.push_back("true"); } if (s.coin(1, 3)) { v.push_back("-compose"); v.push_back(to_string((int)s.below(5) - 1)); } if (s.coin(1, 4)) { v.push_back("-term_len"); v.push_back(to_string((int)s.below(6) - 2)); } if (s.coin(1, 4)) { v.push_back("-nonterm_len"); v.push_back(to_string((int)s.below(6) - 2)); } if (s.coin(1, 4)) { v.push_back("-attach_len"); v.push_back(to_string((int)s.below(6) - 2)); }
  v.push_back(file("src", src)); v.push_back(file("trg", trg)); v.push_back(file("al", a)); s.log << pbt::show(v) << "\nsource " << pbt::jesc(src) << "\ntarget " << pbt::jesc(trg) << "\nalignment " << pbt::jesc(a) << "\n"; s.sync(); bool ok = prog<ConfigForestExtractorRunner, ForestExtractorRunner>(v, ""); s.label(ok ? "accepted" : "refused"); s.nontrivial(hurt);
}
PROP(hiero, 4000, 80000) {
  int n = s.range(1, 2); string src, trg, a; for (int i = 0; i < n; i++) { int k = s.range(1, 6), m = s.range(1, 6); src += words(s, k) + "\n"; trg += words(s, m) + "\n"; a += al(s, k, m) + "\n"; } int which = s.below(3); string& x = which == 0 ? src : which == 1 ? trg : a; string old = x; x = spoil(s, x); bool hurt = x != old;
  Words v; if (s.coin(1, 3)) { v.push_back("-max_initial_phrase"); v.push_back(to_string(s.below(12))); } if (s.coin(1, 3)) { v.push_back("-max_terminals"); v.push_back(to_string(s.below(7))); } v.push_back(file("src", src)); v.push_back(file("trg", trg)); v.push_back(file("al", a)); s.log << pbt::show(v) << "\nsource " << pbt::jesc(src) << "\ntarget " << pbt::jesc(trg) << "\nalignment " << pbt::jesc(a) << "\n"; s.sync(); bool ok = prog<ConfigHieroExtractorRunner, HieroExtractorRunner>(v, ""); s.label(ok ? "accepted" : "refused"); s.nontrivial(hurt);
}
// ---- the decoder: rule table, language model, weights, input ----
PROP(decoder, 6000, 120000) {
  static const char* ST[] = {"hash", "marisa", "fsm", "cfg"}; int st = s.below(4); bool cfg = st >= 2; string rules = cfg ? GRAMMAR : RULES, lm = ARPA, w = "p=1 q=0.5 lm=0.3 unk=-1", in; int f = cfg ? 2 : s.below(2); if (f == 2) { int n = s.range(1, 3); for (int i = 0; i < n; i++) in += words(s, s.below(6)) + "\n"; } else { in = s.coin() ? "" : trees(s, f, 1); if (f == 0) in += "(S (NP (DT a)) (VP (NN b) (NP (NN c))))\n(S (NP (NN b)) (VP (NN a) (X d)))\n"; }
  bool uselm = s.coin(); int which = s.below(4); string &x = which == 0 ? in : which == 1 && uselm ? lm : which == 2 ? w : rules; string old = x; x = spoil(s, x); bool hurt = x != old; static const char* F[] = {"penn", "egret", "word"};
  Words v; auto put = [&](const string& k, const string& val) { v.push_back("-" + k); v.push_back(val); }; put("tm_storage", ST[st]); put("in_format", F[f]); if (cfg) put("binarize", "none"); put("tm_file", file("rules", rules)); put("debug", "0"); put("pop_limit", "50"); if (uselm) { put("lm_file", file("lm", lm)); if (s.coin()) put("search", "cp"); } if (s.coin()) { put("nbest_out", pbt::scratch() + "/nb"); put("nbest", to_string(s.range(1, 4))); if (st != 3 && s.coin()) put("nbest_tree", "true"); } if (s.coin(1, 3)) put("trace_out", pbt::scratch() + "/tr"); if (s.coin(1, 3)) put("forest_out", pbt::scratch() + "/fo"); if (s.coin(1, 5)) put("forest_nbest_trim", to_string(s.range(1, 4))); if (s.coin(1, 4)) put("all_unk", "true"); if (s.coin(1, 4)) put("consider_trg", "true"); if (s.coin(1, 4)) put("delete_unknown", "true"); if (s.coin(1, 4)) put("nbest_uniq", "true"); if (s.coin(1, 4)) put("trg_factors", to_string(s.range(1, 2))); if (s.coin(1, 6)) put("chart_limit", to_string(s.range(1, 4)));
  bool asopt = w.empty() || w[0] != '-'; if (asopt) put("weight_vals", w); else put("weight_vals", " " + w);
  s.log << pbt::show(v) << "\nrules " << pbt::jesc(rules) << "\ninput " << pbt::jesc(in) << "\n"; if (uselm) s.log << "model " << pbt::jesc(lm) << "\n"; s.sync(); bool ok = prog<ConfigTravatarRunner, TravatarRunner>(v, in); s.label(string(ok ? "accepted " : "refused ") + ST[st]); s.nontrivial(hurt);
}
// ---- language models by themselves ----
template <class M> void query(M& m) { typename M::State a = m.BeginSentenceState(), b; for (int i = 0; i < 6; i++) { m.FullScore(a, m.GetVocabulary().Index(word(i)), b); a = b; } m.FullScore(a, m.GetVocabulary().EndSentence(), b); }
template <class M> void load(S& s, const string& p, bool bin, bool cut) {
  lm::ngram::Config c; c.show_progress = false; c.messages = &cerr; string b = pbt::scratch() + "/lm.bin"; if (bin) c.write_mmap = b.c_str(); { M m(p.c_str(), c); query(m); } if (!bin) return;
  lm::ngram::Config d; d.show_progress = false; d.messages = &cerr; if (cut) { string x = slurp(b); x.resize(s.below(x.size())); pbt::spew(b, x); s.label("truncated binary"); } M m(b.c_str(), d); query(m);
}
PROP(arpa, 4000, 80000) {
  string t; if (s.coin()) t = ARPA; else { vector<string> ws; for (int i = 0; i < 4; i++) ws.push_back(word(i)); lmg::Lm m = lmg::gen(s, ws, 3, 6, false); t = m.text; } string good = t; t = spoil(s, t); { size_t c = t.find("ngram "); for (; c != string::npos; c = t.find("ngram ", c + 1)) { size_t e = t.find('=', c); if (e != string::npos) if (strtod(t.c_str() + e + 1, 0) >= 1e6) throw pbt::Discard(); } } s.log << pbt::jesc(t) << "\n"; string p = file("lm.arpa", t); int kind = s.below(3); bool bin = s.coin(1, 3), cut = bin && s.coin(); s.sync(); Hush h;
  try { if (kind == 0) load<lm::ngram::ProbingModel>(s, p, bin, cut); else if (kind == 1) load<lm::ngram::TrieModel>(s, p, bin, cut); else load<lm::ngram::QuantArrayTrieModel>(s, p, bin, cut); s.label("accepted"); } catch (std::exception& e) { s.label("refused"); } s.nontrivial(t != good);
}
// ---- n-best lists, references, statistics, weights ----
PROP(rescore, 4000, 80000) {
  string nb = NBEST, w = "p=1\nq=-0.5\n", ev = "bleu:smooth=1"; static const char* E[] = {"bleu:smooth=1", "ribes", "ter", "wer", "interp:0.5|bleu|0.5|ribes", "zeroone", "ribes:alpha=0.2,beta=0.1"}; ev = E[s.below(7)]; int which = s.below(3); string& x = which == 0 ? w : which == 1 ? ev : nb; string old = x; x = spoil(s, x); for (char& c : ev) if (c == '\0') c = ' '; Words v; if (s.coin()) { v.push_back("-weight_in"); v.push_back(file("w", w)); } if (!ev.empty() && ev[0] != '-' && s.coin(2, 3)) { v.push_back("-mbr_eval"); v.push_back(ev); if (s.coin()) { v.push_back("-mbr_hyp_cnt"); v.push_back(to_string(s.below(4))); } } if (s.coin()) { v.push_back("-nbest_out"); v.push_back(pbt::scratch() + "/out"); } s.log << pbt::show(v) << "\n" << pbt::jesc(nb) << "\nweights " << pbt::jesc(w) << "\n"; s.sync(); bool ok = prog<ConfigRescorer, RescorerRunner>(v, nb); s.label(ok ? "accepted" : "refused"); s.nontrivial(x != old);
}
PROP(tuning, 3000, 60000) {
  string nb = NBEST, ref = "a b c\nb d\n", w = "p=1\nq=-0.5\n", ev = "bleu:smooth=1", rg = "-1|1 0|2|p", st, dir = "coord"; static const char* E[] = {"bleu:smooth=1", "bleu", "ribes", "ter", "wer", "interp:0.5|bleu|0.5|ribes", "zeroone", "bleu:order=2,scope=sentence,smooth=1"}; ev = E[s.below(8)]; bool fo = s.coin(1, 5); if (fo) { nb = trees(s, 2, 2); } static const char* ALG[] = {"mert", "greedy-mert", "lbfgs", "onlinepro"}; string alg = ALG[s.below(4)]; if (fo && (alg == "lbfgs" || alg == "onlinepro")) alg = "mert"; bool stat = !fo && s.coin(1, 3), prep = false;
  if (stat) { string o; if (prog<ConfigBatchTune, BatchTuneRunner>(Words({"-nbest", file("nb0", nb), "-eval", ev, "-stat_out", pbt::scratch() + "/st0", file("ref0", ref)}), "")) { st = slurp(pbt::scratch() + "/st0"); prep = !st.empty(); } else stat = false; }
  string* P[] = {&nb, &ref, &w, &ev, &rg, &st, &dir, &nb}; string& x = *P[s.below(8)]; string old = x; x = spoil(s, x); bool hurt = x != old; auto arg = [&](string t) { string r; for (char c : t) if (c) r += c; if (r.empty() || r[0] == '-') r = " " + r; return r; };
  Words v; auto put = [&](const string& k, const string& val) { v.push_back("-" + k); v.push_back(val); }; put(fo ? "forest" : "nbest", file("nb", nb)); put("eval", arg(ev)); put("algorithm", alg); put("restarts", to_string(s.below(2))); put("rand_seed", "3"); if (s.coin()) put("weight_in", file("w", w)); if (&x == &rg || s.coin(1, 4)) put("weight_ranges", arg(rg)); if (stat) put("stat_in", file("st", st)); if (&x == &dir) put("mert_directions", arg(dir)); else if (s.coin(1, 4)) { static const char* D[] = {"rand=3", "xeval=0:1:0.5", "rand=-1", "xeval=1"}; put("mert_directions", D[s.below(4)]); } v.push_back(file("ref", ref)); (void)prep;
  s.log << pbt::show(v) << "\n" << pbt::jesc(nb) << "\nreferences " << pbt::jesc(ref) << "\nweights " << pbt::jesc(w) << "\nstatistics " << pbt::jesc(st) << "\n"; s.sync(); bool ok = prog<ConfigBatchTune, BatchTuneRunner>(v, ""); s.label(string(ok ? "accepted " : "refused ") + alg); s.nontrivial(hurt);
}
PROP(evaluator, 4000, 80000) {
  string ref = "a b c\nb d\nc\n", sys = "a b\nb d e\nc\n", ev = "bleu"; static const char* E[] = {"bleu ribes", "bleu:smooth=1 ter", "ribes:alpha=0.2,beta=0.1 wer", "nist zeroone", "interp:0.5|bleu|0.5|ribes", "ainterp:A|bleu|B|ter|A+B*2", "bleu:order=2,factor=0,case=low,scope=sentence", "ter:inverse=true", "wer:reverse=true"}; ev = E[s.below(9)]; string* P[] = {&ref, &sys, &ev, &ev}; string& x = *P[s.below(4)]; string old = x; x = spoil(s, x); string e2; for (char c : ev) if (c) e2 += c; if (e2.empty() || e2[0] == '-') e2 = " " + e2; Words v; v.push_back("-ref"); v.push_back(file("ref", ref)); v.push_back("-eval"); v.push_back(e2); bool seg = s.coin(1, 4); if (!seg && s.coin(1, 3)) { v.push_back("-sent"); v.push_back("true"); } if (!seg && s.coin(1, 3)) { v.push_back("-bootstrap"); v.push_back(to_string(s.below(4))); } int n = seg ? 1 : s.range(1, 2); for (int i = 0; i < n; i++) v.push_back(file("sys" + to_string(i), sys)); s.log << (seg ? "mt-segmenter " : "mt-evaluator ") << pbt::show(v) << "\nreferences " << pbt::jesc(ref) << "\nsystem " << pbt::jesc(sys) << "\n"; s.sync(); bool ok = seg ? prog<ConfigMTSegmenterRunner, MTSegmenterRunner>(v, "") : prog<ConfigMTEvaluatorRunner, MTEvaluatorRunner>(v, ""); s.label(ok ? "accepted" : "refused"); s.nontrivial(x != old);
}
PROP(statistics, 8000, 160000) {
  static const char* E[] = {"bleu", "bleu:smooth=1", "ribes", "ter", "wer", "interp:0.5|bleu|0.5|ribes", "ainterp:A|bleu|B|ter|A+B*2", "zeroone", "nist"}; const char* en = E[s.below(9)]; unique_ptr<EvalMeasure> m(EvalMeasureLoader::CreateMeasureFromString(en)); Sentence r = Dict::ParseWords(words(s, s.below(6))), y = Dict::ParseWords(words(s, s.below(6))); string t; try { t = m->CalculateStats(r, y)->WriteStats(); } catch (std::exception&) { throw pbt::Discard(); } string good = t; t = spoil(s, t); s.log << en << " " << pbt::jesc(t) << "\n"; s.sync();
  try { EvalStatsPtr p = m->ReadStats(t); p->ConvertToScore(); p->ConvertToString(); p->WriteStats(); EvalStatsPtr q = m->CalculateStats(r, y); q->PlusEquals(*p); q->ConvertToScore(); p->TimesEquals(2); p->ConvertToScore(); p->Equals(*q); s.label("accepted"); } catch (std::exception& e) { s.label("refused"); } s.nontrivial(t != good);
}
// ---- small texts ----
PROP(texts, 20000, 400000) {
  int k = s.below(9); static const char* G[] = {"x0:NP \"a\" x1 @ S |COL| \"b\" x1 x0:NP @ S", "p=1 q=-0.5 lm=3e-2", "0-0 1-2 3-1", "bleu:smooth=1,order=4", "x*3+(y-2+5)/2.5", "((x*y)+y-1)-5*2", "[a]\n1\n2\n\n# c\n[b]\nx y\n\n", "3\na\nb\nc\n", "Some text, it's \"quoted\" (e.g. here) 3.5%..."}; string good = G[k], t = spoil(s, good); s.log << k << " " << pbt::jesc(t) << "\n"; s.sync(); Hush h; bool ok = true;
  try { switch (k) {
      case 0: { CfgDataVector d = Dict::ParseAnnotatedVector(t); Dict::PrintAnnotatedVector(d); for (auto& x : d) { x.NontermsAreOrdered(); x.GetNontermPositions(); } break; }
      case 1: { try { SparseMap m = Dict::ParseSparseMap(t); Dict::PrintSparseMap(m); } catch (std::exception&) {} SparseVector v = Dict::ParseSparseVector(t); Dict::PrintSparseVector(v); break; }
      case 2: { Alignment a = Alignment::FromString(t); a.ToString(); a.CheckRange(1000, 1000); auto v = a.GetSrcAlignments(); CHECK(v.size() < 100000000u, "absurd size"); break; }
      case 3: { unique_ptr<EvalMeasure> m(EvalMeasureLoader::CreateMeasureFromString(t)); Sentence a = Dict::ParseWords("a b c"), b = Dict::ParseWords("a c"); EvalStatsPtr p = m->CalculateStats(a, b); p->ConvertToScore(); p->ConvertToString(); p->WriteStats(); break; }
      case 4: case 5: { map<WordId, Real> y; y[Dict::WID("x")] = 1; y[Dict::WID("y")] = 2; MathQuery::Evaluate(y, t); break; }
      case 6: { ConfigBase c; c.AddConfigEntry("a", "", "d"); c.AddConfigEntry("b", "", "d"); c.LoadConfig(file("conf", t)); c.GetStringArray("a"); c.GetIntArray("a"); break; }
      case 7: { istringstream in(t); unique_ptr<SymbolSet<int> > x(SymbolSet<int>::FromStream(in)); ostringstream o; x->ToStream(o); break; }
      case 8: { string out; if (s.coin()) prog<ConfigTokenizerRunner, TokenizerRunner>(Words(), t, &out); else prog<ConfigTrainCaserRunner, TrainCaserRunner>(Words(), t, &out); break; }
    } } catch (std::exception& e) { ok = false; } s.label(to_string(k) + (ok ? " accepted" : " refused")); s.nontrivial(t != good);
}
PBT_MAIN("h_malformed")
