// C22: the decoder program, end to end, against enumeration of all derivations.
#include "tree.h"
#include "lmgen.h"
#define main travatar_main
#include <bin/travatar.cc>
#undef main
#include <travatar/tree-io.h>
#include <travatar/binarizer.h>
#include <travatar/weights.h>
#include <travatar/lookup-table-hash.h>
#include <travatar/lookup-table-marisa.h>
#include <travatar/lookup-table-fsm.h>
#include <travatar/lookup-table-cfglm.h>
#include <travatar/string-util.h>
#include <unistd.h>
#include <fcntl.h>
#include <fstream>
using namespace tg; using pbt::show; typedef vector<string> Words;

static string slurp(const string& f) { ifstream i(f.c_str()); CHECK(i, "file " << f << " was not written"); stringstream o; o << i.rdbuf(); return o.str(); }
static Words lines(const string& t) { Words r; string l; istringstream is(t); while (getline(is, l)) r.push_back(l); CHECK(t.empty() || t[t.size() - 1] == '\n', "output does not end with a line end"); return r; }
static Words columns(const string& l) { Words r; size_t p = 0; for (;;) { size_t q = l.find(" ||| ", p); if (q == string::npos) { r.push_back(l.substr(p)); return r; } r.push_back(l.substr(p, q - p)); p = q + 5; } }
static Words toks(const string& t) { Words r; istringstream is(t); string w; while (is >> w) r.push_back(w); return r; }
static string join(const Words& w) { string r; for (auto& x : w) r += (r.empty() ? "" : " ") + x; return r; }
static Feat feats(const string& t) { Feat f; for (auto& x : toks(t)) { size_t p = x.rfind('='); CHECK(p != string::npos, "feature " << x); f[x.substr(0, p)] += atof(x.c_str() + p + 1); } return f; }
static bool close(double a, double b) { return fabs(a - b) <= 5e-3 + 3e-5 * max(fabs(a), fabs(b)); }
static bool same(const Feat& a, const Feat& b) { for (auto& p : a) { auto i = b.find(p.first); if (!close(p.second, i == b.end() ? 0 : i->second)) return false; } for (auto& p : b) if (!a.count(p.first) && !close(p.second, 0)) return false; return true; }

struct LmSpec { lmg::Lm m; string file, feat, unk; int factor; };
struct Case { int storage, fac, nbest, threads; bool words, egret, uniq, allunk, delunk, ctrg, tree, trace, nbout, forest; string bin, input, root, unk; vector<string> tm; vector<int> limits; vector<LmSpec> lms; int trim; map<string, double> w; bool inc, consec; };
struct D { vector<Words> words; Feat feats; double score; };

// --- rules cut out of trees
struct Net { const Forest& f; vector<vector<int> > by; Net(const Forest& f_) : f(f_), by(f_.nodes.size()) { for (size_t i = 0; i < f.edges.size(); i++) by[f.edges[i].head].push_back(i); } bool term(int n) const { return by[n].empty(); } };
static string cut(S& s, const Net& n, int node, int depth, vector<string>& vars) {
  const string& l = n.f.nodes[node].sym; if (n.term(node)) return "\"" + l + "\""; if (depth && s.coin(depth > 1 ? 2 : 1, 3)) { vars.push_back(l); return "x" + to_string(vars.size() - 1) + ":" + l; }
  string r = l + " ("; for (int t : n.f.edges[s.pick(n.by[node])].tails) r += " " + cut(s, n, t, depth + 1, vars); return r + " )";
}
static string target(S& s, int nv, const vector<string>& lab, const string& head) { vector<string> w; for (int i = 0; i < nv; i++) w.push_back("x" + to_string(i) + (lab.empty() ? "" : ":" + lab[i])); for (size_t i = w.size(); i > 1; i--) swap(w[i - 1], w[s.below(i)]); for (int k = s.below(3); k > 0; k--) w.insert(w.begin() + s.below(w.size() + 1), "\"" + word(s.below(8)) + "\""); return join(w) + (head.empty() ? "" : (w.empty() ? "@ " : " @ ") + head); }
static string featstr(S& s) { string r; static const char* N[] = {"p", "q", "wp"}; for (int i = 0; i < 3; i++) if (s.coin()) { double v = s.quarter(3); if (v != 0) { ostringstream o; o << N[i] << "=" << v; r += (r.empty() ? "" : " ") + o.str(); } } return r; }
static string rules_of(S& s, const vector<Forest>& fs, int fac, bool ctrg) {
  string t; int n = s.size(2, 20); Words srcs; vector<vector<string> > vs;
  for (int q = 0; q < n; q++) { string src; vector<string> v; if (!srcs.empty() && s.coin(1, 3)) { size_t i = s.below(srcs.size()); src = srcs[i]; v = vs[i]; } else { const Forest& f = fs[s.below(fs.size())]; Net net(f); vector<int> nts; for (size_t i = 0; i < f.nodes.size(); i++) if (!net.term(i)) nts.push_back(i); if (nts.empty()) continue; src = cut(s, net, s.pick(nts), 0, v); if (v.size() > 6) continue; srcs.push_back(src); vs.push_back(v); }
    bool labd = ctrg || s.coin(1, 4); string trg; for (int k = 0; k < fac; k++) { vector<string> lab; string head; if (labd) { for (auto& x : v) { (void)x; lab.push_back(string(1, "AB"[s.below(2)])); } head = string(1, "AB"[s.below(2)]); } trg += (k ? " |COL| " : "") + target(s, v.size(), lab, head); } t += src + " ||| " + trg + " ||| " + featstr(s) + "\n"; }
  return t;
}
static string grammar(S& s, int fac, int words, bool first, bool cfg) {
  string t; int n = s.size(1, 10); auto lab = [&] { return string(1, s.coin() ? 'X' : "SXA"[s.below(3)]); };
  for (int q = 0; q < n; q++) { vector<string> src, v; int k = s.range(1, 3); for (int i = 0; i < k; i++) if (k > 1 && s.coin(1, 2)) { v.push_back(lab()); src.push_back("x" + to_string(v.size() - 1) + ":" + v.back()); } else src.push_back("\"" + word(s.below(words)) + "\""); string h = s.coin(3, 4) ? "X" : "A"; string trg; for (int f = 0; f < fac; f++) trg += (f ? " |COL| " : "") + target(s, v.size(), v, h); t += join(src) + " @ " + h + " ||| " + trg + " ||| " + featstr(s) + "\n"; }
  if (cfg) for (int i = 0; i < words; i++) t += "\"" + word(i) + "\" @ X ||| " + target(s, 0, {}, "X") + " ||| q=1\n";
  if (first) { string a, b; for (int f = 0; f < fac; f++) a += string(f ? " |COL| " : "") + "x0:S x1:X @ S", b += string(f ? " |COL| " : "") + "x0:X @ S"; t += "x0:S x1:X @ S ||| " + a + " ||| glue=1\nx0:X @ S ||| " + b + " ||| \n"; }
  return t;
}

// --- what the decoder should do
static GraphTransformer* table(const Case& c, bool save, const Weights& w) {
  if (c.storage < 2) { string file = c.tm[0]; LookupTable* t = c.storage ? (LookupTable*)LookupTableMarisa::ReadFromFile(file) : (LookupTable*)LookupTableHash::ReadFromFile(file); t->SetMatchAllUnk(c.allunk); t->SetSaveSrcStr(save); t->SetConsiderTrg(c.ctrg); return t; }
  if (c.storage == 2) { LookupTableFSM* t = LookupTableFSM::ReadFromFiles(c.tm); t->SetTrgFactors(c.fac); t->SetDeleteUnknown(c.delunk); t->SetRootSymbol(Dict::WID(c.root)); t->SetUnkSymbol(Dict::WID(c.unk)); t->SetSpanLimits(c.limits); t->SetSaveSrcStr(save); return t; }
  LookupTableCFGLM* t = LookupTableCFGLM::ReadFromFiles(c.tm); t->SetTrgFactors(c.fac); t->SetRootSymbol(Dict::WID(c.root)); t->SetWeights(w); return t;
}
static vector<D> derivations(const HyperGraph& g, int fac, size_t max) {
  Forest f = from_graph(g, fac); if (f.nodes.empty()) return vector<D>(); vector<vector<int> > by(f.nodes.size()); for (size_t i = 0; i < f.edges.size(); i++) by[f.edges[i].head].push_back(i); map<int, vector<D> > memo; size_t total = 0;
  function<const vector<D>&(int)> go = [&](int n) -> const vector<D>& { auto it = memo.find(n); if (it != memo.end()) return it->second; vector<D> out;
    for (int e : by[n]) { const Edge& E = f.edges[e]; vector<const vector<D>*> ch; bool none = false; for (int t : E.tails) { ch.push_back(&go(t)); none |= ch.back()->empty(); } if (none) continue; vector<size_t> ix(ch.size(), 0); for (;;) { D d; d.feats = E.feats; d.words.resize(fac); for (size_t i = 0; i < ch.size(); i++) for (auto& p : (*ch[i])[ix[i]].feats) d.feats[p.first] += p.second; for (int k = 0; k < fac && k < (int)E.trg.size(); k++) for (int w : E.trg[k]) if (w >= 0) d.words[k].push_back(Dict::WSym(w)); else { auto& x = (*ch[-1 - w])[ix[-1 - w]].words[k]; d.words[k].insert(d.words[k].end(), x.begin(), x.end()); } out.push_back(d); if (++total > max) throw pbt::Discard(); size_t i = 0; for (; i < ix.size(); i++) { if (++ix[i] < ch[i]->size()) break; ix[i] = 0; } if (i == ix.size()) break; } }
    return memo[n] = out; };
  return go(0);
}
static void rescore(const Case& c, vector<D>& v) {
  for (auto& d : v) { for (auto& l : c.lms) { double u = 0; Words t = d.words[l.factor]; for (auto& x : t) if (!l.m.t.count(Words(1, x))) u++; t.push_back("</s>"); d.feats[l.feat] += l.m.total(Words(1, "<s>"), t); d.feats[l.unk] += u; } d.score = 0; for (auto& p : d.feats) { auto i = c.w.find(p.first); if (i != c.w.end()) d.score += i->second * p.second; } }
  sort(v.begin(), v.end(), [](const D& a, const D& b) { return a.score > b.score; });
}
static string text(const vector<Words>& w) { string r; for (size_t k = 0; k < w.size(); k++) r += (k ? " |COL| " : "") + join(w[k]); return join(toks(r)); }   // a deleted word is printed as nothing between two blanks

// --- running it
struct Sink : streambuf { int overflow(int c) { return c == EOF ? 0 : c; } streamsize xsputn(const char*, streamsize n) { return n; } };   // several threads write to cerr
struct Out { string out; string nbest, trace, forest; };
static Out decode(const vector<pair<string, string> >& opts, const vector<bool>& infile, const string& input, const Case& c, const string& tag) {
  string d = pbt::scratch() + "/"; string ini; vector<string> args; args.push_back("travatar"); args.push_back("-config_file"); args.push_back(d + "ini");
  auto put = [&](const string& k, const string& v, bool file) { if (file) { ini += "[" + k + "]\n"; for (auto& x : toks(v)) ini += x + "\n"; ini += "\n"; } else { args.push_back("-" + k); args.push_back(v); } };
  for (size_t i = 0; i < opts.size(); i++) put(opts[i].first, opts[i].second, infile[i]); if (c.nbout) put("nbest_out", d + "nbest" + tag, false); if (c.trace) put("trace_out", d + "trace" + tag, false); if (c.forest) put("forest_out", d + "forest" + tag, false); pbt::spew(d + "ini", ini);
  vector<char*> av; for (auto& a : args) av.push_back((char*)a.c_str()); istringstream in(input); ostringstream out; Sink err; struct R { streambuf *i, *o, *e; ~R() { cin.rdbuf(i); cout.rdbuf(o); cerr.rdbuf(e); cin.clear(); GlobalVars::trg_factors = 1; GlobalVars::debug = 1; } } r = {cin.rdbuf(in.rdbuf()), cout.rdbuf(out.rdbuf()), cerr.rdbuf(&err)}; (void)r; cin.clear();
  CHECK_EQ(travatar_main(av.size(), &av[0]), 0, "exit code"); Out o; o.out = out.str(); if (c.nbout) o.nbest = slurp(d + "nbest" + tag); if (c.trace) o.trace = slurp(d + "trace" + tag); if (c.forest) o.forest = slurp(d + "forest" + tag); return o;
}
// --- trace lines
struct Step { string span, src, trg; Feat feats; };
static bool var(const string& t, int& k) { if (t[0] != 'x') return false; size_t i = 1; while (i < t.size() && isdigit(t[i])) i++; if (i == 1 || (i < t.size() && t[i] != ':')) return false; k = atoi(t.c_str() + 1); return true; }
struct Replay { const vector<Step>& st; int fac; size_t at; Feat total; Replay(const vector<Step>& s_, int f) : st(s_), fac(f), at(0) {}
  struct R { vector<Words> words; string src; };
  R go() { CHECK(at < st.size(), "the trace ends too early"); const Step& x = st[at++]; for (auto& p : x.feats) total[p.first] += p.second; vector<Words> cols; { size_t p = 0; for (;;) { size_t q = x.trg.find("|COL|", p); cols.push_back(toks(x.trg.substr(p, q == string::npos ? q : q - p))); if (q == string::npos) break; p = q + 5; } } CHECK_EQ((int)cols.size(), fac, "factors of trace line " << x.trg);
    int nv = 0, k; for (auto& t : toks(x.src)) if (var(t, k)) nv = max(nv, k + 1); for (auto& c : cols) for (auto& t : c) { if (t == "@") break; if (var(t, k)) { CHECK(x.src.empty() || k < nv, "variable of the target that is not in the source: " << x.trg); nv = max(nv, k + 1); } }
    vector<R> ch; for (int i = 0; i < nv; i++) ch.push_back(go()); R r; r.words.resize(fac); for (int f = 0; f < fac; f++) for (auto& t : cols[f]) { if (t == "@") break; if (var(t, k)) r.words[f].insert(r.words[f].end(), ch[k].words[f].begin(), ch[k].words[f].end()); else { CHECK(t.size() >= 2 && t[0] == '"' && t[t.size() - 1] == '"', "target word without quotes: " << t); r.words[f].push_back(t.substr(1, t.size() - 2)); } }
    if (x.src.empty()) { r.src = ch.size() == 1 ? ch[0].src : ""; } else for (auto& t : toks(x.src)) r.src += (r.src.empty() ? "" : " ") + (var(t, k) ? ch[k].src : t); return r; } };

static string nasty(S& s) { static const char* W[] = {"$1", "\\", "&", "x0:S", "\"", "|", "%s", "-LRB-", "@", "x1"}; return W[s.below(10)]; }

PROP(decode, 1600, 40000) {
  Case c; c.storage = s.below(4); c.words = c.storage >= 2; c.fac = s.coin(1, 4) && c.storage != 3 ? 2 : 1; int ns = s.size(1, 6); c.egret = !c.words && s.coin(); c.ctrg = !c.words && s.coin(1, 5); c.allunk = s.coin(1, 4); c.delunk = s.coin(1, 4); c.root = "S"; c.unk = "X"; c.bin = c.words ? s.pick(Words{"none", "right"}) : s.pick(Words{"none", "left", "right"}); string d = pbt::scratch() + "/";
  // input
  if (c.words) { int w = s.range(1, 3); for (int i = 0; i < ns; i++) { int n = s.coin(1, 8) ? 0 : s.size(1, 5); Words l; for (int k = 0; k < n; k++) l.push_back(c.storage == 2 && s.coin(1, 12) ? nasty(s) : word(s.below(w + (c.storage == 2 ? s.below(2) : 0)))); c.input += join(l) + "\n"; } int ng = c.storage == 2 && s.coin(1, 3) ? 2 : 1; for (int k = 0; k < ng; k++) { c.tm.push_back(d + "g" + to_string(k)); pbt::spew(c.tm[k], grammar(s, c.fac, w, k == 0, c.storage == 3)); c.limits.push_back(s.coin() ? 20 : s.range(1, 4)); s.log << "grammar " << k << " limit " << c.limits[k] << "\n" << slurp(c.tm[k]); } }
  else { for (int i = 0; i < ns; i++) { if (c.egret && s.coin(2, 3)) { PackOpt o; o.words = 5; o.maxk = 3; o.feats = false; o.max_derivs = 60; o.max_alt = 2; o.labels = 3; Forest f = gen_packed(s, o); for (auto& e : f.edges) e.score = -(double)s.below(3); stable_sort(f.edges.begin(), f.edges.end(), [](const Edge& a, const Edge& b) { return (a.head == 0) > (b.head == 0); }); set<string> key; for (auto& n : f.nodes) if (!key.insert(n.sym + to_string(n.lo) + "-" + to_string(n.hi)).second) throw pbt::Discard(); unique_ptr<HyperGraph> g(build(f)); ostringstream o2; EgretTreeIO().WriteTree(*g, o2); c.input += o2.str() + "\n"; }
      else { TreeOpt o; o.plain = true; o.words = 6; o.maxkids = 3; o.unary = !c.egret; T t = gen_tree(s, o); function<void(T&)> go = [&](T& x) { if (x.term) { if (s.coin(1, 12)) { x.label = nasty(s); if (c.egret && x.label == "|") x.label = "$2"; } } else for (auto& k : x.kids) go(k); }; go(t); if (c.egret) { unique_ptr<HyperGraph> g(tree_graph(t)); ostringstream o2; EgretTreeIO().WriteTree(*g, o2); c.input += o2.str() + "\n"; } else c.input += penn(t) + "\n"; } } }
  // language models
  int nl = c.storage == 3 ? s.below(2) : s.below(3); c.inc = s.coin(); c.consec = nl == 2 && (c.inc || s.coin());
  for (int k = 0; k < nl; k++) { LmSpec l; Words v; for (int i = 0; i < 8; i++) if (s.coin(2, 3)) v.push_back(word(i)); if (v.empty()) v.push_back("a"); l.m = lmg::gen(s, v, 3, 10, false); l.file = d + "lm" + to_string(k); pbt::spew(l.file, l.m.text); l.factor = s.below(c.storage == 3 ? 1 : c.fac); l.feat = k ? "lm2" : s.coin(1, 3) && c.storage != 3 ? "mylm" : "lm"; l.unk = l.feat + "unk"; c.lms.push_back(l); s.log << "language model " << l.feat << " factor " << l.factor << "\n" << l.m.text; }
  // weights and options
  auto weight = [&](const string& n, bool nonzero) { double v = s.quarter(2); if (nonzero && v == 0) v = 1; c.w[n] = v; }; for (auto& n : {"p", "q", "wp", "unk", "glue"}) if (s.coin(4, 5)) weight(n, false); if (c.egret && s.coin()) weight("parse", false); if (c.ctrg && s.coin()) weight("unmatch_trg", false); for (auto& l : c.lms) { weight(l.feat, true); if (s.coin()) weight(l.unk, true); else c.w[l.unk] = -1; } if (c.w.empty()) c.w["p"] = 1;
  c.nbest = s.coin() ? s.range(1, 4) : s.range(1, 40); c.uniq = s.coin(1, 3); c.nbout = s.coin(4, 5); c.trace = s.coin(); c.forest = s.coin(1, 3); c.tree = c.nbout && s.coin(1, 3); c.trim = c.forest && s.coin() ? s.range(1, 5) : 0; c.threads = s.range(2, 5);
  vector<pair<string, string> > opts; auto opt = [&](const string& k, const string& v) { opts.push_back(make_pair(k, v)); }; static const char* ST[] = {"hash", "marisa", "fsm", "cfg"};
  { string w; for (auto& p : c.w) { ostringstream o; o << p.first << "=" << p.second; w += (w.empty() ? "" : " ") + o.str(); } opt("weight_vals", w); } opt("tm_file", join(c.tm.empty() ? (c.tm.push_back(d + "rt"), c.tm) : c.tm)); if (c.storage != 1 || s.coin()) opt("tm_storage", ST[c.storage]); opt("in_format", c.words ? "word" : c.egret ? "egret" : "penn"); if (c.bin != "right" || s.coin()) opt("binarize", c.bin); if (c.fac > 1) opt("trg_factors", "2"); if (c.allunk) opt("all_unk", "true"); if (c.delunk) opt("delete_unknown", "true"); if (c.ctrg) opt("consider_trg", "true"); if (c.words) { string l; for (int x : c.limits) l += (l.empty() ? "" : " ") + to_string(x); opt("hiero_span_limit", l); }
  if (nl) { string l; for (auto& m : c.lms) { Words o; if (m.factor || s.coin(1, 4)) o.push_back("factor=" + to_string(m.factor)); if (m.feat != "lm") o.push_back("lm_feat=" + m.feat), o.push_back("lm_unk_feat=" + m.unk); string t = m.file; if (c.storage != 3) for (size_t i = 0; i < o.size(); i++) t += (i ? "," : "|") + o[i]; l += (l.empty() ? "" : " ") + t; } opt("lm_file", l); opt("search", c.inc ? "inc" : "cp"); if (c.consec) opt("lm_multi_type", "consec"); }
  opt("pop_limit", c.consec && s.coin() ? "300000 300000" : "300000"); opt("chart_limit", "300000"); opt("nbest", to_string(c.nbest)); if (c.uniq) opt("nbest_uniq", "true"); if (c.tree) opt("nbest_tree", "true"); if (c.trim) opt("forest_nbest_trim", to_string(c.trim)); if (s.coin(1, 3)) opt("buffer", "false"); if (s.coin()) opt("debug", "0"); vector<bool> infile; for (size_t i = 0; i < opts.size(); i++) infile.push_back(s.coin());
  // the inputs as the decoder should see them, and rules for them
  struct G { G(int f) { GlobalVars::trg_factors = f; } ~G() { GlobalVars::trg_factors = 1; } } guard(c.fac); unique_ptr<TreeIO> io(c.words ? (TreeIO*)new WordTreeIO : c.egret ? (TreeIO*)new EgretTreeIO : (TreeIO*)new PennTreeIO); unique_ptr<GraphTransformer> bin(Binarizer::CreateBinarizerFromString(c.bin)); vector<unique_ptr<HyperGraph> > in; { istringstream is(c.input); for (int i = 0; i < ns; i++) { unique_ptr<HyperGraph> g(io->ReadTree(is)); CHECK(g.get(), "input " << i << " not read"); if (bin) g.reset(bin->TransformGraph(*g)); in.push_back(move(g)); } }
  if (!c.words) { vector<Forest> fs; for (auto& g : in) fs.push_back(from_graph(*g)); pbt::spew(c.tm[0], rules_of(s, fs, c.fac, c.ctrg)); s.log << "rules\n" << slurp(c.tm[0]); }
  s.log << "input\n" << c.input << "options"; for (size_t i = 0; i < opts.size(); i++) s.log << " " << (infile[i] ? "[" : "-") << opts[i].first << (infile[i] ? "] " : " ") << opts[i].second; s.log << " outputs" << (c.nbout ? " nbest" : "") << (c.trace ? " trace" : "") << (c.forest ? " forest" : "") << "\n"; s.sync();
  // expected derivations
  bool src = c.trace || c.tree; SparseMap sw; for (auto& p : c.w) sw[Dict::WID(p.first)] = p.second; Weights W(sw); unique_ptr<GraphTransformer> tm(table(c, src, W)); vector<vector<D> > want; size_t all = 0; for (auto& g : in) { if (c.words && g->GetWords().empty()) { want.push_back(vector<D>()); continue; } unique_ptr<HyperGraph> r(tm->TransformGraph(*g)); want.push_back(derivations(*r, c.fac, 400)); rescore(c, want.back()); all = max(all, want.back().size()); }
  Out o = decode(opts, infile, c.input, c, "");
  int k = c.nbout ? c.nbest : 1; Words best = lines(o.out); CHECK_EQ((int)best.size(), ns, "lines of output"); vector<vector<Words> > nb(ns); if (c.nbout) { int last = 0; for (auto& l : lines(o.nbest)) { Words q = columns(l); CHECK_EQ((int)q.size(), c.tree ? 5 : 4, "columns of n-best line " << l); int i = atoi(q[0].c_str()); CHECK(i >= last && i < ns && to_string(i) == q[0], "n-best line out of order: " << l); last = i; nb[i].push_back(q); } }
  vector<vector<vector<Step> > > tr(ns); if (c.trace) { int last = 0; for (auto& l : lines(o.trace)) { Words q = columns(l); size_t b = c.nbout ? 2 : 1; CHECK_EQ(q.size(), b + 4, "columns of trace line " << l); int i = atoi(q[0].c_str()); CHECK(i >= last && i < ns && to_string(i) == q[0], "trace line out of order: " << l); last = i; size_t a = c.nbout ? atoi(q[1].c_str()) : 0; CHECK(a == tr[i].size() || a + 1 == tr[i].size(), "trace of answer " << a << " out of order"); if (a == tr[i].size()) tr[i].push_back(vector<Step>()); Step t; t.span = q[b]; t.src = q[b + 1]; t.trg = q[b + 2]; t.feats = feats(q[b + 3]); tr[i].back().push_back(t); } }
  Words fl; if (c.forest) { fl = lines(o.forest); CHECK_EQ((int)fl.size(), ns, "lines of the forest file"); }
  for (int i = 0; i < ns; i++) {
    vector<D> v; for (auto& x : want[i]) { bool dup = false; if (c.uniq) for (auto& y : v) dup |= y.words == x.words; if (!dup) v.push_back(x); } size_t n = min((size_t)k, v.size());
    if (c.nbout) CHECK_EQ(nb[i].size(), n, "n-best entries of sentence " << i); if (c.trace) CHECK_EQ(tr[i].size(), n, "traced answers of sentence " << i); if (!n) { CHECK_EQ(best[i], string(), "translation of sentence " << i << " without derivations"); }
    vector<char> used(want[i].size(), 0);
    for (size_t j = 0; j < n; j++) {
      string words = join(toks(c.nbout ? nb[i][j][1] : best[i])); if (j == 0) CHECK_EQ(join(toks(best[i])), words, "best translation of sentence " << i << " against the first n-best entry"); double sc = c.nbout ? atof(nb[i][j][2].c_str()) : v[0].score; Feat fe; if (c.nbout) fe = feats(nb[i][j][3]);
      if (c.nbout) { CHECK(close(sc, v[j].score), "score " << sc << " at rank " << j << " of sentence " << i << ", expected " << v[j].score << " (" << text(v[j].words) << ")"); double dot = 0; for (auto& p : fe) { auto w = c.w.find(p.first); if (w != c.w.end()) dot += w->second * p.second; } CHECK(fabs(dot - sc) <= 5e-3 + 1e-4 * fabs(sc) + 1e-4 * fe.size(), "weighted features " << dot << " of an n-best entry with score " << sc); if (j) CHECK(sc <= atof(nb[i][j - 1][2].c_str()) + 1e-3, "n-best scores increase at rank " << j << " of sentence " << i); if (c.uniq) for (size_t q = 0; q < j; q++) CHECK(c.delunk || nb[i][q][1] != words, "translation " << words << " twice in a unique n-best list"); }
      bool found = false; for (size_t q = 0; q < want[i].size() && !found; q++) if (!used[q] && text(want[i][q].words) == words && close(want[i][q].score, sc) && (!c.nbout || same(want[i][q].feats, fe))) used[q] = 1, found = true; CHECK(found, "sentence " << i << " rank " << j << ": '" << words << "' with score " << sc << " and features " << show(fe) << " is no derivation of the model");
      if (c.trace) { Replay r(tr[i][j], c.fac); auto x = r.go(); CHECK_EQ(r.at, tr[i][j].size(), "trace lines left over for sentence " << i << " answer " << j); CHECK_EQ(text(x.words), words, "translation told by the trace of sentence " << i << " answer " << j); if (c.nbout) CHECK(same(r.total, fe), "features " << show(r.total) << " of the trace, " << show(fe) << " of the n-best list"); Words leaf; for (auto& t : toks(x.src)) if (t[0] == '"') leaf.push_back(t.substr(1, t.size() - 2)); Words sw; for (int w : in[i]->GetWords()) sw.push_back(Dict::WSym(w)); if (c.storage != 3) CHECK_EQ(leaf, sw, "source words of the trace " << x.src << "\n" << o.trace); if (c.tree) CHECK_EQ(join(toks(nb[i][j][4])), join(toks(x.src)), "tree of n-best entry " << j << " of sentence " << i); }
      else if (c.tree && c.storage != 3) { Words leaf; for (auto& t : toks(nb[i][j][4])) if (t[0] == '"') leaf.push_back(t.substr(1, t.size() - 2)); Words sw; for (int w : in[i]->GetWords()) sw.push_back(Dict::WSym(w)); CHECK_EQ(leaf, sw, "words of the tree of n-best entry " << j << " of sentence " << i); }
    }
    if (c.forest && n) { istringstream is(fl[i] + "\n"); JSONTreeIO js; unique_ptr<HyperGraph> g(js.ReadTree(is)); CHECK(g.get(), "forest " << i << " cannot be read"); vector<D> f = derivations(*g, c.fac, 2000); for (auto& x : f) { x.score = 0; for (auto& p : x.feats) { auto w = c.w.find(p.first); if (w != c.w.end()) x.score += w->second * p.second; } } sort(f.begin(), f.end(), [](const D& a, const D& b) { return a.score > b.score; }); if (!c.trim) CHECK_EQ(f.size(), want[i].size(), "derivations of forest " << i); else { CHECK(f.size() >= min((size_t)c.trim, want[i].size()) && f.size() <= want[i].size(), "the trimmed forest has " << f.size() << " of " << want[i].size() << " derivations"); }
      for (size_t j = 0; j < f.size() && (!c.trim || j < (size_t)c.trim); j++) CHECK(close(f[j].score, want[i][j].score), "score of derivation " << j << " of the forest is " << f[j].score << ", expected " << want[i][j].score); if (c.trim) { size_t edges = 0, full = 0; edges = g->NumEdges(); (void)full; size_t most = 0; for (int q = 0; q < c.trim && q < (int)want[i].size(); q++) most++; (void)most; (void)edges; } }
  }
  // the same with more threads
  opts.push_back(make_pair("threads", to_string(c.threads))); infile.push_back(s.coin()); Out p = decode(opts, infile, c.input, c, "2"); CHECK_EQ(p.out, o.out, "output with " << c.threads << " threads"); CHECK_EQ(p.nbest, o.nbest, "n-best lists with " << c.threads << " threads"); CHECK_EQ(p.trace, o.trace, "trace with " << c.threads << " threads"); CHECK_EQ(p.forest, o.forest, "forests with " << c.threads << " threads");
  s.label(ST[c.storage]); if (nl) s.label(c.storage == 3 ? "integrated lm" : c.inc ? "incremental search" : "cube pruning"); if (nl == 2) s.label(c.consec ? "two models consecutively" : "two models jointly"); if (c.uniq) s.label("unique"); if (c.trace) s.label("trace"); if (c.forest) s.label("forest"); s.nontrivial(ns >= 2 && all >= 3);
}
PBT_MAIN("h_decode")
