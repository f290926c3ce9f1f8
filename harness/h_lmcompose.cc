// C12: composing forests with language models, against enumeration of all derivations.
#include "lmgen.h"
#include "tgen.h"
#include <travatar/lm-composer-bu.h>
#include <travatar/lm-composer-incremental.h>
#include <lm/model.hh>
#include <memory>
#include <unistd.h>
using namespace tg; using namespace travatar; using pbt::show; typedef vector<string> Words;

struct Spec { lmg::Lm m; string file, feat, unk; int factor; double w, wu; lm::ngram::ModelType type; bool wset, uset; };
template <class M> static void compile(const string& arpa, const string& bin) { lm::ngram::Config c; c.show_progress = false; c.messages = NULL; c.unknown_missing = lm::SILENT; c.arpa_complain = lm::ngram::Config::NONE; c.temporary_directory_prefix = pbt::scratch() + "/"; c.building_memory = 1 << 20; c.write_mmap = bin.c_str(); c.rest_function = lm::ngram::Config::REST_MAX; M m(arpa.c_str(), c); }
static Spec spec(S& s, int k, int factors, const string& feat) {
  Spec p; Words v; for (int i = 0; i < 6; i++) if (s.coin(2, 3)) v.push_back(word(i)); if (v.empty()) v.push_back("a"); p.m = lmg::gen(s, v, s.coin(1, 4) ? 5 : 3, 12, false); p.file = pbt::scratch() + "/lm" + to_string(k); unlink(p.file.c_str());
  string arpa = pbt::scratch() + "/arpa"; pbt::spew(arpa, p.m.text); p.type = lm::ngram::PROBING; if (s.coin(1, 3)) { p.type = (lm::ngram::ModelType)s.below(6); if (p.type == lm::ngram::REST_PROBING) p.type = lm::ngram::PROBING; }
  switch (p.type) { case lm::ngram::TRIE: compile<lm::ngram::TrieModel>(arpa, p.file); break; case lm::ngram::QUANT_TRIE: compile<lm::ngram::QuantTrieModel>(arpa, p.file); break; case lm::ngram::ARRAY_TRIE: compile<lm::ngram::ArrayTrieModel>(arpa, p.file); break; case lm::ngram::QUANT_ARRAY_TRIE: compile<lm::ngram::QuantArrayTrieModel>(arpa, p.file); break; default: if (s.coin()) compile<lm::ngram::ProbingModel>(arpa, p.file); else pbt::spew(p.file, p.m.text); }
  p.factor = s.below(factors); p.feat = feat; p.unk = feat + "unk"; static const double W[] = {1, 0.5, 2, 0.3, -1, 0, 0.01}; p.w = W[s.below(7)]; p.wu = s.quarter(4); p.wset = !s.coin(1, 12); p.uset = !s.coin(1, 8); if (!p.wset) p.w = 0; if (!p.uset) p.wu = 0; s.log << "language model " << feat << " type " << p.type << " factor " << p.factor << " weights " << p.w << " " << p.wu << "\n" << p.m.text; return p;
}
static string param(S& s, const Spec& p) { Words o; if (p.factor || s.coin()) o.push_back("factor=" + to_string(p.factor)); if (p.feat != "lm" || s.coin(1, 4)) { o.push_back("lm_feat=" + p.feat); o.push_back("lm_unk_feat=" + p.unk); } string r = p.file; for (size_t i = 0; i < o.size(); i++) r += (i ? "," : "|") + o[i]; return r; }

struct Tr { string sig; double score; vector<Words> words; Feat feats; };
// all derivations; edges are known by the feature "#i"; edges without one and a single tail are transparent
struct Trees {
  const Forest& f; bool ids; vector<vector<int> > by; vector<char> st; vector<vector<Tr> > memo; double total;
  Trees(const Forest& f_, bool ids_) : f(f_), ids(ids_), by(f_.nodes.size()), st(f_.nodes.size()), memo(f_.nodes.size()), total(0) { for (size_t i = 0; i < f.edges.size(); i++) by[f.edges[i].head].push_back(i); }
  static int label(const Edge& e) { for (auto& x : e.feats) if (x.first[0] == '#') return atoi(x.first.c_str() + 1); return -1; }
  const vector<Tr>& at(int n) {
    CHECK(st[n] != 1, "the result is cyclic"); if (st[n]) return memo[n]; st[n] = 1; vector<Tr> out;
    for (int ei : by[n]) { const Edge& e = f.edges[ei]; int lab = label(e); vector<const vector<Tr>*> ch; bool none = false; for (int t : e.tails) { ch.push_back(&at(t)); none |= ch.back()->empty(); } if (none) continue; vector<size_t> ix(ch.size(), 0);
      for (;;) { Tr d; d.score = e.score; d.feats = e.feats; d.sig = lab < 0 ? "" : to_string(lab) + "("; for (size_t i = 0; i < ch.size(); i++) { const Tr& c = (*ch[i])[ix[i]]; d.score += c.score; for (auto& p : c.feats) d.feats[p.first] += p.second; d.sig += (i ? "," : "") + c.sig; } if (lab >= 0) d.sig += ")"; CHECK(lab >= 0 || ch.size() == 1, "an edge of the result stands for no edge of the forest"); d.words.resize(f.factors);
        for (int k = 0; k < f.factors; k++) { CHECK((int)e.trg.size() == f.factors, "edge with " << e.trg.size() << " target factors"); for (int w : e.trg[k]) { if (w >= 0) d.words[k].push_back(ids ? Dict::WSym(w) : word(w)); else { CHECK(-1 - w < (int)ch.size(), "target variable " << -1 - w << " of an edge with " << ch.size() << " tails"); auto& cw = (*ch[-1 - w])[ix[-1 - w]].words[k]; d.words[k].insert(d.words[k].end(), cw.begin(), cw.end()); } } }
        out.push_back(d); if (++total > 20000) throw pbt::Discard(); size_t i = 0; for (; i < ix.size(); i++) { if (++ix[i] < ch[i]->size()) break; ix[i] = 0; } if (i == ix.size()) break; } }
    st[n] = 2; memo[n] = out; return memo[n];
  }
};
static Forest forest(S& s, int factors, bool big) {
  ForestOpt o; o.factors = factors; o.terminals = s.coin(1, 8); o.max_derivs = big ? (s.thorough ? 3000 : 500) : 150; o.max_nodes = s.thorough ? 8 : 6; o.max_tails = 3; Forest f = gen_forest(s, o); int u = 0;
  for (auto& n : f.nodes) { n.lo = s.below(3); n.hi = n.lo + 1 + s.below(3); }
  for (size_t i = 0; i < f.edges.size(); i++) { Edge& e = f.edges[i]; e.feats.erase("lm"); e.feats["#" + to_string(i)] = 1; e.src = s.coin() ? "S" + to_string(i) : ""; for (auto& t : e.trg) for (size_t k = 0; k < e.tails.size(); k++) if (!count(t.begin(), t.end(), -1 - (int)k)) { t.insert(t.begin() + s.below(t.size() + 1), -1 - (int)k); u++; } for (auto& t : e.trg) for (auto& w : t) if (w >= 0 && s.coin(1, 10)) w = 4 + s.below(3); }
  f.words.push_back("x"); if (s.coin()) f.words.push_back("y"); return f;
}
static double tol(double v) { return 2e-3 + 3e-6 * fabs(v); }
// LM parts of one derivation
static void addlm(const Spec& p, Tr& t) { Words w = t.words[p.factor]; double u = 0; for (auto& x : w) if (!p.m.t.count(Words(1, x)) || x == "<unk>") u++; w.push_back("</s>"); double l = p.m.total(Words(1, "<s>"), w); t.feats[p.feat] += l; t.feats[p.unk] += u; t.score += l * p.w + u * p.wu; }

static void compare(S& s, const Forest& f, const vector<Tr>& want, const HyperGraph& g, bool all, double slack, int& kept) {
  Forest h = from_graph(g, f.factors); CHECK(h.words == f.words, "source words of the result"); map<string, const Tr*> wm; for (auto& t : want) wm[t.sig] = &t;
  if (h.nodes.empty()) { CHECK(want.empty(), "an empty result for a forest with " << want.size() << " derivations"); return; }
  for (auto& e : h.edges) { int l = Trees::label(e); if (l < 0) continue; CHECK_EQ(h.nodes[e.head].sym, f.nodes[f.edges[l].head].sym, "symbol above edge " << l); CHECK_EQ(h.nodes[e.head].lo, f.nodes[f.edges[l].head].lo, "span above edge " << l); CHECK_EQ(h.nodes[e.head].hi, f.nodes[f.edges[l].head].hi, "span above edge " << l); CHECK_EQ(e.src, f.edges[l].src, "source string of edge " << l); }
  if (!h.edges.empty()) CHECK_EQ(h.nodes[0].sym, string("LMROOT"), "root");
  Trees tr(h, true); const vector<Tr>& got = tr.at(0); set<string> seen; double best = -1e300;
  for (auto& t : got) { auto i = wm.find(t.sig); if (i == wm.end()) FAIL("derivation " << t.sig << " is not one of the forest"); CHECK(seen.insert(t.sig).second, "derivation " << t.sig << " twice"); const Tr& w = *i->second; CHECK(t.words == w.words, "derivation " << t.sig << " yields " << show(t.words) << ", in the forest " << show(w.words)); CHECK(fabs(t.score - w.score) <= tol(w.score), "derivation " << t.sig << " '" << show(t.words) << "' scores " << t.score << ", expected " << w.score); Feat a = t.feats, b = w.feats; for (auto& x : b) CHECK(fabs(a[x.first] - x.second) <= slack * tol(x.second), "feature " << x.first << " of " << t.sig << " '" << show(t.words) << "' is " << a[x.first] << ", expected " << x.second); for (auto& x : a) CHECK(b.count(x.first) || fabs(x.second) < 1e-3 * slack, "feature " << x.first << " of " << t.sig << ": " << x.second); best = max(best, t.score); }
  kept = got.size(); if (all) CHECK_EQ(got.size(), want.size(), "derivations kept"); else CHECK(!got.empty() || want.empty(), "nothing kept of " << want.size() << " derivations");
  if (!got.empty()) { double v = const_cast<HyperGraph&>(g).GetNode(0)->GetViterbiScore(); CHECK(fabs(v - best) <= tol(v), "best score noted at the root " << v << ", the best derivation has " << best); }
}
static SparseMap weights(const vector<Spec>& ps) { SparseMap w; for (auto& p : ps) { if (p.wset) w[Dict::WID(p.feat)] = p.w; if (p.uset) w[Dict::WID(p.unk)] = p.wu; } w[Dict::WID("other")] = 3; return w; }
struct Factors { Factors(int n) { GlobalVars::trg_factors = n; } ~Factors() { GlobalVars::trg_factors = 1; } };
static void sizes(S& s, const Forest& f, const vector<Tr>& want) { s.label("derivations " + string(want.size() < 2 ? "0-1" : want.size() < 20 ? "2-19" : "20+")); for (auto& e : f.edges) if (e.tails.size() == 3) { s.label("three tails"); break; } }

PROP(cube_pruning, 6000, 150000) {
  int fac = s.coin(1, 4) ? 2 : 1; Factors F(fac); int n = s.coin(1, 4) ? 2 : 1; vector<Spec> ps; vector<string> pars; for (int i = 0; i < n; i++) { ps.push_back(spec(s, i, fac, i ? s.coin(1, 5) ? ps[0].feat : "lm2" : s.coin() ? "lm" : "lmx")); } if (n == 2 && ps[0].feat == ps[1].feat) { ps[1].w = ps[0].w; ps[1].wu = ps[0].wu; ps[1].wset = ps[0].wset; ps[1].uset = ps[0].uset; }
  for (auto& p : ps) pars.push_back(param(s, p)); Forest f = forest(s, fac, false); s.log << describe(f); s.log << show(pars) << "\n"; s.sync(); std::unique_ptr<HyperGraph> g(build(f)); Trees T(f, false); vector<Tr> want = T.at(0); for (auto& t : want) for (auto& p : ps) addlm(p, t);
  bool consec = n == 2 && s.coin(); int kept = 0; std::unique_ptr<HyperGraph> r;
  if (consec) { LMComposerBU a(vector<string>(1, pars[0])), b(vector<string>(1, pars[1])); a.SetStackPopLimit(1000000); b.SetStackPopLimit(1000000); a.UpdateWeights(weights(ps)); b.UpdateWeights(weights(ps)); std::unique_ptr<HyperGraph> m(a.TransformGraph(*g)); r.reset(b.TransformGraph(*m)); s.label("two models one after the other"); }
  else { LMComposerBU a(pars); a.SetStackPopLimit(1000000); a.UpdateWeights(weights(ps)); r.reset(a.TransformGraph(*g)); if (n == 2) s.label("two models jointly"); }
  compare(s, f, want, *r, true, 1, kept); sizes(s, f, want); Forest h = from_graph(*r, fac); Forest f2 = from_graph(*g, fac); CHECK_EQ(f2.edges.size(), f.edges.size(), "the input changed"); s.nontrivial(want.size() >= 4 && h.nodes.size() < 4000);
  if (h.nodes.size() > f.nodes.size() + 1) s.label("split states");
}

// with a limited beam: a subset, and each cell keeps the combinations whose parts score best
PROP(cube_beam, 4000, 150000) {
  Spec p = spec(s, 0, 1, "lm"); string par = param(s, p); Forest f = forest(s, 1, true); int pops = s.range(1, 8), chart = s.coin() ? 0 : s.range(1, 4); s.log << describe(f) << par << " pops " << pops << " chart " << chart << "\n"; s.sync(); std::unique_ptr<HyperGraph> g(build(f)); LMComposerBU a(vector<string>(1, par)); a.SetStackPopLimit(pops); a.SetChartLimit(chart); a.UpdateWeights(weights(vector<Spec>(1, p))); std::unique_ptr<HyperGraph> r(a.TransformGraph(*g));
  Trees T(f, false); vector<Tr> want = T.at(0); for (auto& t : want) addlm(p, t); int kept = 0; compare(s, f, want, *r, false, 1, kept); sizes(s, f, want);
  Forest h = from_graph(*r); vector<vector<int> > by(f.nodes.size()), cells(f.nodes.size()); vector<double> vit(h.nodes.size()); for (size_t i = 0; i < h.nodes.size(); i++) vit[i] = r->GetNode(i)->GetViterbiScore(); map<int, int> origin; set<pair<int, vector<int> > > combos; map<int, int> popped; for (auto& e : h.edges) { int l = Trees::label(e); if (l < 0) continue; origin[e.head] = f.edges[l].head; combos.insert(make_pair(l, e.tails)); popped[f.edges[l].head]++; }
  for (auto& x : origin) cells[x.second].push_back(x.first); bool cut = false;
  for (auto& x : popped) { CHECK(x.second <= pops, x.second << " combinations kept for a node, limit " << pops); if (chart) CHECK((int)cells[x.first].size() <= chart, cells[x.first].size() << " states kept for a node, limit " << chart); }
  if (!chart) for (auto& x : popped) { double lo = 1e300, hi = -1e300; int cands = 0; for (size_t i = 0; i < f.edges.size(); i++) { const Edge& e = f.edges[i]; if (e.head != x.first) continue; vector<size_t> ix(e.tails.size(), 0); bool none = false; for (int t : e.tails) none |= cells[t].empty(); if (none) continue; for (;;) { vector<int> c; double v = e.score; for (size_t k = 0; k < ix.size(); k++) { c.push_back(cells[e.tails[k]][ix[k]]); v += vit[c.back()]; } cands++; if (combos.count(make_pair((int)i, c))) lo = min(lo, v); else hi = max(hi, v); size_t k = 0; for (; k < ix.size(); k++) { if (++ix[k] < cells[e.tails[k]].size()) break; ix[k] = 0; } if (k == ix.size()) break; } }
    CHECK_EQ(x.second, min(cands, pops), "combinations tried for node " << x.first); if (cands > pops) cut = true; CHECK(hi <= lo + 1e-6 * (1 + fabs(hi)), "node " << x.first << " keeps a combination of parts scoring " << lo << " and leaves out one of " << hi); }
  if (cut) s.label("beam cut"); if (kept < (int)want.size()) s.label("derivations lost"); s.nontrivial(cut || (chart && kept < (int)want.size()));
}

PROP(incremental, 6000, 150000) {
  int fac = s.coin(1, 4) ? 2 : 1; Factors F(fac); Spec p = spec(s, 0, fac, s.coin() ? "lm" : "lmx"); string par = param(s, p); Forest f = forest(s, fac, false); bool all = s.coin(2, 3); int pops = all ? 1000000 : s.range(1, 10); s.log << describe(f) << par << " pops " << pops << "\n"; s.sync(); std::unique_ptr<HyperGraph> g(build(f)); Trees T(f, false); vector<Tr> want = T.at(0); for (auto& t : want) addlm(p, t);
  LMComposerIncremental a(vector<string>(1, par)); a.SetStackPopLimit(pops); a.UpdateWeights(weights(vector<Spec>(1, p))); std::unique_ptr<HyperGraph> r(a.TransformGraph(*g)); int kept = 0; compare(s, f, want, *r, all, 1, kept); sizes(s, f, want); s.nontrivial(want.size() >= 4); if (kept < (int)want.size()) s.label("derivations lost");
}
PBT_MAIN("h_lmcompose")
