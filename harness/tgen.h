// Generators and reference enumeration for travatar forests.
#ifndef VERIF_TGEN_H
#define VERIF_TGEN_H
#include "pbt.h"
#include <travatar/hyper-graph.h>
#include <travatar/dict.h>
#include <travatar/sparse-map.h>
#include <travatar/cfg-data.h>
#include <travatar/global-debug.h>
#include <travatar/sentence.h>
#include <boost/shared_ptr.hpp>
#include <memory>

namespace tg {
using namespace travatar; using namespace std; using pbt::S;

typedef map<string, double> Feat;
struct Edge { int head; vector<int> tails; double score; Feat feats; vector<vector<int> > trg; /* >=0 word index, <0 variable -1-i */ string src; };
struct Node { string sym; int lo, hi; };
struct Forest { vector<Node> nodes; vector<Edge> edges; int factors; vector<string> words; Forest() : factors(1) {} };

inline string word(int i) { static const char* W[] = {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"}; return i < 12 ? W[i] : "w" + to_string(i); }
inline string featname(int i) { static const char* W[] = {"p", "q", "lm", "wp", "x1", "x2"}; return i < 6 ? W[i] : "f" + to_string(i); }

struct ForestOpt { int max_nodes, max_edges, max_tails, factors; bool terminals, repeat_tails, templates, feats; int score_kind; long max_derivs; int score_mag; bool bound_all;
  ForestOpt() : max_nodes(7), max_edges(3), max_tails(3), factors(1), terminals(false), repeat_tails(true), templates(true), feats(true), score_kind(-1), max_derivs(1500), score_mag(4), bound_all(false) {} };

inline double gen_score(S& s, int kind, int mag) {
  switch (kind) { case 0: return 0; case 1: return s.quarter(mag); case 2: return s.real(mag); default: return -(double)s.below(3); }
}

// Number of derivations below each node (saturating).
inline vector<double> counts(const Forest& f) {
  vector<double> c(f.nodes.size(), -1); vector<vector<int> > by(f.nodes.size());
  for (size_t i = 0; i < f.edges.size(); i++) by[f.edges[i].head].push_back(i);
  struct R { static double go(const Forest& f, vector<vector<int> >& by, vector<double>& c, int n) {
    if (c[n] >= 0) return c[n];
    if (by[n].empty()) return c[n] = 1;
    double t = 0; for (int e : by[n]) { double p = 1; for (int k : f.edges[e].tails) p *= go(f, by, c, k); t += p; }
    return c[n] = min(t, 1e18); } };
  for (size_t i = 0; i < f.nodes.size(); i++) R::go(f, by, c, i);
  return c;
}

inline Forest gen_forest(S& s, const ForestOpt& o) {
  Forest f; f.factors = o.factors; int N = s.size(1, o.max_nodes);
  int kind = o.score_kind >= 0 ? o.score_kind : s.below(4);
  // node ids: a hidden topological order, relabelled (root stays 0)
  vector<int> id(N); for (int i = 0; i < N; i++) id[i] = i;
  if (s.coin()) for (int i = N - 1; i > 1; i--) swap(id[i], id[1 + s.below(i)]);
  f.nodes.resize(N); for (int i = 0; i < N; i++) { f.nodes[i].sym = string(1, 'N' + (char)s.below(4)); f.nodes[i].lo = 0; f.nodes[i].hi = 1; }
  for (int i = 0; i < N; i++) {
    bool term = o.terminals && i == N - 1 && N > 1; if (o.terminals && i > 0 && i < N - 1 && s.coin(1, 4)) term = true;
    if (term) continue;
    int ne = s.range(1, o.max_edges);
    for (int k = 0; k < ne; k++) {
      Edge e; e.head = id[i];
      int avail = N - 1 - i; int nt = avail ? s.range(0, o.max_tails) : 0;
      if (k == 0 && nt == 0 && avail && s.coin(3, 4)) nt = 1;
      for (int t = 0; t < nt; t++) { int x = id[i + 1 + s.below(avail)]; if (!o.repeat_tails && count(e.tails.begin(), e.tails.end(), x)) continue; e.tails.push_back(x); }
      e.score = gen_score(s, kind, o.score_mag);
      if (o.feats) { int nf = s.below(3); for (int q = 0; q < nf; q++) e.feats[featname(s.below(4))] = s.quarter(3); }
      for (auto it = e.feats.begin(); it != e.feats.end();) if (it->second == 0) e.feats.erase(it++); else ++it;
      if (o.templates) for (int fa = 0; fa < o.factors; fa++) {
        vector<int> t; for (size_t q = 0; q < e.tails.size(); q++) t.push_back(-1 - (int)q);
        for (size_t q = t.size(); q > 1; q--) swap(t[q - 1], t[q - 1 - s.below(q)]);
        if (!t.empty() && s.coin(1, 8)) t.erase(t.begin() + s.below(t.size()));           // a dropped variable
        int nw = s.below(3); for (int q = 0; q < nw; q++) t.insert(t.begin() + s.below(t.size() + 1), s.below(4));
        e.trg.push_back(t);
      }
      f.edges.push_back(e);
    }
  }
  // edges in arbitrary order
  if (s.coin()) for (size_t i = f.edges.size(); i > 1; i--) swap(f.edges[i - 1], f.edges[i - 1 - s.below(i)]);
  vector<double> cs = counts(f); double c = cs[0];
  if (o.bound_all) for (double x : cs) c = max(c, x);
  if (c > o.max_derivs) throw pbt::Discard();
  return f;
}

inline string describe(const Forest& f) {
  ostringstream o; o << "forest of " << f.nodes.size() << " nodes, " << f.factors << " factor(s)\n";
  for (size_t i = 0; i < f.edges.size(); i++) { const Edge& e = f.edges[i]; o << "  e" << i << ": " << e.head << " <- " << pbt::show(e.tails) << " score " << pbt::show(e.score) << " feats " << pbt::show(e.feats) << " trg " << pbt::show(e.trg) << "\n"; }
  return o.str();
}

inline SparseVector to_feats(const Feat& f) { SparseVector v; for (auto& p : f) v.Add(Dict::WID(p.first), p.second); return v; }
inline Feat from_feats(const SparseVector& v) { Feat f; for (auto& p : v.GetImpl()) if (p.second != 0) f[Dict::WSym(p.first)] += p.second; return f; }
inline Feat from_feats(const SparseMap& v) { Feat f; for (auto& p : v) if (p.second != 0) f[Dict::WSym(p.first)] += p.second; return f; }

inline HyperGraph* build(const Forest& f) {
  HyperGraph* g = new HyperGraph;
  for (size_t i = 0; i < f.nodes.size(); i++) { HyperNode* n = new HyperNode(Dict::WID(f.nodes[i].sym), Dict::WID("T" + f.nodes[i].sym), make_pair(f.nodes[i].lo, f.nodes[i].hi)); g->AddNode(n); }
  for (size_t i = 0; i < f.edges.size(); i++) {
    const Edge& e = f.edges[i]; HyperEdge* h = new HyperEdge(g->GetNode(e.head));
    for (int t : e.tails) h->AddTail(g->GetNode(t));
    h->SetScore(e.score); h->SetFeatures(to_feats(e.feats)); h->SetSrcStr(e.src);
    CfgDataVector td; for (auto& t : e.trg) { CfgData d; for (int w : t) d.words.push_back(w < 0 ? w : Dict::WID(word(w))); td.push_back(d); }
    h->SetTrgData(td);
    g->AddEdge(h); g->GetNode(e.head)->AddEdge(h);
  }
  for (auto& w : f.words) g->AddWord(Dict::WID(w));
  return g;
}

struct Deriv { double score; vector<int> edges; vector<vector<int> > words; Feat feats; };

// All derivations from a node, by brute force; words hold Dict-free word indices.
struct Enumerator {
  const Forest& f; vector<vector<int> > by; vector<bool> done; vector<vector<Deriv> > memo;
  Enumerator(const Forest& f_) : f(f_), by(f_.nodes.size()), done(f_.nodes.size()), memo(f_.nodes.size()) { for (size_t i = 0; i < f.edges.size(); i++) by[f.edges[i].head].push_back(i); }
  const vector<Deriv>& at(int n) {
    if (done[n]) return memo[n];
    vector<Deriv> out;
    if (by[n].empty()) { Deriv d; d.score = 0; d.words.resize(f.factors); out.push_back(d); }
    for (int e : by[n]) {
      const Edge& E = f.edges[e]; vector<const vector<Deriv>*> ch; for (int t : E.tails) ch.push_back(&at(t));
      vector<size_t> ix(ch.size(), 0);
      for (;;) {
        Deriv d; d.score = E.score; d.edges.push_back(e); d.feats = E.feats;
        for (size_t i = 0; i < ch.size(); i++) { const Deriv& c = (*ch[i])[ix[i]]; d.score += c.score; d.edges.insert(d.edges.end(), c.edges.begin(), c.edges.end()); for (auto& p : c.feats) d.feats[p.first] += p.second; }
        d.words.resize(f.factors);
        for (size_t k = 0; k < E.trg.size(); k++) for (int w : E.trg[k]) { if (w >= 0) d.words[k].push_back(w); else { const vector<int>& cw = (*ch[-1 - w])[ix[-1 - w]].words[k]; d.words[k].insert(d.words[k].end(), cw.begin(), cw.end()); } }
        out.push_back(d);
        size_t i = 0; for (; i < ix.size(); i++) { if (++ix[i] < ch[i]->size()) break; ix[i] = 0; }
        if (i == ix.size()) break;
      }
    }
    done[n] = true; memo[n] = out; return memo[n];
  }
};

inline Feat nz(const Feat& f) { Feat r; for (auto& p : f) if (fabs(p.second) > 1e-12) r.insert(p); return r; }
inline bool eq_feats(const Feat& a, const Feat& b, double t = 1e-9) {
  for (auto& p : a) { auto it = b.find(p.first); if (!pbt::near(p.second, it == b.end() ? 0 : it->second, t)) return false; }
  for (auto& p : b) if (!a.count(p.first) && !pbt::near(p.second, 0, t)) return false;
  return true;
}

// Reads a HyperGraph back into the model (word indices are Dict ids here).
inline Forest from_graph(const HyperGraph& g, int factors = 1) {
  Forest f; f.factors = factors;
  for (int i = 0; i < g.NumNodes(); i++) { Node n; const HyperNode* h = g.GetNode(i); if (!h) FAIL("node " << i << " is missing"); CHECK_EQ(h->GetId(), i, "node id"); n.sym = h->GetSym() >= 0 ? Dict::WSym(h->GetSym()) : "?"; n.lo = h->GetSpan().first; n.hi = h->GetSpan().second; f.nodes.push_back(n); }
  for (int i = 0; i < g.NumEdges(); i++) {
    const HyperEdge* h = g.GetEdge(i); CHECK_EQ(h->GetId(), i, "edge id"); Edge e; CHECK(h->GetHead(), "edge without head"); e.head = h->GetHead()->GetId();
    CHECK(e.head >= 0 && e.head < g.NumNodes() && g.GetNode(e.head) == h->GetHead(), "edge " << i << " head is not a node of this graph");
    for (auto t : h->GetTails()) { CHECK(t->GetId() >= 0 && t->GetId() < g.NumNodes() && g.GetNode(t->GetId()) == t, "edge " << i << " tail is not a node of this graph"); e.tails.push_back(t->GetId()); }
    e.score = h->GetScore(); e.feats = from_feats(h->GetFeatures()); e.src = h->GetSrcStr();
    for (auto& d : h->GetTrgData()) e.trg.push_back(vector<int>(d.words.begin(), d.words.end()));
    f.edges.push_back(e);
  }
  // each node lists exactly the edges it heads
  set<int> listed;
  for (int i = 0; i < g.NumNodes(); i++) for (auto e : g.GetNode(i)->GetEdges()) {
    CHECK(e->GetId() >= 0 && e->GetId() < g.NumEdges() && g.GetEdge(e->GetId()) == e, "node " << i << " lists an edge that is not in the graph");
    CHECK(e->GetHead() == g.GetNode(i), "node " << i << " lists edge " << e->GetId() << " whose head is another node");
    CHECK(listed.insert(e->GetId()).second, "edge " << e->GetId() << " listed twice");
  }
  CHECK_EQ((int)listed.size(), g.NumEdges(), "edges listed by nodes");
  for (int w : g.GetWords()) f.words.push_back(Dict::WSym(w));
  return f;
}
}
#endif
