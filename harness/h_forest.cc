// C02: inside-outside, rescoring, copying, appending and pruning of forests.
#include "tgen.h"
#include <travatar/weights.h>
#include <travatar/trimmer-nbest.h>
using namespace tg;

static double lse(const vector<double>& v) { if (v.empty()) return -INFINITY; double m = *max_element(v.begin(), v.end()); if (std::isinf(m)) return m; double t = 0; for (double x : v) t += exp(x - m); return m + log(t); }

static set<int> reach_nodes(const Forest& f) { set<int> r; vector<int> q(1, 0); r.insert(0); while (!q.empty()) { int n = q.back(); q.pop_back(); for (auto& e : f.edges) if (e.head == n) for (int t : e.tails) if (r.insert(t).second) q.push_back(t); } return r; }

PROP(inout, 40000, 900000) {
  ForestOpt o; o.terminals = s.coin(); o.templates = false; o.feats = false; o.max_nodes = s.thorough ? 11 : 8; o.max_edges = s.range(1, 5); o.max_derivs = s.thorough ? 3000 : 600;
  static const int MAG[] = {2, 10, 100, 2000}; o.score_mag = MAG[s.below(4)]; o.score_kind = s.coin(1, 6) ? 0 : 1 + s.below(3);
  Forest f = gen_forest(s, o); s.log << describe(f); s.sync();
  Enumerator en(f); const vector<Deriv>& all = en.at(0);
  std::unique_ptr<HyperGraph> g(build(f));
  g->InsideOutsideNormalize();
  vector<double> tot; for (auto& d : all) tot.push_back(d.score); double Z = lse(tot);
  set<int> rn = reach_nodes(f); bool spread = false; if (!tot.empty() && *max_element(tot.begin(), tot.end()) - *min_element(tot.begin(), tot.end()) > 700) { spread = true; s.label("scores spread over more than 700"); }
  for (size_t i = 0; i < f.edges.size(); i++) {
    if (!rn.count(f.edges[i].head)) { s.label("unreachable edges"); continue; }
    vector<double> use; for (auto& d : all) { int k = count(d.edges.begin(), d.edges.end(), (int)i); if (k) use.push_back(d.score + log((double)k)); }
    double want = lse(use) - Z;
    if (use.empty()) FAIL("no derivation uses reachable edge " << i);
    CHECK(fabs(g->GetEdge(i)->GetScore() - want) < 1e-7 * max(1.0, fabs(want)), "log posterior of edge " << i << " is " << pbt::show((double)g->GetEdge(i)->GetScore()) << ", expected " << pbt::show(want));
  }
  int sh = 0; for (int n : rn) { int u = 0; for (auto& e : f.edges) u += count(e.tails.begin(), e.tails.end(), n); if (u > 1) sh++; }
  if (sh) s.label("shared nodes");
  s.nontrivial(all.size() >= 3 && sh > 0); (void)spread;
  // the graph is otherwise unchanged
  Forest h = from_graph(*g); for (size_t i = 0; i < f.edges.size(); i++) { CHECK_EQ(h.edges[i].tails, f.edges[i].tails, "tails"); CHECK_EQ(h.edges[i].head, f.edges[i].head, "head"); }
}

PROP(rescore, 15000, 300000) {
  ForestOpt o; o.terminals = s.coin(); Forest f = gen_forest(s, o); s.log << describe(f);
  SparseMap w; Feat wf; for (int i = 0; i < 5; i++) if (s.coin(3, 4)) { double v = s.quarter(4); wf[featname(i)] = v; w[Dict::WID(featname(i))] = v; }
  s.log << "weights " << pbt::show(wf) << "\n"; s.sync();
  std::unique_ptr<HyperGraph> g(build(f)); Weights W(w);
  int two = 0;
  for (int round = 0; round < 2; round++) {
    g->ScoreEdges(W);
    for (size_t i = 0; i < f.edges.size(); i++) { double want = 0; for (auto& p : f.edges[i].feats) { auto it = wf.find(p.first); if (it != wf.end()) want += p.second * it->second; } if (f.edges[i].feats.size() > 1) two++; CHECK_NEAR(g->GetEdge(i)->GetScore(), want, 1e-9, "score of edge " << i); CHECK(eq_feats(from_feats(g->GetEdge(i)->GetFeatures()), f.edges[i].feats), "features of edge " << i << " changed"); }
  }
  // best derivation after resetting equals the best by the definition
  if (!o.terminals) { g->ResetViterbiScores(); for (size_t i = 0; i < f.edges.size(); i++) f.edges[i].score = g->GetEdge(i)->GetScore(); Enumerator en(f); double b = -1e300; for (auto& d : en.at(0)) b = max(b, d.score); CHECK_NEAR(g->GetNode(0)->CalcViterbiScore(), b, 1e-9, "Viterbi score after rescoring"); }
  s.nontrivial(two > 2 && wf.size() > 1);
}

// ---- histories over several graphs, against a structural model ----
struct MEdge { int head; vector<int> tails; double score; Feat feats; vector<vector<int> > trg; string src; vector<const HyperEdge*> frag; };
struct MNode { string sym, tsym; pair<int, int> span; vector<int> edges; set<int> tspan; bool hastspan; int frontier; double vit; };
struct MGraph { vector<MNode> nodes; vector<MEdge> edges; vector<string> words; bool rule; };
static MGraph snap(const HyperGraph& g) {
  Forest f = from_graph(g); MGraph m; m.words = f.words; m.rule = g.GetEdgeType() == HyperGraph::RULE_EDGE;
  for (int i = 0; i < g.NumNodes(); i++) { const HyperNode* n = g.GetNode(i); MNode x; x.sym = f.nodes[i].sym; x.tsym = n->GetTrgSym() >= 0 ? Dict::WSym(n->GetTrgSym()) : "?"; x.span = n->GetSpan(); for (auto e : n->GetEdges()) x.edges.push_back(e->GetId()); x.tspan = n->GetTrgSpan(); x.hastspan = n->HasTrgSpan(); x.frontier = n->GetFrontier(); x.vit = n->GetViterbiScore(); m.nodes.push_back(x); }
  for (int i = 0; i < g.NumEdges(); i++) { const Edge& e = f.edges[i]; MEdge x; x.head = e.head; x.tails = e.tails; x.score = e.score; x.feats = e.feats; x.trg = e.trg; x.src = e.src; if (m.rule) { const RuleEdge* r = dynamic_cast<const RuleEdge*>(g.GetEdge(i)); CHECK(r, "edge " << i << " of a rule graph is not a rule edge"); for (auto q : r->GetFragmentEdges()) x.frag.push_back(q); } m.edges.push_back(x); }
  return m;
}
static void same(const MGraph& a, const MGraph& b, const string& what) {
  CHECK_EQ(a.rule, b.rule, what); CHECK_EQ(a.words, b.words, what << " words"); CHECK_EQ(a.nodes.size(), b.nodes.size(), what << " nodes"); CHECK_EQ(a.edges.size(), b.edges.size(), what << " edges");
  for (size_t i = 0; i < a.nodes.size(); i++) { const MNode &x = a.nodes[i], &y = b.nodes[i]; CHECK(x.sym == y.sym && x.tsym == y.tsym && x.span == y.span && x.edges == y.edges && x.tspan == y.tspan && x.hastspan == y.hastspan && x.frontier == y.frontier && x.vit == y.vit, what << ": node " << i << " differs"); }
  for (size_t i = 0; i < a.edges.size(); i++) { const MEdge &x = a.edges[i], &y = b.edges[i]; CHECK(x.head == y.head && x.tails == y.tails && x.score == y.score && x.feats == y.feats && x.trg == y.trg && x.src == y.src && x.frag == y.frag, what << ": edge " << i << " differs"); }
}
static MGraph shift(const MGraph& a, const MGraph& b) {   // model of Append
  MGraph r = a; int n0 = a.nodes.size(), e0 = a.edges.size();
  for (MNode x : b.nodes) { for (int& e : x.edges) e += e0; r.nodes.push_back(x); }
  for (MEdge x : b.edges) { x.head += n0; for (int& t : x.tails) t += n0; r.edges.push_back(x); }
  return r;
}
static Forest as_forest(const MGraph& m) { Forest f; for (auto& n : m.nodes) { Node x; x.sym = n.sym; x.lo = x.hi = 0; f.nodes.push_back(x); } for (auto& e : m.edges) { Edge x; x.head = e.head; x.tails = e.tails; x.score = e.score; x.feats = e.feats; f.edges.push_back(x); } return f; }

static HyperGraph* gen_graph(S& s, vector<HyperEdge*>& pool, bool rule, int& tag) {
  ForestOpt o; o.max_nodes = 6; o.max_derivs = 150; o.bound_all = true; Forest f = gen_forest(s, o);
  for (auto& e : f.edges) e.src = "e" + to_string(tag++);
  int nw = s.below(3); for (int i = 0; i < nw; i++) f.words.push_back(word(s.below(4)));
  HyperGraph* g;
  if (!rule) g = build(f);
  else {
    g = new HyperGraph; g->SetEdgeType(HyperGraph::RULE_EDGE);
    std::unique_ptr<HyperGraph> t(build(f));
    for (int i = 0; i < t->NumNodes(); i++) { HyperNode* n = new HyperNode(t->GetNode(i)->GetSym(), t->GetNode(i)->GetTrgSym(), t->GetNode(i)->GetSpan()); g->AddNode(n); }
    for (int i = 0; i < t->NumEdges(); i++) { HyperEdge* e = t->GetEdge(i); RuleEdge* r = new RuleEdge(g->GetNode(e->GetHead()->GetId())); for (auto x : e->GetTails()) r->AddTail(g->GetNode(x->GetId())); r->SetFeatures(e->GetFeatures()); r->SetTrgData(e->GetTrgData()); r->SetSrcStr(e->GetSrcStr());
      int nf = s.below(3); for (int q = 0; q < nf; q++) r->AddFragmentEdge(pool[s.below(pool.size())]);
      r->SetScore(e->GetScore()); g->AddEdge(r); g->GetNode(e->GetHead()->GetId())->AddEdge(r); }
    g->SetWords(t->GetWords());
  }
  for (int i = 0; i < g->NumNodes(); i++) { HyperNode* n = g->GetNode(i); n->SetSym(Dict::WID("n" + to_string(tag++))); n->SetSpan(make_pair(s.below(4), s.below(4))); if (s.coin()) { set<int> t; t.insert(s.below(5)); t.insert(s.below(5)); n->SetTrgSpan(t); } if (s.coin()) n->SetFrontier(s.coin() ? HyperNode::IS_FRONTIER : HyperNode::NOT_FRONTIER); }
  return g;
}

static void check_trim(const MGraph& m, HyperGraph& src, int n, const HyperGraph& out) {
  MGraph r = snap(out);
  Forest f = as_forest(m); Enumerator en(f); vector<Deriv> all = en.at(0); sort(all.begin(), all.end(), [](const Deriv& a, const Deriv& b) { return a.score > b.score; });
  NbestList nb = src.GetNbest(n);   // which of the tied derivations are the n best is the extractor's choice
  set<string> want_e, want_n; want_n.insert(m.nodes[0].sym);
  for (auto& p : nb) for (auto e : p->GetEdges()) { want_e.insert(m.edges[e->GetId()].src); want_n.insert(m.nodes[e->GetHead()->GetId()].sym); for (auto t : e->GetTails()) want_n.insert(m.nodes[t->GetId()].sym); }
  set<string> got_e, got_n; for (auto& e : r.edges) CHECK(got_e.insert(e.src).second, "edge " << e.src << " twice in the pruned forest"); for (auto& x : r.nodes) CHECK(got_n.insert(x.sym).second, "node twice in the pruned forest");
  CHECK_EQ(got_e, want_e, "edges of the pruned forest"); CHECK_EQ(got_n, want_n, "nodes of the pruned forest");
  CHECK_EQ(r.nodes[0].sym, m.nodes[0].sym, "root of the pruned forest"); CHECK_EQ(r.words, m.words, "words"); CHECK_EQ(r.rule, m.rule, "edge type");
  map<string, const MEdge*> oe; for (auto& e : m.edges) oe[e.src] = &e; map<string, const MNode*> on; for (auto& x : m.nodes) on[x.sym] = &x;
  for (auto& e : r.edges) { const MEdge& q = *oe[e.src]; CHECK(e.score == q.score && e.feats == q.feats && e.trg == q.trg && e.frag == q.frag, "content of kept edge " << e.src << " changed"); CHECK_EQ(r.nodes[e.head].sym, m.nodes[q.head].sym, "head of kept edge " << e.src); vector<string> a, b; for (int t : e.tails) a.push_back(r.nodes[t].sym); for (int t : q.tails) b.push_back(m.nodes[t].sym); CHECK_EQ(a, b, "tails of kept edge " << e.src); }
  for (auto& x : r.nodes) { const MNode& q = *on[x.sym]; CHECK(x.tsym == q.tsym && x.span == q.span && x.tspan == q.tspan && x.frontier == q.frontier, "content of kept node " << x.sym << " changed"); vector<string> a, b; for (int e : x.edges) a.push_back(r.edges[e].src); for (int e : q.edges) if (want_e.count(m.edges[e].src)) b.push_back(m.edges[e].src); CHECK_EQ(a, b, "edges of kept node " << x.sym); }
  // same n best scores
  Forest rf = as_forest(r); vector<Deriv> left; if (!r.edges.empty()) { Enumerator re(rf); left = re.at(0); } sort(left.begin(), left.end(), [](const Deriv& a, const Deriv& b) { return a.score > b.score; });
  for (size_t i = 0; i < all.size() && (int)i < n; i++) { CHECK(i < left.size(), "pruned forest lost derivation " << i); CHECK_NEAR(left[i].score, all[i].score, 1e-9, "score of rank " << i << " after pruning"); }
}

PROP(history, 25000, 500000) {
  int tag = 0; bool rule = s.coin(1, 3);
  ForestOpt po; po.max_nodes = 3; Forest pf = gen_forest(s, po); std::unique_ptr<HyperGraph> parse(build(pf)); vector<HyperEdge*> pool = parse->GetEdges(); if (pool.empty()) throw pbt::Discard();
  vector<HyperGraph*> gs; vector<MGraph> ms;
  struct Del { vector<HyperGraph*>& g; ~Del() { for (auto p : g) delete p; } } del{gs};
  gs.push_back(gen_graph(s, pool, rule, tag)); ms.push_back(snap(*gs[0]));
  gs.push_back(gen_graph(s, pool, rule, tag)); ms.push_back(snap(*gs[1]));
  int steps = s.range(1, 6); set<int> ops;
  for (int st = 0; st < steps; st++) {
    int op = s.below(8); int i = s.below(gs.size()), j = s.below(gs.size()); ops.insert(op);
    static const char* NAME[] = {"copy", "append", "trim", "rescore", "delete", "mutate", "reset", "nbest"}; s.log << "step " << st << ": " << NAME[op] << " graph " << i << " (" << j << ")\n"; s.sync();
    switch (op) {
      case 0: { HyperGraph* c = new HyperGraph(*gs[i]); gs.push_back(c); ms.push_back(ms[i]); CHECK_EQ(c->CheckEqual(*gs[i]), 1, "copy is not equal to its original"); for (int e = 0; e < c->NumEdges(); e++) CHECK(c->GetEdge(e) != gs[i]->GetEdge(e), "edge shared with the original"); break; }
      case 1: { if (i == j || ms[i].nodes.size() + ms[j].nodes.size() > 30) break; int r = gs[i]->Append(*gs[j]); CHECK_EQ(r, (int)ms[i].nodes.size(), "position of the appended root"); MGraph m2 = shift(ms[i], ms[j]); same(snap(*gs[i]), m2, "after append");
        for (size_t q = ms[i].nodes.size(); q < m2.nodes.size(); q++) { m2.nodes[q].sym = "n" + to_string(tag++); gs[i]->GetNode(q)->SetSym(Dict::WID(m2.nodes[q].sym)); }   // fresh identities
        for (size_t q = ms[i].edges.size(); q < m2.edges.size(); q++) { m2.edges[q].src = "e" + to_string(tag++); gs[i]->GetEdge(q)->SetSrcStr(m2.edges[q].src); }
        ms[i] = m2; break; }
      case 2: { double mx = 0; for (double x : counts(as_forest(ms[i]))) mx = max(mx, x); if (mx > 400) break; int n = s.range(1, 6); gs[i]->ResetViterbiScores(); for (auto& x : ms[i].nodes) x.vit = -REAL_MAX; TrimmerNbest t(n); HyperGraph* o = t.TransformGraph(*gs[i]); gs.push_back(o); check_trim(ms[i], *gs[i], n, *o); ms.push_back(snap(*o)); for (size_t q = 0; q < ms[i].nodes.size(); q++) ms[i].nodes[q].vit = gs[i]->GetNode(q)->GetViterbiScore(); if (o->NumEdges() < gs[i]->NumEdges()) s.label("pruned something"); break; }
      case 3: { SparseMap w; w[Dict::WID(featname(s.below(4)))] = s.quarter(3); w[Dict::WID(featname(s.below(4)))] = s.quarter(3); Weights W(w); gs[i]->ScoreEdges(W); for (auto& e : ms[i].edges) { e.score = 0; for (auto& p : e.feats) { auto it = w.find(Dict::WID(p.first)); if (it != w.end()) e.score += p.second * it->second; } } for (size_t q = 0; q < ms[i].edges.size(); q++) { CHECK_NEAR(gs[i]->GetEdge(q)->GetScore(), ms[i].edges[q].score, 1e-9, "rescored edge " << q); ms[i].edges[q].score = gs[i]->GetEdge(q)->GetScore(); } break; }
      case 4: { if (gs.size() < 2) break; delete gs[i]; gs.erase(gs.begin() + i); ms.erase(ms.begin() + i); break; }
      case 5: { if (ms[i].edges.empty()) break; int e = s.below(ms[i].edges.size()); double v = s.quarter(5); gs[i]->GetEdge(e)->SetScore(v); ms[i].edges[e].score = v; int n = s.below(ms[i].nodes.size()); set<int> t; t.insert(9); gs[i]->GetNode(n)->SetTrgSpan(t); ms[i].nodes[n].tspan = t; ms[i].nodes[n].hastspan = true; gs[i]->AddWord(Dict::WID("z")); ms[i].words.push_back("z"); break; }
      case 6: gs[i]->ResetViterbiScores(); for (auto& x : ms[i].nodes) x.vit = -REAL_MAX; break;
      case 7: { gs[i]->ResetViterbiScores(); if (!ms[i].edges.empty()) gs[i]->GetNbest(s.range(1, 5)); for (size_t q = 0; q < ms[i].nodes.size(); q++) ms[i].nodes[q].vit = gs[i]->GetNode(q)->GetViterbiScore(); break; }
    }
    for (size_t q = 0; q < gs.size(); q++) same(snap(*gs[q]), ms[q], "graph " + to_string(q) + " after step " + to_string(st));
  }
  if (rule) s.label("rule edges"); if (ops.count(1)) s.label("append"); if (ops.count(2)) s.label("trim"); if (ops.count(0)) s.label("copy");
  s.nontrivial(steps >= 3 && (ops.count(0) || ops.count(1) || ops.count(2)));
}

// Reverse edges and labelled spans are read off the graph.
PROP(indices, 8000, 100000) {
  ForestOpt o; o.terminals = s.coin(); Forest f = gen_forest(s, o); for (auto& n : f.nodes) { n.lo = s.below(3); n.hi = n.lo + s.below(3); } s.log << describe(f); s.sync();
  std::unique_ptr<HyperGraph> g(build(f));
  auto rev = g->GetReversedEdges(); CHECK_EQ(rev.size(), f.nodes.size(), "reverse index size");
  for (size_t n = 0; n < f.nodes.size(); n++) { vector<int> want, got; for (size_t e = 0; e < f.edges.size(); e++) for (int t : f.edges[e].tails) if (t == (int)n) want.push_back(e); for (auto e : rev[n]) got.push_back(e->GetId()); CHECK_EQ(got, want, "edges using node " << n); }
  LabeledSpans ls = g->GetLabeledSpans(); map<pair<int, int>, string> want; for (size_t i = f.nodes.size(); i-- > 0;) want[make_pair(f.nodes[i].lo, f.nodes[i].hi)] = f.nodes[i].sym;
  map<pair<int, int>, string> got; for (auto& p : ls) got[p.first] = Dict::WSym(p.second);
  CHECK_EQ(got, want, "labelled spans"); s.nontrivial(f.nodes.size() > 2 && f.edges.size() > 2);
}
PBT_MAIN("h_forest")
