// C08: composing minimal rules that carry target sides (RuleComposer on rule graphs).
#include "pbt.h"
#include <travatar/hyper-graph.h>
#include <travatar/rule-composer.h>
#include <memory>
using namespace std; using namespace travatar; using namespace pbt;

struct MRule { int size; vector<pair<int, int> > vars; /*(node, occurrence)*/ vector<vector<pair<bool, int> > > trg; /*(word?, word or occurrence)*/ double score; vector<int> frag; };
struct Model {
  vector<vector<MRule> > mini; map<int, vector<MRule> > done; int order, lex, fresh; vector<pair<int, int> > span;
  MRule renew(const MRule& r) { MRule x = r; map<int, int> m; for (auto& v : x.vars) { m[v.second] = fresh; v.second = fresh++; } for (auto& f : x.trg) for (auto& w : f) if (!w.first) w.second = m[w.second]; return x; }
  const vector<MRule>& comp(int n) {
    auto it = done.find(n); if (it != done.end()) return it->second; vector<MRule> out;
    for (auto& m0 : mini[n]) { MRule m = renew(m0); vector<MRule> list(1, m);
      for (auto& v : m.vars) { size_t end = list.size(); for (size_t i = 0; i < end; i++) for (auto& b0 : comp(v.first)) {
          bool lexical = span[n].second - span[n].first <= lex && list[i].vars.size() == 1 && b0.vars.empty(); if (list[i].size + b0.size > order && !lexical) continue;
          MRule b = renew(b0), a = list[i]; MRule c; c.size = a.size + b.size; c.score = a.score + b.score; c.frag = a.frag; c.frag.insert(c.frag.end(), b.frag.begin(), b.frag.end());
          for (auto& x : a.vars) if (x.second == v.second) c.vars.insert(c.vars.end(), b.vars.begin(), b.vars.end()); else c.vars.push_back(x);
          for (size_t f = 0; f < a.trg.size(); f++) { c.trg.resize(a.trg.size()); for (auto& w : a.trg[f]) if (!w.first && w.second == v.second) c.trg[f].insert(c.trg[f].end(), b.trg[f].begin(), b.trg[f].end()); else c.trg[f].push_back(w); }
          list.push_back(c); if (list.size() > 1500) throw Discard(); } }
      out.insert(out.end(), list.begin(), list.end()); }
    return done[n] = out;
  }
};
static string key(const vector<int>& tails, const vector<vector<int> >& trg, const vector<int>& frag, double score) { ostringstream o; vector<int> f = frag; sort(f.begin(), f.end()); o << show(tails) << " -> "; for (auto& t : trg) o << show(t); o << " fragments " << show(f) << " score " << floor(score * 64 + 0.5); return o.str(); }

PROP(compose, 8000, 100000) {
  int n = s.range(1, 6), factors = s.range(1, 2), word = 0; HyperGraph g; g.SetEdgeType(HyperGraph::RULE_EDGE); Model m; m.order = s.range(1, 4); m.lex = s.coin() ? 0 : s.range(1, 4); m.fresh = 0; m.mini.resize(n); m.span.resize(n);
  // node i covers part of what its parent covers; children come later
  vector<HyperNode*> node; vector<HyperEdge*> fr; m.span[0] = make_pair(0, s.range(1, 5)); vector<vector<int> > under(n); for (int i = 1; i < n; i++) { int p = s.below(i); under[p].push_back(i); int lo = m.span[p].first, hi = m.span[p].second; int a = s.range(lo, hi - 1); m.span[i] = make_pair(a, s.range(a + 1, hi)); }
  for (int i = 0; i < n; i++) { node.push_back(new HyperNode(1, -1, m.span[i])); g.AddNode(node[i]); } vector<unique_ptr<HyperEdge> > keep;
  for (int i = 0; i < n; i++) { int k = s.coin(1, 4) ? 2 : 1; for (int e = 0; e < k; e++) {
      vector<int> kids; for (int c : under[i]) if (s.coin(4, 5)) kids.push_back(c); for (size_t a = kids.size(); a > 1; a--) if (s.coin(1, 4)) swap(kids[a - 1], kids[a - 1 - s.below(a)]);
      RuleEdge* r = new RuleEdge(node[i]); MRule q; q.size = 1; q.score = s.quarter(8); for (int c : kids) { r->AddTail(node[c]); q.vars.push_back(make_pair(c, (int)q.vars.size())); } r->SetScore(q.score); keep.emplace_back(new HyperEdge(node[i])); keep.back()->SetId(keep.size()); q.frag.push_back(keep.size()); r->SetFragmentEdges(vector<HyperEdge*>(1, keep.back().get()));
      CfgDataVector td(factors); q.trg.resize(factors); for (int f = 0; f < factors; f++) { vector<pair<bool, int> > w; for (size_t v = 0; v < kids.size(); v++) w.push_back(make_pair(false, (int)v)); int extra = s.range(kids.empty() ? 1 : 0, 2); for (int x = 0; x < extra; x++) w.push_back(make_pair(true, ++word)); for (size_t a = w.size(); a > 1; a--) swap(w[a - 1], w[a - 1 - s.below(a)]); q.trg[f] = w; for (auto& x : w) td[f].words.push_back(x.first ? x.second : -1 - x.second); } r->SetTrgData(td);
      s.log << "node " << i << " [" << m.span[i].first << "," << m.span[i].second << ") children " << show(kids) << " target"; for (auto& t : td) s.log << " " << show(t.words); s.log << " score " << q.score << "\n";
      m.mini[i].push_back(q); g.AddEdge(r); node[i]->AddEdge(r); } }
  s.log << "order " << m.order << " lexical span " << m.lex << "\n"; s.sync();
  multiset<string> want; vector<int> reach(n); vector<int> st(1, 0); reach[0] = 1; while (!st.empty()) { int x = st.back(); st.pop_back(); for (auto& r : m.mini[x]) for (auto& v : r.vars) if (!reach[v.first]) { reach[v.first] = 1; st.push_back(v.first); } } size_t minis = 0; bool multi = false;
  for (int i = 0; i < n; i++) { vector<MRule> rs; if (reach[i]) rs = m.comp(i); else rs = m.mini[i]; for (auto& r : rs) { if (r.size == 1) minis++; if (r.size > 2) multi = true; vector<int> tails; map<int, int> at; for (size_t v = 0; v < r.vars.size(); v++) { tails.push_back(r.vars[v].first); at[r.vars[v].second] = v; } vector<vector<int> > trg; for (auto& f : r.trg) { trg.push_back(vector<int>()); for (auto& w : f) trg.back().push_back(w.first ? w.second : -1 - at[w.second]); } want.insert(to_string(i) + ": " + key(tails, trg, r.frag, r.score)); } }
  RuleComposer c(m.order, m.lex); unique_ptr<HyperGraph> got(c.TransformGraph(g)); multiset<string> have; set<const HyperEdge*> listed(got->GetEdges().begin(), got->GetEdges().end()); CHECK_EQ(got->NumNodes(), n, "nodes");
  for (int i = 0; i < n; i++) for (const HyperEdge* e0 : got->GetNode(i)->GetEdges()) { const RuleEdge* e = static_cast<const RuleEdge*>(e0); CHECK(listed.count(e), "an edge of node " << i << " is not in the graph's list"); CHECK(e->GetHead() == got->GetNode(i), "head of an edge of node " << i); vector<int> tails, frag; for (const HyperNode* t : e->GetTails()) { CHECK(t == got->GetNode(t->GetId()), "tail of another graph"); tails.push_back(t->GetId()); } for (const HyperEdge* f : e->GetFragmentEdges()) frag.push_back(f->GetId()); vector<vector<int> > trg; for (auto& t : e->GetTrgData()) trg.push_back(t.words); have.insert(to_string(i) + ": " + key(tails, trg, frag, e->GetScore())); }
  CHECK_EQ(have.size(), listed.size(), "edges listed"); for (auto& k : have) if (want.count(k) != have.count(k)) FAIL(have.count(k) << " times instead of " << want.count(k) << ": " << k); for (auto& k : want) if (!have.count(k)) FAIL("missing " << k);
  s.nontrivial(want.size() >= minis + 2); if (multi) s.label("three or more rules"); if (m.lex) s.label("lexical span");
}
PBT_MAIN("h_compose")
