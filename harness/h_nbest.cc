// C01: k-best extraction versus brute-force enumeration of derivations.
#include "tgen.h"
using namespace tg;

static vector<vector<int> > words_of(const CfgDataVector& d) { vector<vector<int> > r; for (auto& x : d) r.push_back(vector<int>(x.words.begin(), x.words.end())); return r; }
static vector<vector<int> > ids(const vector<vector<int> >& w) { vector<vector<int> > r; for (auto& x : w) { vector<int> y; for (int i : x) y.push_back(Dict::WID(word(i))); r.push_back(y); } return r; }

static Forest gen(S& s, bool bound_all = false) {
  ForestOpt o; o.bound_all = bound_all; o.factors = s.coin(1, 3) ? 2 : 1; o.max_nodes = s.thorough ? 10 : 7; o.max_derivs = s.thorough ? 4000 : 800; o.max_edges = s.range(1, 4);
  Forest f = gen_forest(s, o); s.log << describe(f);
  return f;
}
static int gen_k(S& s, double c) { switch (s.below(5)) { case 0: return 1; case 1: return s.range(1, 5); case 2: return s.range(2, 30); case 3: return (int)c + (int)s.range(-1, 2) < 1 ? 1 : (int)c + (int)s.range(-1, 2); default: return 10000; } }

static void check_path(boost::shared_ptr<HyperPath>& p, const Forest& f, const map<vector<int>, const Deriv*>& all, const Deriv*& d) {
  vector<int> es; for (auto e : p->GetEdges()) es.push_back(e->GetId());
  auto it = all.find(es); CHECK(it != all.end(), "returned path " << pbt::show(es) << " is not a derivation of the forest");
  d = it->second;
  CHECK_NEAR(p->GetScore(), d->score, 1e-9, "score of path " << pbt::show(es));
  CHECK_EQ(words_of(p->GetTrgData()), ids(d->words), "translation of path " << pbt::show(es));
  CHECK_EQ(words_of(p->CalcTranslations()), ids(d->words), "recomputed translation");
  for (int k = 0; k < f.factors; k++) CHECK_EQ(p->CalcTranslation(k).words, ids(d->words)[k], "CalcTranslation of factor " << k);
  CHECK(eq_feats(from_feats(p->CalcFeatures()), d->feats), "features " << pbt::show(from_feats(p->CalcFeatures())) << " expected " << pbt::show(d->feats));
  CHECK(eq_feats(from_feats(p->GetFeatures()), d->feats), "features " << pbt::show(from_feats(p->GetFeatures())) << " expected " << pbt::show(d->feats));
}
static void classify(S& s, const Forest& f, const vector<Deriv>& all, int k) {
  map<int, int> uses; for (auto& e : f.edges) for (int t : e.tails) uses[t]++;
  bool shared = false; for (auto& p : uses) if (p.second > 1) shared = true;
  if (shared) s.label("shared nodes"); if (f.factors > 1) s.label("two factors");
  set<double> sc; for (auto& d : all) sc.insert(d.score); if (sc.size() < all.size()) s.label("tied scores");
  if (k > (int)all.size()) s.label("k beyond the number of derivations"); if (all.size() > 20) s.label("over 20 derivations");
  s.nontrivial(all.size() >= 3 && k >= 2);
}

PROP(kbest, 120000, 1500000) {
  Forest f = gen(s); Enumerator en(f); const vector<Deriv>& all = en.at(0); int k = gen_k(s, all.size()); s.log << "k=" << k << "\n"; s.sync();
  classify(s, f, all, k);
  GlobalVars::trg_factors = f.factors;
  std::unique_ptr<HyperGraph> g(build(f));
  NbestList nb = g->GetNbest(k, false);
  CHECK_EQ(nb.size(), min((size_t)k, all.size()), "length of the k-best list");
  map<vector<int>, const Deriv*> m; for (auto& d : all) m[d.edges] = &d;
  vector<double> best; for (auto& d : all) best.push_back(d.score); sort(best.rbegin(), best.rend());
  set<vector<int> > seen;
  for (size_t i = 0; i < nb.size(); i++) {
    const Deriv* d; check_path(nb[i], f, m, d);
    CHECK(seen.insert(d->edges).second, "derivation " << pbt::show(d->edges) << " returned twice");
    CHECK_NEAR(nb[i]->GetScore(), best[i], 1e-9, "score at rank " << i);
    if (i) CHECK(nb[i]->GetScore() <= nb[i - 1]->GetScore() + 1e-9, "scores increase at rank " << i);
  }
  // the graph is unchanged and a shorter list is a prefix of a longer one
  if (k > 1) { int k2 = s.range(1, k > 50 ? 50 : k); NbestList n2 = g->GetNbest(k2, false); CHECK_EQ(n2.size(), min((size_t)k2, nb.size()), "shorter list"); for (size_t i = 0; i < n2.size(); i++) CHECK_NEAR(n2[i]->GetScore(), best[i], 1e-9, "second extraction, rank " << i); }
  GlobalVars::trg_factors = 1;
}

PROP(unique, 120000, 1500000) {
  Forest f = gen(s); Enumerator en(f); const vector<Deriv>& all = en.at(0); int k = gen_k(s, all.size()); s.log << "k=" << k << "\n"; s.sync();
  GlobalVars::trg_factors = f.factors;
  std::unique_ptr<HyperGraph> g(build(f));
  map<vector<vector<int> >, double> bestof; for (auto& d : all) { auto it = bestof.find(d.words); if (it == bestof.end() || it->second < d.score) bestof[d.words] = d.score; }
  if (bestof.size() < all.size()) s.label("several derivations of one translation"); classify(s, f, all, k);
  NbestList nb = g->GetNbest(k, true);
  map<vector<int>, const Deriv*> m; for (auto& d : all) m[d.edges] = &d;
  vector<double> best; for (auto& p : bestof) best.push_back(p.second); sort(best.rbegin(), best.rend());
  set<vector<vector<int> > > seen;
  for (size_t i = 0; i < nb.size(); i++) {
    const Deriv* d; check_path(nb[i], f, m, d);
    CHECK(seen.insert(d->words).second, "translation " << pbt::show(d->words) << " returned twice");
    CHECK_NEAR(nb[i]->GetScore(), bestof[d->words], 1e-9, "best derivation of " << pbt::show(d->words));
    CHECK_NEAR(nb[i]->GetScore(), best[i], 1e-9, "score at rank " << i);
  }
  CHECK_EQ(nb.size(), min((size_t)k, bestof.size()), "length of the unique k-best list");
  GlobalVars::trg_factors = 1;
}

PROP(viterbi, 60000, 400000) {
  Forest f = gen(s, true); s.sync(); Enumerator en(f); std::unique_ptr<HyperGraph> g(build(f)); s.nontrivial(f.edges.size() > f.nodes.size());
  for (int round = 0; round < 2; round++) {
    int first = s.below(f.nodes.size());
    for (size_t q = 0; q < f.nodes.size(); q++) { int i = (first + q) % f.nodes.size(); double b = -1e300; for (auto& d : en.at(i)) b = max(b, d.score); CHECK_NEAR(g->GetNode(i)->CalcViterbiScore(), b, 1e-9, "Viterbi score of node " << i); CHECK_NEAR(g->GetNode(i)->GetViterbiScore(), b, 1e-9, "stored Viterbi score"); }
    // rescore and recompute
    for (size_t i = 0; i < f.edges.size(); i++) { f.edges[i].score = s.quarter(4); g->GetEdge(i)->SetScore(f.edges[i].score); }
    g->ResetViterbiScores(); fill(en.done.begin(), en.done.end(), false);
  }
  NbestList nb = g->GetNbest(1); double b = -1e300; for (auto& d : en.at(0)) b = max(b, d.score); CHECK_NEAR(nb[0]->GetScore(), b, 1e-9, "1-best after rescoring");
}
PBT_MAIN("h_nbest")
