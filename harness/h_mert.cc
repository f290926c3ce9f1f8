// C16: envelopes and line search of minimum error rate training against brute force.
#include "tgen.h"
#include <travatar/tuning-example-nbest.h>
#include <travatar/tuning-example-forest.h>
#include <travatar/tune-mert.h>
#include <travatar/tune-greedy-mert.h>
#include <travatar/eval-measure.h>
#include <travatar/eval-measure-bleu.h>
#include <travatar/eval-measure-zeroone.h>
#include <travatar/eval-measure-wer.h>
#include <travatar/weights.h>
using namespace tg; using pbt::show;

typedef map<int, double> MV;
struct Hyp { MV f; EvalStatsPtr st; };
struct Corpus { vector<vector<Hyp> > ex; vector<boost::shared_ptr<TuningExample> > te; int nf; bool avg; };
static double dot(const MV& a, const MV& b) { double r = 0; for (auto& x : a) { auto i = b.find(x.first); if (i != b.end()) r += x.second * i->second; } return r; }
static SparseMap sm(const MV& m) { SparseMap r; for (auto& x : m) r[x.first] = x.second; return r; }
static SparseVector sv(const MV& m) { SparseVector r; for (auto& x : m) r.Add(x.first, x.second); return r; }
static double val(S& s, bool irr) { return irr ? s.real(3) : s.quarter(3); }
static EvalStatsPtr gen_stats(S& s, int kind) {
  if (kind == 0) return EvalStatsPtr(new EvalStatsAverage(s.range(0, 4) / 4.0, 1));
  if (kind == 1) return EvalStatsPtr(new EvalStatsAverage(s.quarter(2), s.range(1, 3)));    // scores below zero as well
  int order = 2; vector<EvalStatsDataType> v; int sys = s.range(1, 6); for (int n = 0; n < order; n++) { int c = max(sys - n, 0); v.push_back(s.range(0, c)); v.push_back(c); v.push_back(max((int)s.range(1, 6) - n, 0)); } return EvalStatsPtr(new EvalStatsBleu(v, kind == 3 ? 1 : 0));
}
static Corpus gen_corpus(S& s, int kind, int maxn = 4, int maxk = 6) {
  for (int i = 0; i < 8; i++) Dict::WID(featname(i));
  Corpus c; c.nf = s.range(1, 4); c.avg = kind == 0; int n = s.range(1, maxn); bool irr = s.coin(1, 3);
  for (int i = 0; i < n; i++) { int k = s.range(1, maxk); vector<Hyp> hs; boost::shared_ptr<TuningExampleNbest> t(new TuningExampleNbest);
    for (int j = 0; j < k; j++) { Hyp h; if (j && s.coin(1, 8)) h.f = hs[s.below(j)].f; else for (int f = 1; f <= c.nf; f++) if (s.coin(2, 3)) { h.f[f] = val(s, irr); } h.st = gen_stats(s, kind); t->AddHypothesis(sv(h.f), h.st); hs.push_back(h); s.log << "example " << i << ": " << show(h.f) << " " << h.st->ConvertToString() << "\n"; }
    c.ex.push_back(hs); c.te.push_back(t); }
  return c;
}
static MV gen_w(S& s, int nf, bool irr) { MV w; for (int f = 1; f <= nf; f++) if (s.coin(3, 4)) { double v = val(s, irr); if (v) w[f] = v; } return w; }
static MV gen_dir(S& s, int nf) { MV d; if (s.coin()) d[s.range(1, nf)] = 1; else d = gen_w(s, nf, s.coin()); return d; }
static MV at(const MV& w, const MV& d, double x) { MV r = w; for (auto& v : d) r[v.first] += v.second * x; return r; }
// score of the corpus when each example takes its best hypothesis; false if some example has a near tie between different statistics
static bool corpus(const Corpus& c, const MV& w, double& score) {
  EvalStatsPtr sum; bool clear = true;
  for (auto& hs : c.ex) { int b = 0; double bs = -1e300; for (size_t j = 0; j < hs.size(); j++) { double v = dot(hs[j].f, w); if (v > bs) { bs = v; b = j; } }
    for (auto& h : hs) if (!h.st->Equals(*hs[b].st) && bs - dot(h.f, w) < 1e-9 * max(1.0, fabs(bs))) clear = false;
    if (!sum) sum = hs[b].st->Clone(); else sum->PlusEquals(*hs[b].st); }
  score = sum->ConvertToScore(); return clear;
}
// the steps at which some example may change its winner
static vector<double> breaks(const Corpus& c, const MV& w, const MV& d) {
  vector<double> r; for (auto& hs : c.ex) for (size_t i = 0; i < hs.size(); i++) for (size_t j = 0; j < i; j++) { double m = dot(hs[i].f, d) - dot(hs[j].f, d), b = dot(hs[j].f, w) - dot(hs[i].f, w); if (fabs(m) > 1e-12 && fabs(b / m) < 1e7) r.push_back(b / m); } sort(r.begin(), r.end()); return r;
}
static vector<double> probes(const vector<double>& br, double lo, double hi) {
  vector<double> pts(1, 0), e; for (double b : br) if (b > lo && b < hi) e.push_back(b); e.push_back(max(lo, (br.empty() ? 0 : br[0]) - 8)); e.push_back(min(hi, (br.empty() ? 0 : br.back()) + 8)); sort(e.begin(), e.end());
  for (size_t i = 0; i + 1 < e.size(); i++) if (e[i + 1] - e[i] > 1e-6) pts.push_back((e[i] + e[i + 1]) / 2); vector<double> r; for (double p : pts) if (p > lo && p < hi) r.push_back(p); return r;
}

PROP(nbest_hull, 40000, 500000) {
  Corpus c = gen_corpus(s, 0, 1, 8); bool irr = s.coin(1, 3); MV w = gen_w(s, c.nf, irr), d = gen_dir(s, c.nf); s.log << "weights " << show(w) << " direction " << show(d) << "\n"; s.sync();
  ConvexHull h = c.te[0]->CalculateConvexHull(sm(w), sm(d)); CHECK(!h.empty(), "no spans"); CHECK_EQ(h[0].first.first, -REAL_MAX, "start"); CHECK_EQ(h.back().first.second, REAL_MAX, "end");
  int wide = 0; for (size_t i = 0; i < h.size(); i++) {
    if (i) CHECK_EQ(h[i].first.first, h[i - 1].first.second, "spans are contiguous at " << i); double lo = h[i].first.first, hi = h[i].first.second; CHECK(lo <= hi, "span " << i << " runs backwards: " << lo << " " << hi);
    vector<double> xs; if (lo == -REAL_MAX && hi == REAL_MAX) { xs.push_back(0); xs.push_back(5); xs.push_back(-5); } else if (lo == -REAL_MAX) { xs.push_back(hi - 1e-3); xs.push_back(hi - 100); } else if (hi == REAL_MAX) { xs.push_back(lo + 1e-3); xs.push_back(lo + 100); } else if (hi - lo > 1e-6) { xs.push_back((lo + hi) / 2); xs.push_back(lo + (hi - lo) * 0.01); xs.push_back(hi - (hi - lo) * 0.01); }
    if (!xs.empty()) wide++; for (double x : xs) { MV v = at(w, d, x); double top = -1e300, mine = -1e300; for (auto& y : c.ex[0]) { double q = dot(y.f, v); top = max(top, q); if (y.st.get() == h[i].second.get()) mine = max(mine, q); } CHECK(mine > -1e300, "span " << i << " has statistics of no hypothesis"); CHECK(mine >= top - 1e-8 * max(1.0, fabs(top)), "span [" << lo << "," << hi << "] at " << x << " scores " << mine << " but the best is " << top); } }
  s.nontrivial(wide >= 3);
}

static Forest gen_hull_forest(S& s, int factors) {
  ForestOpt o; o.factors = factors; o.max_nodes = 5; o.max_edges = 3; o.max_tails = 2; o.max_derivs = 200; Forest f = gen_forest(s, o); f.words.clear(); for (int i = 0; i < 3; i++) f.words.push_back(string(1, 'u' + (char)i));
  for (auto& n : f.nodes) { n.lo = s.below(3); n.hi = n.lo + 1; }
  // sources of copied words: <unk> (index 4 here) stands for the word the node covers
  for (auto& e : f.edges) { bool var = !e.tails.empty(); for (auto& t : e.trg) { if (var && s.coin(4, 5)) for (size_t v = 0; v < e.tails.size(); v++) if (!count(t.begin(), t.end(), -1 - (int)v)) t.push_back(-1 - (int)v); if (!var && s.coin(1, 3)) t.assign(1, 99); } }
  return f;
}
static HyperGraph* build_hull(const Forest& f) { Forest b = f; HyperGraph* g = build(b); for (size_t i = 0; i < f.edges.size(); i++) { CfgDataVector td = g->GetEdge(i)->GetTrgData(); for (size_t k = 0; k < f.edges[i].trg.size(); k++) for (size_t j = 0; j < f.edges[i].trg[k].size(); j++) if (f.edges[i].trg[k][j] == 99) td[k].words[j] = Dict::WID("<unk>"); g->GetEdge(i)->SetTrgData(td); } return g; }
static void enumerate_hull(const Forest& f0, vector<pair<MV, vector<Sentence> > >& out) {
  Forest f = f0; for (auto& e : f.edges) for (auto& t : e.trg) for (auto& w : t) if (w == 99) w = 1000 + f.nodes[e.head].lo; Enumerator en(f);
  for (auto& d : en.at(0)) { MV m; for (auto& x : d.feats) m[Dict::WID(x.first)] += x.second; vector<Sentence> t; for (auto& w : d.words) { Sentence y; for (int i : w) y.push_back(i >= 1000 ? Dict::WID(f.words[i - 1000]) : Dict::WID(word(i))); t.push_back(y); } out.push_back(make_pair(m, t)); }
}
PROP(forest_hull, 24000, 300000) {
  int factors = s.coin(1, 4) ? 2 : 1; GlobalVars::trg_factors = factors; int nfor = s.coin(1, 3) ? 2 : 1; string fac = factors == 2 ? "factor=1" : "factor=0"; EvalMeasureBleu bleu("order=2,smooth=1," + fac); EvalMeasureZeroOne zero; EvalMeasureWer wer(fac); EvalMeasure* ev = s.coin() ? (EvalMeasure*)&bleu : factors == 1 && s.coin() ? (EvalMeasure*)&zero : &wer; double mult = s.coin() ? 1 : s.range(1, 4) / 4.0;
  vector<pair<MV, vector<Sentence> > > all; vector<Sentence> refs(factors); for (auto& r : refs) { int l = s.range(1, 4); for (int i = 0; i < l; i++) r.push_back(Dict::WID(word(s.below(4)))); }
  boost::shared_ptr<TuningExampleForest> t(new TuningExampleForest(ev, refs, 0, mult)); for (int i = 0; i < nfor; i++) { Forest f = gen_hull_forest(s, factors); s.log << describe(f); for (size_t k = 0; k < f.nodes.size(); k++) s.log << " node " << k << " at " << f.nodes[k].lo << "\n"; enumerate_hull(f, all); t->AddHypothesis(boost::shared_ptr<HyperGraph>(build_hull(f))); }
  MV w, d; for (int i = 0; i < 4; i++) { int id = Dict::WID(featname(i)); if (s.coin(2, 3)) w[id] = s.quarter(3); } if (s.coin()) d[Dict::WID(featname(s.below(4)))] = 1; else for (int i = 0; i < 4; i++) if (s.coin()) d[Dict::WID(featname(i))] = s.quarter(2); if (s.coin(1, 4)) t->FindActiveFeatures(); s.log << "weights " << show(w) << " direction " << show(d) << " multiplier " << mult << "\n"; s.sync();
  set<WordId> cw, want; t->CountWeights(cw); for (auto& x : all) (void)x; ConvexHull h = t->CalculateConvexHull(sm(w), sm(d)); CHECK(!h.empty(), "no spans"); CHECK(h[0].first.first <= -1e300, "the first span starts at " << h[0].first.first); CHECK(h.back().first.second >= 1e300, "the last span ends at " << h.back().first.second);
  vector<EvalStatsPtr> st; for (auto& x : all) { st.push_back(ev->CalculateStats(refs[factors - 1], x.second[factors - 1])); st.back()->TimesEquals(mult); }
  for (size_t i = 0; i < h.size(); i++) { if (i) { CHECK(fabs(h[i].first.first - h[i - 1].first.second) <= 1e-12 * max(1.0, fabs(h[i].first.first)), "spans " << i - 1 << " and " << i << " leave a gap: " << h[i - 1].first.second << " " << h[i].first.first); } double lo = h[i].first.first, hi = h[i].first.second; vector<double> xs;
    bool left = lo <= -1e300, right = hi >= 1e300; if (left && right) { xs.push_back(0.37); xs.push_back(5); xs.push_back(-5); } else if (left) { xs.push_back(hi - 1e-3); xs.push_back(hi - 100); } else if (right) { xs.push_back(lo + 1e-3); xs.push_back(lo + 100); } else if (hi - lo > 1e-6) { xs.push_back((lo + hi) / 2); xs.push_back(lo + (hi - lo) * 0.01); xs.push_back(hi - (hi - lo) * 0.01); }
    for (double x : xs) { MV v = at(w, d, x); double top = -1e300, mine = -1e300; for (size_t j = 0; j < all.size(); j++) { double q = dot(all[j].first, v); top = max(top, q); if (st[j]->Equals(*h[i].second)) mine = max(mine, q); } CHECK(mine > -1e300, "span " << i << " has the statistics of no derivation: " << h[i].second->ConvertToString()); CHECK(mine >= top - 1e-7 * max(1.0, fabs(top)), "span [" << lo << "," << hi << "] at " << x << ": best derivation with those statistics scores " << mine << " but the best is " << top); } }
  GlobalVars::trg_factors = 1; s.nontrivial(h.size() >= 3); if (nfor == 2) s.label("two forests"); if (factors == 2) s.label("two factors");
}

PROP(line_search, 40000, 500000) {
  int kind = s.below(4); Corpus c = gen_corpus(s, kind); bool irr = s.coin(1, 3); MV w = gen_w(s, c.nf, irr), d = gen_dir(s, c.nf); pair<double, double> r(-REAL_MAX, REAL_MAX); if (s.coin()) { r.first = -s.range(0, 8) / 2.0; r.second = s.range(0, 8) / 2.0; if (r.first == r.second) r.second += 0.5; }
  s.log << "weights " << show(w) << " direction " << show(d) << " range " << r.first << " " << r.second << "\n"; s.sync(); LineSearchResult res = TuneMert::LineSearch(sm(w), sm(d), c.te, RealSpan(r.first, r.second));
  CHECK(res.pos >= r.first && res.pos <= r.second, "step " << res.pos << " is outside [" << r.first << "," << r.second << "]"); double after = res.after->ConvertToScore(), before = res.before->ConvertToScore(), v; CHECK_NEAR(res.gain, after - before, 1e-9, "reported gain");
  if (corpus(c, at(w, d, res.pos), v)) CHECK_NEAR(after, v, 1e-7, "score at step " << res.pos << " when evaluated again"); if (corpus(c, w, v)) CHECK_NEAR(before, v, 1e-7, "score at step 0 when evaluated again");
  vector<double> br = breaks(c, w, d); set<double> seen; for (double x : probes(br, r.first, r.second)) if (corpus(c, at(w, d, x), v)) { CHECK(after >= v - 1e-7, "step " << res.pos << " gives " << after << " but step " << x << " gives " << v); seen.insert(v); }
  s.nontrivial(seen.size() >= 3); if (r.first > -1e300) s.label("limited range"); s.label(kind < 2 ? "average" : "bleu");
}

PROP(mert_run, 6000, 80000) {
  int kind = s.below(4); Corpus c = gen_corpus(s, kind); MV w = gen_w(s, c.nf, s.coin(1, 3)); double v0, v1; bool clear0 = corpus(c, w, v0); srand(s.below(1000)); TuneMert t; t.SetExamples(c.te); string dirs = s.coin() ? "coord" : s.coin() ? "coord rand=2" : "rand=3"; if (s.coin()) t.SetDirections(dirs); else dirs = "coord"; s.log << "weights " << show(w) << " directions " << dirs << " score " << v0 << "\n"; s.sync();
  SparseMap m = sm(w); t.Init(m); double rep = t.RunTuning(m); MV fin; double norm = 0; for (auto& x : m) { fin[x.first] = x.second; norm += fabs(x.second); } s.log << "tuned " << show(fin) << " " << rep << "\n"; if (norm > 0) CHECK_NEAR(norm, 1, 1e-6, "sum of the weights' sizes");
  bool clear1 = corpus(c, fin, v1); if (clear1) { CHECK_NEAR(rep, v1, 1e-6, "reported score when evaluated again"); if (clear0) CHECK(v1 >= v0 - 1e-7, "tuning went from " << v0 << " to " << v1);
    if (dirs[0] == 'c') for (int f = 1; f <= c.nf; f++) { bool used = false; for (auto& hs : c.ex) for (auto& h : hs) if (h.f.count(f) && h.f[f] != 0) used = true; if (!used) continue; MV d; d[f] = 1; vector<double> br = breaks(c, fin, d); for (double x : probes(br, -1e300, 1e300)) { double v; if (corpus(c, at(fin, d, x), v)) CHECK(v <= rep + 1e-5, "stopped at " << rep << " although moving feature " << f << " by " << x << " gives " << v); } } }
  s.nontrivial(clear0 && clear1 && v1 > v0 + 1e-6); if (v1 < 0) s.label("negative score");
}

// one step of the greedy search is the best single-feature line search within the feature's range
PROP(greedy, 6000, 80000) {
  Corpus c = gen_corpus(s, 0); MV w = gen_w(s, c.nf, s.coin(1, 3)); TuneGreedyMert t; t.SetExamples(c.te); t.SetThreads(s.coin(1, 4) ? 2 : 0); map<int, pair<double, double> > rg; if (s.coin(1, 3)) { rg[-1] = make_pair(-s.range(2, 6), s.range(2, 6)); t.SetRange(-1, rg[-1].first, rg[-1].second); } for (int f = 1; f <= c.nf; f++) if (s.coin(1, 4)) { rg[f] = make_pair(-s.range(1, 8) / 2.0, s.range(1, 8) / 2.0); t.SetRange(f, rg[f].first, rg[f].second); }
  auto range = [&](int f) { auto i = rg.find(f); if (i == rg.end()) i = rg.find(-1); return i == rg.end() ? make_pair(-1e300, 1e300) : i->second; }; for (auto& x : w) { auto r = range(x.first); x.second = min(max(x.second, r.first), r.second); } double v0, v1; bool clear0 = corpus(c, w, v0); if (!clear0) throw pbt::Discard(); s.log << "weights " << show(w) << " ranges " << show(rg) << " score " << v0 << "\n"; s.sync();
  double best = v0; for (int f = 1; f <= c.nf; f++) { MV d; d[f] = 1; double cur = w.count(f) ? w[f] : 0; auto r = range(f); vector<double> br = breaks(c, w, d); for (double x : probes(br, r.first - cur, r.second - cur)) { double v; if (corpus(c, at(w, d, x), v)) best = max(best, v); } }
  bool full = s.coin(); SparseMap m = sm(w); double rep; streambuf* old = cerr.rdbuf(); ostringstream sink; cerr.rdbuf(sink.rdbuf()); try { rep = full ? t.RunTuning(m) : t.TuneOnce(m).gain + v0; } catch (...) { cerr.rdbuf(old); throw; } cerr.rdbuf(old); MV fin; for (auto& x : m) fin[x.first] = x.second; for (auto& x : fin) { auto r = range(x.first); CHECK(x.second >= r.first - 1e-9 && x.second <= r.second + 1e-9, "weight " << x.first << " = " << x.second << " left its range"); }
  if (corpus(c, fin, v1)) { CHECK_NEAR(rep, v1, 1e-7, "reported score when evaluated again"); CHECK(v1 >= best - 1e-7, "reached " << v1 << " but one step can reach " << best); if (!full) CHECK(v1 <= best + 1e-7 || best == v0, "one step reached " << v1 << ", more than " << best); } s.nontrivial(best > v0 + 1e-7);
}
PBT_MAIN("h_mert")
