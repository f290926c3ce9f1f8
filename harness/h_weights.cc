// C18: online weight learners against their update rules, step by step.
#include "pbt.h"
#include "tgen.h"
#include <travatar/weights-perceptron.h>
#include <travatar/weights-average-perceptron.h>
#include <travatar/weights-adagrad.h>
#include <travatar/weights-delayed-perceptron.h>
#include <travatar/weights-online-pro.h>
#include <travatar/eval-measure-zeroone.h>
#include <travatar/eval-measure-bleu.h>
#include <travatar/hyper-graph.h>
#include <memory>
using namespace std; using namespace travatar; using namespace pbt;

typedef map<int, double> MV;
enum Kind { PERC, AVG, ADA, DELAY };
static const char* NAME[] = {"perceptron", "averaged", "adagrad", "delayed"};
struct Learner {
  Kind kind; double rate, l1, margin; map<int, pair<double, double> > range; MV w, sum, var, delta; int steps; int applied;
  pair<double, double> rng(int k) const { auto i = range.find(k); if (i == range.end()) i = range.find(-1); return i == range.end() ? make_pair(-1e300, 1e300) : i->second; }
  double clamp(int k, double v) const { auto r = rng(k); return min(max(v, r.first), r.second); }
  void shrink() { for (auto& x : w) { double v = x.second; v = v > 0 ? max(v - l1, 0.0) : min(v + l1, 0.0); x.second = clamp(x.first, v); } }
  void update(const MV& o, double om, double oe, const MV& s, double sm, double se) {
    MV d = o; for (auto& x : s) d[x.first] -= x.second; steps++;
    if (kind == DELAY) { if (sm >= om) { applied++; for (auto& x : d) delta[x.first] += x.second; } return; }
    bool go = kind == PERC ? sm >= om : kind == ADA ? sm + (oe - se) * margin >= om : se < oe;
    if (kind == ADA) shrink();                            // the step counts before the update
    if (go) { applied++; for (auto& x : d) if (x.second != 0) {
        double step = x.second; if (kind == PERC) step *= rate; if (kind == ADA) { var[x.first] += step * step; step = rate * step / sqrt(var[x.first]); }
        w[x.first] = clamp(x.first, w[x.first] + step); } }
    if (kind == PERC) shrink();
    if (kind == AVG) for (auto& x : w) sum[x.first] += x.second;
  }
  double fin(int k) const { auto get = [&](const MV& m) { auto i = m.find(k); return i == m.end() ? 0.0 : i->second; }; if (kind == DELAY) return get(delta); if (kind != AVG || steps == 0) return get(w); return get(sum) / steps; }
};
static SparseVector sv(const MV& m) { SparseVector r; for (auto& x : m) r.Add(x.first, x.second); return r; }
static MV randvec(S& s, int keys) { MV m; int n = s.range(0, 4); for (int i = 0; i < n; i++) { int k = s.range(1, keys); m[k] = s.coin(1, 4) ? s.real(1) : s.quarter(3); } return m; }
static double at(const SparseMap& m, int k) { auto i = m.find(k); return i == m.end() ? 0 : i->second; }

struct Setup { Learner m; unique_ptr<WeightsPerceptron> p; unique_ptr<WeightsDelayedPerceptron> dl; Weights* w; int keys; };
static void setup(S& s, Setup& x, int kinds) {
  x.keys = s.range(2, 6); Learner& m = x.m; m.kind = (Kind)s.range(0, kinds - 1); m.steps = m.applied = 0; m.rate = 1; m.l1 = 0; m.margin = 0;
  if (s.coin()) m.range[-1] = make_pair(-s.range(1, 6) / 2.0, s.range(1, 6) / 2.0);
  for (int k = 1; k <= x.keys; k++) if (s.coin(1, 4)) m.range[k] = make_pair(s.coin(1, 3) ? 0.0 : -s.range(1, 4) / 2.0, s.coin(1, 3) ? 0.0 : s.range(1, 4) / 2.0);
  SparseMap init; for (int k = 1; k <= x.keys; k++) if (s.coin()) { double v = m.clamp(k, s.coin(1, 4) ? s.real(1) : s.quarter(3)); init[k] = v; m.w[k] = v; }
  bool plain = s.coin();   // default construction, weights set one by one
  if (m.kind == DELAY) { x.dl.reset(new WeightsDelayedPerceptron(init)); x.w = x.dl.get(); }
  else { if (plain) x.p.reset(m.kind == PERC ? new WeightsPerceptron : m.kind == AVG ? (WeightsPerceptron*)new WeightsAveragePerceptron : (WeightsPerceptron*)new WeightsAdagrad); else x.p.reset(m.kind == PERC ? new WeightsPerceptron(init) : m.kind == AVG ? (WeightsPerceptron*)new WeightsAveragePerceptron(init) : (WeightsPerceptron*)new WeightsAdagrad(init)); x.w = x.p.get();
    if (plain) for (auto& v : init) { x.w->SetCurrent(v.first, v.second); }
    if (s.coin()) { m.rate = s.range(1, 8) / 4.0; } if (m.kind == AVG) m.rate = 1; if (m.rate != 1) x.p->SetLearningRate(m.rate);
    if (m.kind != AVG && s.coin()) { m.l1 = s.range(1, 8) / 32.0; } if (m.l1) x.p->SetL1Coeff(m.l1);
    if (s.coin()) { m.margin = s.range(1, 8) / 4.0; } if (m.margin) x.p->SetMarginScale(m.margin); }
  for (auto& r : m.range) x.w->SetRange(r.first, r.second.first, r.second.second);
  s.label(NAME[m.kind]); s.log << NAME[m.kind] << " keys " << x.keys << " rate " << m.rate << " l1 " << m.l1 << " margin " << m.margin << " ranges " << show(m.range) << " initial " << show(m.w) << "\n";
}
static void finals(S& s, Setup& x) {
  MV got; for (auto& v : x.w->GetFinal()) got[v.first] = v.second;
  for (int k = 1; k <= x.keys; k++) CHECK_NEAR(got.count(k) ? got[k] : 0, x.m.fin(k), 1e-8, "final weight of " << k << " after " << x.m.steps << " steps");
  for (auto& v : got) CHECK(v.first >= 1 && v.first <= x.keys, "final weights hold feature " << v.first);
}

PROP(updates, 24000, 400000) {
  Setup x; setup(s, x, 4); int n = s.size(1, 16), reads = 0;
  for (int i = 0; i < n; i++) {
    int op = s.range(0, 5);
    if (op <= 2) { MV o = randvec(s, x.keys), y = randvec(s, x.keys); double om = s.quarter(2), ym = s.quarter(2), oe = s.range(0, 4) / 4.0, ye = s.range(0, 4) / 4.0;
      s.log << "update " << show(o) << " " << om << " " << oe << " against " << show(y) << " " << ym << " " << ye << "\n"; s.sync(); x.w->Update(sv(o), om, oe, sv(y), ym, ye); x.m.update(o, om, oe, y, ym, ye); }
    else if (op == 3 && x.m.kind != DELAY) {                                // pick the pair from a list of hypotheses
      int h = s.range(1, 5); vector<MV> f; vector<pair<Real, Real> > sc; vector<SparseVector> fs; for (int j = 0; j < h; j++) { f.push_back(randvec(s, x.keys)); fs.push_back(sv(f.back())); sc.push_back(make_pair(s.quarter(2), s.range(0, 4) / 4.0)); s.log << (j ? " ; " : "hypotheses ") << show(f[j]) << " " << sc[j].first << " " << sc[j].second; }
      s.log << "\n"; s.sync(); vector<SparseVector*> fp; for (auto& v : fs) fp.push_back(&v);
      double best = -1e300, top = -1e300; for (auto& p : sc) { best = max(best, p.second); top = max(top, p.first - x.m.margin * p.second); } int o = 0, y = 0; while (sc[o].second != best) o++; while (sc[y].first - x.m.margin * sc[y].second != top) y++;
      x.w->AdjustNbest(sc, fp); x.m.update(f[o], sc[o].first, sc[o].second, f[y], sc[y].first, sc[y].second); }
    else if (op == 4) { int k = s.range(1, x.keys); s.log << "read " << k << "\n"; CHECK_NEAR(x.w->GetCurrent(k), x.m.w.count(k) ? x.m.w[k] : 0, 1e-9, "current weight of " << k); reads++; }
    else { s.log << "final\n"; s.sync(); finals(s, x); }
  }
  s.log << "final\n"; s.sync(); for (int k = 1; k <= x.keys; k++) if (s.coin()) CHECK_NEAR(x.w->GetCurrent(k), x.m.w.count(k) ? x.m.w[k] : 0, 1e-9, "current weight of " << k);
  finals(s, x); for (int k = 1; k <= x.keys; k++) CHECK_NEAR(x.w->GetCurrent(k), x.m.w.count(k) ? x.m.w[k] : 0, 1e-9, "current weight of " << k << " after reading the final ones");
  if (x.m.kind != DELAY && x.m.l1 == 0) { const Weights& c = *x.w; for (auto& v : c.GetCurrent()) CHECK_NEAR(v.second, x.m.w[v.first], 1e-9, "weight " << v.first << " of the map"); for (auto& v : x.m.w) CHECK_NEAR(at(c.GetCurrent(), v.first), v.second, 1e-9, "weight " << v.first << " of the map"); }
  finals(s, x); s.nontrivial(x.m.applied >= 2); if (x.m.l1 > 0) s.label("regularised");
}

// sampled pairs: with one clearly largest difference in quality, the 50 most different samples are all that pair
PROP(pro, 300, 4000) {
  Setup x; setup(s, x, 3); int h = s.range(2, 4); vector<MV> f; vector<SparseVector> fs; vector<pair<Real, Real> > sc; vector<double> q;
  bool same = s.coin(1, 4); for (int j = 0; j < h; j++) q.push_back(same ? 0.5 + s.range(0, 3) / 100.0 : j == 0 ? 0 : j == 1 ? 1 : s.range(1, 9) / 10.0); for (int j = h - 1; j > 0; j--) swap(q[j], q[s.below(j + 1)]);
  for (int j = 0; j < h; j++) { f.push_back(randvec(s, x.keys)); fs.push_back(sv(f[j])); sc.push_back(make_pair(s.quarter(2), q[j])); s.log << show(f[j]) << " model " << sc[j].first << " quality " << q[j] << "\n"; } vector<SparseVector*> fp; for (auto& v : fs) fp.push_back(&v); s.sync();
  boost::shared_ptr<Weights> inner; if (x.p) { inner.reset(x.p.release()); x.w = inner.get(); } WeightsOnlinePro pro(inner); double alpha = same ? s.range(1, 3) / 2.0 : s.coin() ? 1 : 3; if (alpha != 1) pro.SetAlphaScale(alpha); pro.AdjustNbest(sc, fp);
  if (!same) { int o = max_element(q.begin(), q.end()) - q.begin(), y = min_element(q.begin(), q.end()) - q.begin(); for (int i = 0; i < 50; i++) x.m.update(f[o], sc[o].first, 1, f[y], sc[y].first, 0); }   // pairs of similar quality are not used
  for (int k = 1; k <= x.keys; k++) CHECK_NEAR(inner->GetCurrent(k), x.m.w.count(k) ? x.m.w[k] : 0, 1e-7, "current weight of " << k);
  if (x.m.l1 == 0) for (int k = 1; k <= x.keys; k++) CHECK_NEAR(at(pro.GetCurrent(), k), x.m.w.count(k) ? x.m.w[k] : 0, 1e-7, "weight " << k << " of the map");
  MV got; for (auto& v : pro.GetFinal()) got[v.first] = v.second; for (int k = 1; k <= x.keys; k++) CHECK_NEAR(got.count(k) ? got[k] : 0, x.m.fin(k), 1e-7, "final weight of " << k);
  SparseMap set; set[1] = 0.25; pro.SetCurrent(set); CHECK_NEAR(at(pro.GetCurrent(), 1), 0.25, 0, "weight set through the sampler"); s.nontrivial(x.m.applied > 0 || same);
}

// one update from an n-best list of translations: the best by the measure against the first
PROP(nbest, 6000, 60000) {
  Setup x; setup(s, x, 4); EvalMeasureZeroOne zero; EvalMeasureBleu bleu(2, 1); const EvalMeasure& ev = s.coin() ? (const EvalMeasure&)zero : bleu; int rounds = s.range(1, 3), nt = 0;
  for (int r = 0; r < rounds; r++) {
    int factor = 0; vector<Sentence> refs; int nr = s.range(1, 3); for (int i = 0; i < nr; i++) { Sentence w; int l = s.range(1, 4); for (int j = 0; j < l; j++) w.push_back(s.range(1, 3)); refs.push_back(w); } Sentence src; src.push_back(9);
    HyperGraph g; HyperNode* root = new HyperNode(1, -1, make_pair(0, 1)); g.AddNode(root); NbestList nb; vector<MV> fv; vector<double> q, ms; int h = s.range(1, 5); vector<HyperEdge*> es;
    for (int i = 0; i < h; i++) { Sentence t; if (s.coin(1, 3)) t = s.pick(refs); else { int l = s.range(1, 4); for (int j = 0; j < l; j++) t.push_back(s.range(1, 3)); }
      HyperEdge* e = new HyperEdge(root); CfgDataVector td(1); td[0].words = t; e->SetTrgData(td); fv.push_back(randvec(s, x.keys)); e->SetFeatures(sv(fv[i])); ms.push_back(s.quarter(3)); g.AddEdge(e); root->AddEdge(e); es.push_back(e);
      double b = -1e300; for (auto& rf : refs) b = max(b, (double)ev.CalculateStats(rf, t)->ConvertToScore()); q.push_back(b); s.log << show(t) << " " << show(fv[i]) << " model " << ms[i] << " quality " << b << "\n"; }
    bool path = s.coin(); vector<double> sorted = ms; sort(sorted.rbegin(), sorted.rend()); vector<int> ord(h); for (int i = 0; i < h; i++) ord[i] = i; stable_sort(ord.begin(), ord.end(), [&](int a, int b) { return ms[a] > ms[b]; });
    if (path) { for (int i = 0; i < h; i++) es[i]->SetScore(ms[i]); nb = g.GetNbest(h); for (int i = 0; i < h; i++) { ord[i] = -1; for (int j = 0; j < h; j++) if (nb[i]->GetEdges()[0] == es[j]) ord[i] = j; } }
    else { if (s.coin()) for (int i = h - 1; i > 0; i--) swap(ord[i], ord[s.below(i + 1)]);   // the first is taken as the system's, whatever its score
      for (int i = 0; i < h; i++) { boost::shared_ptr<HyperPath> p(new HyperPath); p->AddEdge(es[ord[i]]); p->SetScore(ms[ord[i]]); p->SetTrgData(p->CalcTranslations()); nb.push_back(p); } }
    s.sync(); int o = 0; for (int i = 1; i < h; i++) if (q[ord[i]] > q[ord[o]]) o = i; x.w->Adjust(src, refs, ev, nb); x.m.update(fv[ord[o]], ms[ord[o]], q[ord[o]], fv[ord[0]], ms[ord[0]], q[ord[0]]); if (o) nt++;
  }
  for (int k = 1; k <= x.keys; k++) CHECK_NEAR(x.w->GetCurrent(k), x.m.w.count(k) ? x.m.w[k] : 0, 1e-9, "current weight of " << k); finals(s, x); s.nontrivial(nt > 0);
}
// the sampler's step from an n-best list of translations, and model scores through the interface
PROP(pro_nbest, 300, 4000) {
  Setup x; setup(s, x, 3); EvalMeasureZeroOne ev; vector<Sentence> refs; int nr = s.range(1, 2); for (int i = 0; i < nr; i++) { Sentence w; int l = s.range(1, 3); for (int j = 0; j < l; j++) w.push_back(s.range(1, 3)); refs.push_back(w); } Sentence src = s.coin() ? refs[0] : Sentence(1, 9);
  HyperGraph g; HyperNode* root = new HyperNode(1, -1, make_pair(0, 1)); g.AddNode(root); NbestList nb; vector<MV> fv; vector<double> q, ms; int h = s.range(2, 4);
  for (int i = 0; i < h; i++) { Sentence t; if (s.coin(1, 3)) t = s.pick(refs); else { int l = s.range(1, 3); for (int j = 0; j < l; j++) t.push_back(s.range(1, 4)); } HyperEdge* e = new HyperEdge(root); CfgDataVector td(1); td[0].words = t; e->SetTrgData(td); fv.push_back(randvec(s, x.keys)); e->SetFeatures(sv(fv[i])); ms.push_back(s.quarter(3)); e->SetScore(ms[i]); g.AddEdge(e); root->AddEdge(e); boost::shared_ptr<HyperPath> p(new HyperPath); p->AddEdge(e); p->SetScore(ms[i]); p->SetTrgData(p->CalcTranslations()); nb.push_back(p);
    q.push_back(find(refs.begin(), refs.end(), t) != refs.end()); s.log << show(t) << " " << show(fv[i]) << " model " << ms[i] << " correct " << q[i] << "\n"; }
  s.sync(); boost::shared_ptr<Weights> inner; if (x.p) { inner.reset(x.p.release()); x.w = inner.get(); } WeightsOnlinePro pro(inner); pro.Adjust(src, refs, ev, nb); int o = -1, y = -1; for (int i = h - 1; i >= 0; i--) if (q[i]) o = i; else y = i;
  if (o >= 0 && y >= 0) { for (int i = 0; i < 50; i++) x.m.update(fv[o], ms[o], 1, fv[y], ms[y], 0); s.nontrivial(x.m.applied); }
  for (int k = 1; k <= x.keys; k++) CHECK_NEAR(inner->GetCurrent(k), x.m.w.count(k) ? x.m.w[k] : 0, 1e-7, "current weight of " << k);
  if (x.m.l1 == 0) { double want = 0; for (auto& v : fv[0]) want += v.second * x.m.w[v.first]; const Weights& c = pro; CHECK_NEAR(c * sv(fv[0]), want, 1e-7, "score under the sampler's weights"); Weights plain(pro.GetCurrent()); CHECK_NEAR(plain * sv(fv[0]), want, 1e-7, "score under plain weights"); for (int k = 1; k <= x.keys + 1; k++) CHECK_NEAR(plain.GetCurrent(k), x.m.w.count(k) ? x.m.w[k] : 0, 1e-7, "plain weight of " << k); }
}
PBT_MAIN("h_weights")
