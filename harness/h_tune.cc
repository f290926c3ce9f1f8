// C17: expectation-based tuning objectives, their gradients and the optimiser built on them.
#include "tgen.h"
#include <travatar/tuning-example-nbest.h>
#include <travatar/tune-lbfgs.h>
#include <travatar/gradient-xeval.h>
#include <travatar/eval-measure.h>
#include <travatar/eval-measure-bleu.h>
#include <travatar/eval-measure-ter.h>
#include <travatar/eval-measure-ribes.h>
#include <travatar/eval-measure-zeroone.h>
#include <travatar/eval-measure-wer.h>
#include <travatar/weights.h>
using namespace tg; using pbt::show;

enum Kind { BLEU, AVG, RIBES, TER, TERINV, ZEROONE, NKINDS };
struct Hyp { map<int, double> f; vector<double> v; };
struct Setup {
  int nf; Kind kind; int order; double smooth, prec; bool arith, brev; vector<vector<Hyp> > ex; vector<boost::shared_ptr<TuningExample> > te; vector<int> ids; double l2, ent; bool autos; int scale;
};
static EvalStatsPtr mk(const Setup& c, const vector<double>& v) {
  switch (c.kind) {
    case BLEU: return EvalStatsPtr(new EvalStatsBleu(v, c.smooth, c.prec, c.arith ? ARITHMETIC : GEOMETRIC, false, c.brev)); case AVG: return EvalStatsPtr(new EvalStatsAverage(v[0], v[1])); case RIBES: return EvalStatsPtr(new EvalStatsRibes(v[0], v[1]));
    case ZEROONE: return EvalStatsPtr(new EvalStatsZeroOne(v[0], v[1])); default: return EvalStatsPtr(new EvalStatsTer(v[0], v[1], c.kind == TERINV)); } }
static Setup gen(S& s, bool plain = false) {
  Setup c; c.kind = s.coin() ? BLEU : (Kind)s.below(NKINDS); c.order = s.range(1, 4); c.smooth = s.coin() ? 0 : s.range(1, 4) / 2.0; c.prec = 1; c.arith = false; c.brev = true; if (!plain && s.coin(1, 3)) { c.prec = s.range(0, 4) / 4.0; c.arith = s.coin(); c.brev = s.coin(); }
  c.nf = s.range(1, 4); for (int f = 0; f < c.nf; f++) c.ids.push_back(Dict::WID(featname(f))); c.scale = Dict::WID("__SCALE__"); c.l2 = s.coin() ? 0 : s.range(1, 8) / 40.0; c.ent = s.coin(2, 3) ? 0 : s.range(-4, 4) / 10.0; c.autos = s.coin(1, 3); int n = s.range(1, 4);
  for (int i = 0; i < n; i++) { int k = s.coin(1, 10) && i ? 0 : s.range(1, 5); vector<Hyp> hs; boost::shared_ptr<TuningExampleNbest> t(new TuningExampleNbest); int ref = s.range(c.order, c.order + 6); s.log << "example " << i << "\n"; bool irr = s.coin();
    for (int j = 0; j < k; j++) { Hyp h; for (int f = 0; f < c.nf; f++) if (s.coin(2, 3)) { double v = irr ? s.real(2) : s.quarter(2); if (v) h.f[f] = v; }
      if (c.kind == BLEU) { int sys = s.range(c.order, c.order + 6); int m = min(sys, ref); for (int o = 0; o < c.order; o++) { m = s.range(o ? 0 : 1, max(o ? 0 : 1, min(m, min(sys, ref) - o))); h.v.push_back(m); h.v.push_back(sys - o); h.v.push_back(ref - o); } }
      else { double d = c.kind == AVG || c.kind == RIBES || c.kind == ZEROONE ? 1 : ref; h.v.push_back(c.kind == ZEROONE ? s.below(2) : c.kind == TER || c.kind == TERINV ? s.range(0, ref) : s.range(c.kind == AVG ? -4 : 0, 4) / 4.0); h.v.push_back(d); }
      SparseVector sv; for (auto& x : h.f) sv.Add(c.ids[x.first], x.second); t->AddHypothesis(sv, mk(c, h.v)); s.log << "  " << show(h.f) << " " << show(h.v) << "\n"; hs.push_back(h); }
    c.ex.push_back(hs); c.te.push_back(t); }
  s.log << "kind " << c.kind << " order " << c.order << " smooth " << c.smooth << " prec " << c.prec << " arith " << c.arith << " brevity " << c.brev << " l2 " << c.l2 << " ent " << c.ent << " auto_scale " << c.autos << "\n"; return c;
}
// the objective from its definition; x holds the features, then the scale. far: not near a kink of the measure
static double objective(const Setup& c, const vector<double>& x, bool* far = NULL) {
  double g = x[c.nf] == 0 ? 1 : x[c.nf]; vector<double> e; double entropy = 0; bool any = false;
  for (auto& hs : c.ex) { if (hs.empty()) continue; any = true; vector<double> sc; double top = -1e300, z = 0; for (auto& h : hs) { double v = 0; for (auto& f : h.f) v += f.second * x[f.first]; sc.push_back(v * g); top = max(top, v * g); } for (double v : sc) z += exp(v - top);
    for (size_t j = 0; j < hs.size(); j++) { double p = exp(sc[j] - top) / z; if (p > 0) entropy -= p * log(p) / log(2.0); if (e.empty()) e.assign(hs[j].v.size(), 0); for (size_t q = 0; q < e.size(); q++) e[q] += p * hs[j].v[q]; } }
  if (!any) return 0;
  double r; if (far) *far = true;
  if (c.kind == BLEU) { double m = c.arith ? 0 : 1; for (int o = 0; o < c.order; o++) { double sm = o ? c.smooth : 0, mt = e[3 * o] + sm, den = c.prec * (e[3 * o + 1] + sm) + (1 - c.prec) * (e[3 * o + 2] + sm), f = den > 0 && e[3 * o + 1] + sm > 0 ? mt / den : 0; if (c.arith) m += f / c.order; else m *= pow(f, 1.0 / c.order); if (far && !c.arith && mt < 1e-3) *far = false; } double R = e[2] / e[1]; r = m; if (c.brev && R > 1) r *= exp(1 - R); if (far && c.brev && fabs(R - 1) < 0.01) *far = false; }
  else { r = e[1] ? e[0] / e[1] : 0; if (c.kind == TERINV) r = 1 - r; }
  double n2 = 0; for (int f = 0; f < c.nf; f++) n2 += x[f] * x[f]; return r - c.l2 * n2 * g * g + c.ent * entropy;
}
static vector<double> gen_x(S& s, const Setup& c, bool scale) { vector<double> x; for (int f = 0; f < c.nf; f++) x.push_back(s.coin(1, 5) ? 0 : s.coin() ? s.real(2) : s.quarter(2)); x.push_back(scale ? (s.coin(1, 4) ? -1 : 1) * s.range(1, 12) / 4.0 : 1); return x; }
static SparseMap sparse(const Setup& c, const vector<double>& x) { SparseMap m; for (int f = 0; f < c.nf; f++) if (x[f]) m[c.ids[f]] = x[f]; m[c.scale] = x[c.nf]; return m; }
static double nd(const Setup& c, vector<double> x, int i, double h) { vector<double> a = x, b = x; a[i] += h; b[i] -= h; return (objective(c, a) - objective(c, b)) / (2 * h); }

PROP(gradient, 40000, 500000) {
  Setup c = gen(s); vector<double> x = gen_x(s, c, s.coin()); s.log << "at " << show(x) << "\n"; s.sync(); bool far; double want = objective(c, x, &far); for (auto& hs : c.ex) if (c.kind == BLEU && c.arith) for (auto& h : hs) (void)h;
  GradientXeval g; g.SetL2Coefficient(c.l2); g.SetEntCoefficient(c.ent); g.SetAutoScale(c.autos); bool neg = s.coin(); if (neg) g.SetMult(-1); SparseMap all; for (int f = 0; f < c.nf; f++) all[c.ids[f]] = 1; g.Init(all, c.te); double m = neg ? -1 : 1;
  SparseMap d; double got = g.CalcSparseGradient(sparse(c, x), d); CHECK_NEAR(got, m * want, 1e-7, "objective"); if (!far) return; bool any = false; for (auto& hs : c.ex) if (!hs.empty()) any = true; if (!any) return;
  int moving = 0; for (int i = 0; i <= c.nf; i++) { if (i == c.nf && !c.autos) continue; int id = i == c.nf ? c.scale : c.ids[i]; double a = nd(c, x, i, 1e-4), b = nd(c, x, i, 2e-4); if (fabs(a - b) > 1e-5) continue; bool has = d.find(id) != d.end(); double v = has ? d[id] : 0; if (fabs(a) > 1e-3) moving++; CHECK(fabs(v - m * a) <= 2e-5 * max(1.0, fabs(a)) + 1e-5, "derivative in " << (i == c.nf ? "the scale" : featname(i)) << " is reported as " << v << " but is " << m * a); }
  // a second evaluation into a used buffer gives the same derivative
  vector<Real> dx; g.DensifyWeights(sparse(c, x), dx); vector<Real> g1(dx.size(), 0), g2(dx.size(), 7.5); double v1 = g.CalcGradient(dx.size(), &dx[0], &g1[0]), v2 = g.CalcGradient(dx.size(), &dx[0], &g2[0]); CHECK_EQ(v1, v2, "objective computed twice"); for (size_t i = 0; i < g1.size(); i++) CHECK_EQ(g1[i], g2[i], "derivative " << i << " depends on what the buffer held");
  s.nontrivial(moving >= 2); s.label(c.kind == BLEU ? c.prec != 1 || c.arith || !c.brev ? "bleu variants" : c.smooth ? "bleu smoothed" : "bleu" : c.kind == TERINV || c.kind == TER ? "ter" : "average"); if (c.ent) s.label("entropy"); if (c.autos) s.label("scale");
}

PROP(unsupported, 400, 2000) {
  vector<boost::shared_ptr<TuningExample> > te; boost::shared_ptr<TuningExampleNbest> t(new TuningExampleNbest); bool wer = s.coin(); for (int i = 0; i < 2; i++) { SparseVector v; v.Add(Dict::WID("fa"), i); vector<EvalStatsDataType> st; for (int o = 0; o < 3; o++) st.push_back(s.range(1, 4)); st[0] = min(st[0], st[1]); t->AddHypothesis(v, wer ? EvalStatsPtr(new EvalStatsWer(s.range(0, 3), 3)) : EvalStatsPtr(new EvalStatsBleu(st, 0, 1, GEOMETRIC, true))); } te.push_back(t);
  GradientXeval g; SparseMap w, d; w[Dict::WID("fa")] = 1; g.Init(w, te); bool threw = false; try { g.CalcSparseGradient(w, d); } catch (std::runtime_error& e) { threw = true; } CHECK(threw, "a measure without a gradient was accepted"); s.nontrivial(true);
}

PROP(lbfgs, 15000, 200000) {
  Setup c = gen(s); vector<double> x = gen_x(s, c, false); if (s.coin(1, 4)) x.assign(c.nf + 1, 0); x[c.nf] = 1; s.log << "from " << show(x) << "\n"; s.sync(); bool any = false; for (auto& hs : c.ex) if (!hs.empty()) any = true; if (!any) throw pbt::Discard();
  GradientXeval* g = new GradientXeval; g->SetL2Coefficient(c.l2); g->SetEntCoefficient(c.ent); c.autos = false; TuneLbfgs t(g); t.SetExamples(c.te); int it = s.coin() ? 100 : s.range(1, 8); t.SetIters(it); SparseMap w = sparse(c, x); if (s.coin()) w.erase(c.scale); t.Init(w); bool far; double v0 = objective(c, x, &far); double rep = t.RunTuning(w);
  vector<double> y; for (int f = 0; f < c.nf; f++) { auto i = w.find(c.ids[f]); y.push_back(i == w.end() ? 0 : i->second); } auto i = w.find(c.scale); y.push_back(i == w.end() ? 1 : i->second); CHECK_EQ(y[c.nf], 1, "scale"); for (auto& v : w) CHECK(v.first == c.scale || count(c.ids.begin(), c.ids.end(), v.first), "unknown weight " << v.first); s.log << "tuned " << show(y) << " " << rep << " from " << v0 << "\n";
  double v1 = objective(c, y); CHECK_NEAR(rep, v1, 1e-7, "reported objective at the returned weights"); CHECK(v1 >= v0 - 1e-9, "the objective fell from " << v0 << " to " << v1);
  double slope = 0; bool steep = far; for (int f = 0; f < c.nf; f++) { double a = nd(c, x, f, 1e-4); if (fabs(a - nd(c, x, f, 2e-4)) > 1e-5) steep = false; slope += a * a; } if (steep && slope > 1e-3 && slope < 1e3) CHECK(v1 > v0 + 1e-6, "slope " << slope << " at the start, yet the objective stays at " << v1);
  s.nontrivial(v1 > v0 + 1e-3); if (it == 100) s.label("to convergence");
}

// with enough iterations the optimum is where the derivative vanishes, when regularisation bounds it
PROP(converged, 15000, 200000) {
  Setup c = gen(s, true); if (c.kind == BLEU || c.ent < 0) throw pbt::Discard(); c.l2 = max(c.l2, 0.05); s.sync(); bool any = false; for (auto& hs : c.ex) if (!hs.empty()) any = true; if (!any) throw pbt::Discard();
  GradientXeval* g = new GradientXeval; g->SetL2Coefficient(c.l2); g->SetEntCoefficient(c.ent); TuneLbfgs t(g); t.SetExamples(c.te); t.SetIters(1000); SparseMap w; t.Init(w); t.RunTuning(w); vector<double> y; for (int f = 0; f < c.nf; f++) { auto i = w.find(c.ids[f]); y.push_back(i == w.end() ? 0 : i->second); } y.push_back(1); s.log << "tuned " << show(y) << "\n";
  double slope = 0, mov = 0; for (int f = 0; f < c.nf; f++) { slope = max(slope, fabs(nd(c, y, f, 1e-4))); mov = max(mov, fabs(y[f])); } CHECK(slope <= 1e-3, "stopped where the objective still has slope " << slope); s.nontrivial(mov > 0.05);
}

PROP(argmax, 10000, 100000) {
  Setup c = gen(s); vector<double> x = gen_x(s, c, false); s.log << "at " << show(x) << "\n"; s.sync(); SparseMap m = sparse(c, x); m.erase(c.scale); Weights w(m); bool nt = false;
  for (size_t i = 0; i < c.ex.size(); i++) { if (c.ex[i].empty()) continue; double top = -1e300, second = -1e300; for (auto& h : c.ex[i]) { double v = 0; for (auto& f : h.f) v += f.second * x[f.first]; if (v > top) { second = top; top = v; } else second = max(second, v); } const ExamplePair& p = c.te[i]->CalculateModelHypothesis(w); double v = 0; bool mine = false; for (auto& h : c.ex[i]) { SparseVector sv; for (auto& f : h.f) sv.Add(c.ids[f.first], f.second); if (sv == p.first && mk(c, h.v)->Equals(*p.second)) { mine = true; v = 0; for (auto& f : h.f) v += f.second * x[f.first]; } }
    CHECK(mine, "the chosen hypothesis is not in the list"); CHECK(v >= top - 1e-9, "chose a hypothesis with score " << v << " while another has " << top); if (top > second + 1e-6) nt = true; }
  s.nontrivial(nt && c.ex.size() >= 2);
}
PBT_MAIN("h_tune")
