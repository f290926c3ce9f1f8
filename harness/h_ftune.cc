// C21: batch-tune on forests; also built with ThreadSanitizer.
#include "tgen.h"
#include <travatar/batch-tune-runner.h>
#include <travatar/config-batch-tune.h>
#include <travatar/eval-measure-loader.h>
#include <travatar/eval-measure.h>
#include <travatar/tree-io.h>
#include <fstream>
#include <functional>
#include <iomanip>
using namespace tg;

static string tune(const vector<string>& args) {
  vector<const char*> av; av.push_back("batch-tune"); for (auto& a : args) av.push_back(a.c_str());
  ConfigBatchTune c; ostringstream o, e; streambuf *old = cout.rdbuf(o.rdbuf()), *olde = cerr.rdbuf(e.rdbuf());
  try { c.LoadConfig(av.size(), (char**)&av[0], false); BatchTuneRunner r; r.Run(c); } catch (...) { cout.rdbuf(old); cerr.rdbuf(olde); throw; }
  cout.rdbuf(old); cerr.rdbuf(olde); return o.str();
}
static void spew(const string& p, const string& t) { ofstream f(p.c_str(), ios::binary); f << t; }
static Feat parse(const string& t) { Feat r; istringstream is(t); string w; while (is >> w) { size_t p = w.rfind('='); CHECK(p != string::npos, "bad weights: " << t); CHECK(!r.count(w.substr(0, p)), "weight twice: " << t); r[w.substr(0, p)] = atof(w.c_str() + p + 1); } return r; }
static double dot(const Feat& a, const Feat& b) { double r = 0; for (auto& p : a) { auto it = b.find(p.first); if (it != b.end()) r += p.second * it->second; } return r; }
struct Cand { Feat f; EvalStatsPtr st; };
// corpus score of the best derivations, over ties
static void scores(const vector<vector<Cand> >& v, const Feat& w, double& lo, double& hi) {
  vector<vector<EvalStatsPtr> > c; for (auto& e : v) { double top = -1e300; for (auto& h : e) top = max(top, dot(w, h.f)); c.push_back(vector<EvalStatsPtr>()); set<string> seen; for (auto& h : e) if (dot(w, h.f) >= top - 1e-6 * max(1.0, fabs(top)) && seen.insert(h.st->ConvertToString() + " " + h.st->WriteStats()).second) c.back().push_back(h.st); }
  lo = 1e300; hi = -1e300; int left = 3000; function<void(size_t, EvalStatsPtr)> go = [&](size_t i, EvalStatsPtr t) { if (left <= 0) return; if (i == c.size()) { left--; double x = t ? t->ConvertToScore() : 0; lo = min(lo, x); hi = max(hi, x); return; } for (auto& x : c[i]) go(i + 1, t ? t->Plus(*x) : x->Clone()); }; go(0, EvalStatsPtr()); if (left <= 0) { lo = -1e300; hi = 1e300; }
}

#ifdef __SANITIZE_THREAD__
PROP(batch_forest, 60, 2000) {
#else
PROP(batch_forest, 300, 12000) {
#endif
  int n = s.range(1, 4), runs = s.coin(1, 3) ? 2 : 1; string d = pbt::scratch(), refs, meas = s.pick(vector<string>{"bleu:smooth=1", "bleu:smooth=1", "bleu", "ribes", "wer:reverse=true", "zeroone", "interp:0.5|bleu:smooth=1|0.5|ribes"});
  boost::shared_ptr<EvalMeasure> m(EvalMeasureLoader::CreateMeasureFromString(meas)); vector<vector<Cand> > all(n); vector<Sentence> ref(n); vector<string> file(runs); JSONTreeIO io;
  for (int i = 0; i < n; i++) { int l = s.range(1, 4); for (int k = 0; k < l; k++) { ref[i].push_back(Dict::WID(word(s.below(4)))); } refs += Dict::PrintWords(ref[i]) + "\n"; }
  for (int r = 0; r < runs; r++) for (int i = 0; i < n; i++) { ForestOpt o; o.max_nodes = 6; o.max_edges = 4; o.max_tails = 2; o.max_derivs = 150; Forest f = gen_forest(s, o); f.words = {"u", "v", "w"}; s.log << describe(f); boost::shared_ptr<HyperGraph> g(build(f)); ostringstream t; io.WriteTree(*g, t); file[r] += t.str() + "\n";
    Enumerator en(f); for (auto& x : en.at(0)) { Sentence w; for (int k : x.words[0]) w.push_back(Dict::WID(word(k))); Cand c; c.f = x.feats; c.st = m->CalculateStats(ref[i], w); c.st->TimesEquals(1.0 / n); all[i].push_back(c); } }
  string files; for (int r = 0; r < runs; r++) { string p = d + "/f" + to_string(r); spew(p, file[r]); files += (r ? "," : "") + p; } spew(d + "/r", refs);
  Feat w; for (int i = 0; i < 4; i++) if (s.coin(3, 4)) { double v = s.quarter(3); if (v) w[featname(i)] = v; } if (w.empty()) w["p"] = 1; string wt; for (auto& p : w) { ostringstream o; o << setprecision(17) << p.second; wt += p.first + "=" + o.str() + "\n"; } spew(d + "/w", wt);
  string alg = s.coin(1, 5) ? "greedy-mert" : "mert";
#ifdef __SANITIZE_THREAD__
  alg = "mert";   // greedy-mert's threads look at the best gain so far without a lock, and write to the redirected error stream
#endif
  vector<string> base = {"-eval", meas, "-weight_in", d + "/w", "-rand_seed", to_string(s.range(1, 1000)), "-restarts", to_string(s.range(0, 4)), "-algorithm", alg, "-forest", files};
  for (auto& a : base) s.log << a << " "; s.log << "\nweights\n" << wt << "references\n" << refs; s.sync();
  int th = s.range(2, 4); auto go = [&](int t) { vector<string> a = base; if (t != 1) { a.push_back("-threads"); a.push_back(to_string(t)); } a.push_back(d + "/r"); try { return tune(a); } catch (const exception& e) { FAIL("batch-tune with " << t << " threads: " << e.what()); } return string(); };
  string one = go(1); Feat res = parse(one); s.log << "result " << one; for (auto& p : res) CHECK(std::isfinite(p.second), "weight " << p.first << " is " << p.second);
  double a, b, c, e; scores(all, w, a, b); scores(all, res, c, e); CHECK(e >= a - 1e-4, "the tuned weights " << one << " score at most " << e << ", the initial ones at least " << a);
  if (alg == "mert") for (int k = 0; k < 2; k++) { string more = go(th); CHECK_EQ(more, one, "weights with " << th << " threads"); }
  else { Feat g = parse(go(th)); scores(all, g, c, e); CHECK(e >= a - 1e-4, "the weights tuned with " << th << " threads score at most " << e << ", the initial ones at least " << a); }
  if (runs == 2) s.label("two runs"); s.label(alg); s.nontrivial(n > 1 && e > b + 1e-9);
}
PBT_MAIN("h_ftune")
