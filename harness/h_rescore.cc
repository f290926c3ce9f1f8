// C21: the rescorer, mt-segmenter, train-caser and batch-tune programs.
#include "pbt.h"
#include <travatar/batch-tune-runner.h>
#include <travatar/config-batch-tune.h>
#include <travatar/config-mt-segmenter-runner.h>
#include <travatar/config-rescorer-runner.h>
#include <travatar/config-train-caser-runner.h>
#include <travatar/dict.h>
#include <travatar/eval-measure-loader.h>
#include <travatar/eval-measure.h>
#include <travatar/mt-segmenter-runner.h>
#include <travatar/rescorer-runner.h>
#include <travatar/sparse-map.h>
#include <travatar/global-debug.h>
#include <travatar/train-caser-runner.h>
#include <functional>
#include <iomanip>
#include <memory>
using namespace std;
using namespace pbt;
using namespace travatar;

template <class R, class C> static string run(const char* name, const vector<string>& args, const string& in = "") {
  vector<const char*> av; av.push_back(name); for (auto& a : args) av.push_back(a.c_str());
  C c; ostringstream o; istringstream i(in); streambuf *old = cout.rdbuf(o.rdbuf()), *oldi = cin.rdbuf(i.rdbuf()); cin.clear();
  try { c.LoadConfig(av.size(), (char**)&av[0], false); R r; r.Run(c); } catch (...) { cout.rdbuf(old); cin.rdbuf(oldi); throw; }
  cout.rdbuf(old); cin.rdbuf(oldi); return o.str();
}
static vector<string> lines(const string& t) { vector<string> r; istringstream is(t); string l; while (getline(is, l)) r.push_back(l); return r; }
static string slurp(const string& p) { ifstream f(p.c_str(), ios::binary); ostringstream o; o << f.rdbuf(); return o.str(); }
static vector<string> split(const string& l, const string& sep) { vector<string> r; size_t p = 0; for (;;) { size_t q = l.find(sep, p); r.push_back(l.substr(p, q == string::npos ? q : q - p)); if (q == string::npos) return r; p = q + sep.size(); } }
static const char* W[] = {"the", "a", "Dog", "x0", "\xe7\x8a\xac", "1.5", "(", "b"};
static string join(const vector<string>& v, const char* sep = " ") { string r; for (size_t i = 0; i < v.size(); i++) r += (i ? sep : "") + v[i]; return r; }
static string num(double d) { ostringstream o; o << setprecision(17) << d; return o.str(); }
static vector<string> words(S& s, int lo, int hi, int al) { vector<string> r; int n = s.range(lo, hi); for (int i = 0; i < n; i++) r.push_back(W[s.below(al)]); return r; }
typedef map<string, double> Feats;
static Feats feats(S& s, int nf) { static const char* F[] = {"lm", "p=q", "w", "unk"}; Feats r; for (int i = 0; i < nf; i++) if (s.coin(3, 4)) { double v = s.coin(1, 3) ? s.range(-3, 3) : s.range(-1500, 1500) / 256.0; if (v) r[F[i]] = v; } return r; }
static string text(const Feats& f) { vector<string> v; for (auto& p : f) v.push_back(p.first + "=" + num(p.second)); return join(v); }
static Feats parse(const string& t) { Feats r; istringstream is(t); string w; while (is >> w) { size_t p = w.rfind('='); if (p == string::npos) FAIL("bad feature '" << w << "'"); if (r.count(w.substr(0, p))) FAIL("feature twice: " << t); r[w.substr(0, p)] = atof(w.c_str() + p + 1); } return r; }
static double dot(const Feats& a, const Feats& b) { double r = 0; for (auto& p : a) { auto it = b.find(p.first); if (it != b.end()) r += p.second * it->second; } return r; }
static bool feq(const Feats& a, const Feats& b) { if (a.size() != b.size()) return false; for (auto& p : a) { auto it = b.find(p.first); if (it == b.end() || fabs(it->second - p.second) > 1e-5 * max(1.0, fabs(p.second))) return false; } return true; }
static double gain(EvalMeasure& m, const string& ref, const string& hyp) { return m.CalculateStats(Dict::ParseWords(ref), Dict::ParseWords(hyp))->ConvertToScore(); }

struct Hyp { string sent; Feats f; double score, exp; };
static const char* MEAS[] = {"bleu:smooth=1", "bleu", "ribes", "wer:reverse=true", "zeroone", "ter:inverse=true", "interp:0.5|bleu:smooth=1|0.5|ribes"};

PROP(rescorer, 4000, 100000) {
  int nf = s.range(1, 4), n = s.range(1, 4); vector<vector<Hyp> > L; vector<int> ids; int id = s.coin(1, 5) ? s.range(1, 4) : 0; bool tree = false; (void)tree;
  for (int i = 0; i < n; i++) { L.push_back(vector<Hyp>()); ids.push_back(id); id += s.coin(1, 6) ? s.range(2, 3) : 1; int k = s.size(1, 8); int al = s.range(1, 8);
    for (int j = 0; j < k; j++) { Hyp h; h.sent = join(words(s, s.coin(1, 8) ? 0 : 1, 5, al)); if (j && s.coin(1, 6)) h.sent = L[i][s.below(j)].sent; h.f = feats(s, nf); if (j && s.coin(1, 8)) h.f = L[i][s.below(j)].f; h.score = s.coin(1, 5) ? s.range(-4, 4) : s.range(-9999, 9999) / 512.0; L[i].push_back(h); } }
  bool wt = s.coin(2, 3), mbr = s.coin(2, 3), in = s.coin(1, 4); string d = scratch(), file, args_; vector<string> args; Feats w;
  for (int i = 0; i < n; i++) for (auto& h : L[i]) file += to_string(ids[i]) + " ||| " + h.sent + " ||| " + num(h.score) + " ||| " + text(h.f) + "\n";
  if (!in) { spew(d + "/n", file); args = {"-nbest", d + "/n"}; }
  if (wt) { w = feats(s, 4); string t; for (auto& p : w) t += p.first + "=" + num(p.second) + (s.coin(1, 4) ? " " : "\n"); spew(d + "/w", t); args.push_back("-weight_in"); args.push_back(d + "/w"); }
  string meas; double scale = 1; int cnt = 0;
  if (mbr) { meas = MEAS[s.below(7)]; args.push_back("-mbr_eval"); args.push_back(meas); if (s.coin()) { scale = s.range(0, 12) / 4.0; args.push_back("-mbr_scale"); args.push_back(num(scale)); } if (s.coin(1, 3)) { cnt = s.range(0, 4); args.push_back("-mbr_hyp_cnt"); args.push_back(to_string(cnt)); } }
  bool out = s.coin(5, 6); if (out) { args.push_back("-nbest_out"); args.push_back(d + "/o"); unlink((d + "/o").c_str()); }
  s.log << join(args) << "\nweights " << text(w) << "\n" << file; s.sync();
  string got; try { got = run<RescorerRunner, ConfigRescorer>("rescorer", args, in ? file : ""); } catch (const exception& e) { FAIL("rescorer: " << e.what()); }
  vector<string> best = lines(got), nb = lines(out ? slurp(d + "/o") : ""); CHECK_EQ((int)best.size(), n, "translations printed\n" << got); size_t at = 0;
  unique_ptr<EvalMeasure> m(mbr ? EvalMeasureLoader::CreateMeasureFromString(meas) : 0); bool moved = false;
  for (int i = 0; i < n; i++) {
    vector<Hyp> v = L[i]; if (wt) for (auto& h : v) h.score = dot(w, h.f);
    stable_sort(v.begin(), v.end(), [](const Hyp& a, const Hyp& b) { return a.score > b.score; }); bool unsure = false;
    if (mbr && cnt && (int)v.size() > cnt) { double cut = v[cnt - 1].score; if (v[cnt].score > cut - 1e-9) unsure = true; v.resize(cnt); s.label("cut before MBR"); }
    if (unsure) { s.label("tie at the cut"); at = out ? at + v.size() : 0; continue; }
    if (mbr) { map<string, double> p; double mx = v[0].score, sum = 0; for (auto& h : v) { double e = exp((h.score - mx) * scale); sum += e; p[h.sent] += e; } for (auto& x : p) x.second /= sum;
      for (auto& h : v) { h.exp = 0; for (auto& x : p) h.exp += x.second * gain(*m, x.first, h.sent); } } else for (auto& h : v) h.exp = h.score;
    double top = -1e300; string was = L[i][0].sent; for (auto& h : v) top = max(top, h.exp); bool ok = false; for (auto& h : v) if (h.sent == best[i] && h.exp >= top - 1e-9 * max(1.0, fabs(top))) ok = true;
    CHECK(ok, "list " << ids[i] << ": '" << best[i] << "' is printed as the best; the best score is " << top); moved |= best[i] != was;
    if (!out) continue;
    vector<bool> used(v.size()); double last = 1e300; for (size_t k = 0; k < v.size(); k++) { CHECK(at < nb.size(), "n-best output ends early"); vector<string> c = split(nb[at], " ||| "); if (c.size() == 3 && nb[at].size() > 4 && nb[at].substr(nb[at].size() - 4) == " |||") c[2].resize(c[2].size() - 4), c.push_back(""); CHECK_EQ((int)c.size(), 4, "columns of '" << nb[at] << "'"); CHECK_EQ(c[0], to_string(ids[i]), "number in '" << nb[at] << "'"); if (!k) CHECK_EQ(c[1], best[i], "first entry of list " << ids[i]);
      double sc = atof(c[2].c_str()); CHECK(sc <= last + 1e-9, "list " << ids[i] << " is not in descending order at '" << nb[at] << "'"); last = sc; Feats f = parse(c[3]); bool found = false; for (size_t j = 0; j < v.size() && !found; j++) if (!used[j] && v[j].sent == c[1] && feq(v[j].f, f) && fabs(v[j].exp - sc) <= 1e-5 * max(1.0, fabs(sc))) used[j] = found = true;
      if (!found) { ostringstream o; for (size_t j = 0; j < v.size(); j++) o << "\n  " << v[j].sent << " ||| " << v[j].exp << " ||| " << text(v[j].f); FAIL("'" << nb[at] << "' is no hypothesis of list " << ids[i] << " with its score:" << o.str()); } at++; }
  }
  if (out) CHECK_EQ(at, nb.size(), "n-best lines printed"); s.nontrivial(moved && n > 1);
}

PROP(rescorer_refuses, 300, 4000) {
  string d = scratch(); static const char* BAD[] = {"", "0 ||| a ||| 1\n", "0 ||| a ||| x ||| f=1\n", "zero ||| a ||| 1 ||| f=1\n", "0 ||| a ||| 1 ||| f\n", "0 ||| a ||| 1 ||| f=1 ||| (A a)\n", "\n"};
  int k = s.below(9); vector<string> args; string in = k < 7 ? BAD[k] : "0 ||| a ||| 1 ||| f=1\n"; if (k == 7) args = {"-weight_in", d + "/none"}; if (k == 8) args = {"-mbr_eval", "bluh"}; if (k < 7 && s.coin()) in = "0 ||| b ||| 2 ||| f=1\n" + (k ? in : "x\n"); s.log << "case " << k << "\n" << in; s.sync();
  bool ok = false; try { run<RescorerRunner, ConfigRescorer>("rescorer", args, in); ok = true; } catch (const exception&) { } CHECK(!ok, "accepted"); s.nontrivial(k > 0);
}

// ---- mt-segmenter
struct Seg { vector<int> cuts; EvalStatsPtr st; };   // cuts: the ends of the segments from here on
PROP(segmenter, 3000, 60000) {
  int n = s.range(1, 4), al = s.range(2, 5); vector<vector<string> > ref; vector<string> sys; for (int i = 0; i < n; i++) { ref.push_back(words(s, s.coin(1, 10) ? 0 : 1, 4, al)); for (auto& x : ref[i]) if (s.coin(5, 6)) sys.push_back(s.coin(1, 5) ? W[s.below(al)] : x); if (s.coin(1, 5)) sys.push_back(W[s.below(al)]); if (s.coin(1, 30)) for (int k = 0; k < 6; k++) sys.push_back(W[s.below(al)]); }
  double slack = s.coin() ? 2.0 : s.pick(vector<double>{1.0, 1.5, 3.0, 0.5}); string meas = s.coin(1, 3) ? "bleu:smooth=1" : MEAS[s.below(7)], d = scratch(), r, h; for (auto& x : ref) r += join(x) + "\n"; for (size_t i = 0; i < sys.size(); i++) h += sys[i] + (i + 1 == sys.size() || s.coin(1, 4) ? "\n" : " ");
  spew(d + "/r", r); spew(d + "/s", h); vector<string> args = {"-ref", d + "/r", "-eval", meas, "-slack", num(slack), d + "/s"}; s.log << meas << " slack " << slack << "\n" << r << "--\n" << h; s.sync();
  int N = sys.size(); vector<int> ml; for (auto& x : ref) ml.push_back((int)(slack * x.size())); int most = 0; for (int x : ml) most += x; unique_ptr<EvalMeasure> m(EvalMeasureLoader::CreateMeasureFromString(meas));
  string got; bool refused = false; try { got = run<MTSegmenterRunner, ConfigMTSegmenterRunner>("mt-segmenter", args); } catch (const exception& e) { refused = true; }
  if (most < N) { CHECK(refused, N << " words cannot be cut into segments of at most " << most << " words together, but this is printed:\n" << got); s.label("impossible"); return; } CHECK(!refused, "refused though possible");
  vector<string> out = lines(got); CHECK_EQ((int)out.size(), n, "segments printed:\n" << got); vector<int> cuts; int at = 0; for (int i = 0; i < n; i++) { Sentence w = Dict::ParseWords(out[i]); CHECK((int)w.size() <= ml[i], "segment " << i << " has more than " << ml[i] << " words: " << out[i]); for (int x : w) { CHECK(at < N && Dict::WSym(x) == sys[at], "word " << at << " of the output is '" << Dict::WSym(x) << "':\n" << got); at++; } cuts.push_back(at); } CHECK_EQ(at, N, "words printed:\n" << got);
  auto seg = [&](int i, int a, int b) { vector<string> x(sys.begin() + a, sys.begin() + b); return m->CalculateStats(Dict::ParseWords(join(ref[i])), Dict::ParseWords(join(x))); };
  // what a search from the back may end with, whatever it does about ties
  bool full = true; map<pair<int, int>, vector<Seg> > memo; function<const vector<Seg>&(int, int)> go = [&](int i, int a) -> const vector<Seg>& {
    pair<int, int> key(i, a); auto it = memo.find(key); if (it != memo.end()) return it->second; vector<Seg> all; vector<double> val; double bar = -1e300;
    for (int b = a; b <= min(N, a + ml[i]); b++) { if (i == n - 1 && b != N) continue; double worst = 1e300; auto add = [&](Seg x) { double v = x.st->ConvertToScore(); worst = min(worst, v); all.push_back(x); val.push_back(v); };
      if (i == n - 1) { Seg x; x.cuts = {b}; x.st = seg(i, a, b); add(x); } else { const vector<Seg>& nx = go(i + 1, b); if (nx.empty()) continue; EvalStatsPtr me = seg(i, a, b); for (auto& y : nx) { Seg x; x.cuts = {b}; x.cuts.insert(x.cuts.end(), y.cuts.begin(), y.cuts.end()); x.st = me->Plus(*y.st); add(x); } } bar = max(bar, worst); }
    vector<Seg> keep; for (size_t k = 0; k < all.size(); k++) if (val[k] >= bar - 1e-7 && keep.size() < 400) keep.push_back(all[k]); if (keep.size() == 400) full = false; return memo[key] = keep; };
  const vector<Seg>& poss = go(0, 0); CHECK(!poss.empty(), "no segmentation in the model"); double mine = 0; { EvalStatsPtr t; for (int i = 0; i < n; i++) { EvalStatsPtr x = seg(i, i ? cuts[i - 1] : 0, cuts[i]); if (t) t->PlusEquals(*x); else t = x; } mine = t->ConvertToScore(); }
  if (full) { bool ok = false; for (auto& p : poss) if (p.cuts == cuts) ok = true; CHECK(ok, "segmentation with score " << mine << " is not what a search from the end finds (best " << poss[0].st->ConvertToScore() << "):\n" << got); }
  if (meas[0] != 'b' && meas[0] != 'i') { double best = -1e300; vector<int> c(n); function<void(int, int, EvalStatsPtr)> all = [&](int i, int a, EvalStatsPtr t) { if (i == n) { if (a == N) best = max(best, (double)t->ConvertToScore()); return; } for (int b = a; b <= min(N, a + ml[i]); b++) { EvalStatsPtr x = seg(i, a, b); all(i + 1, b, t ? t->Plus(*x) : x); } }; all(0, 0, EvalStatsPtr()); CHECK_NEAR(mine, best, 1e-7, "score of the segmentation, and of the best one, under " << meas << ":\n" << got); s.label("global optimum"); }
  set<vector<int> > dist; for (auto& p : poss) dist.insert(p.cuts); s.nontrivial(n > 1 && N > 3 && dist.size() < 5); if (dist.size() == 1) s.label("single optimum");
}
PROP(segmenter_refuses, 200, 2000) {
  string d = scratch(); spew(d + "/r", "a b\n"); spew(d + "/s", "a b\n"); spew(d + "/e", ""); int k = s.below(4); vector<string> a; if (k == 0) a = {"-ref", d + "/none", d + "/s"}; if (k == 1) a = {"-ref", d + "/r", d + "/none"}; if (k == 2) a = {"-ref", d + "/r", "-eval", "bluh", d + "/s"}; if (k == 3) a = {"-ref", d + "/e", d + "/s"}; s.log << join(a); s.sync();
  string got; bool ok = false; try { got = run<MTSegmenterRunner, ConfigMTSegmenterRunner>("mt-segmenter", a); ok = true; } catch (const exception&) { } CHECK(!ok, "accepted: " << got); s.nontrivial(true);
}

// ---- train-caser
PROP(caser, 4000, 60000) {
  struct L { const char *lo, *up; }; static const L B[] = {{"a", "A"}, {"dog", "Dog"}, {"dog", "DOG"}, {"usa", "USA"}, {"\xc3\xa9t\xc3\xa9", "\xc3\x89t\xc3\xa9"}, {"\xd0\xb4\xd0\xb0", "\xd0\x94\xd0\xb0"}, {"x1", "X1"}, {"iphone", "iPhone"}};
  static const set<string> E = {".", ":", "!", "?"}, D = {"(", "[", "\"", "'", "`", "``"}; map<string, string> low; map<string, map<string, int> > cnt; string in; int n = s.size(0, 6);
  for (int i = 0; i < n; i++) { int k = s.size(0, 8); bool start = true; for (int j = 0; j < k; j++) { string w; if (s.coin(1, 5)) { static const char* P[] = {".", "!", "?", ":", "(", "\"", "``", "[", ",", "\xe7\x8a\xac", "-"}; w = P[s.below(11)]; low[w] = w; } else { const L& b = B[s.below(8)]; bool u = s.coin(); w = u ? b.up : b.lo; low[w] = b.lo; } in += (j ? " " : "") + w; bool first = j == 0; if (E.count(w)) start = true; else if (!D.count(w)) { first = start; start = false; } if (!first) cnt[low[w]][w]++; } in += "\n"; }
  s.log << in; s.sync(); string got; try { got = run<TrainCaserRunner, ConfigTrainCaserRunner>("train-caser", {}, in); } catch (const exception& e) { FAIL("train-caser: " << e.what()); } set<string> seen; bool choice = false;
  for (auto& l : lines(got)) { CHECK(low.count(l), "'" << l << "' is no word of the input"); string k = low[l]; CHECK(seen.insert(k).second, "two casings of '" << k << "':\n" << got); CHECK(cnt.count(k), "'" << l << "' occurs only at the start of sentences"); int mx = 0; for (auto& p : cnt[k]) mx = max(mx, p.second); choice |= cnt[k].size() > 1; CHECK(cnt[k].count(l) && cnt[k][l] == mx, "'" << l << "' occurs " << cnt[k][l] << " times, another casing " << mx); }
  CHECK_EQ(seen.size(), cnt.size(), "words in the model:\n" << got); s.nontrivial(choice);
}

// ---- batch-tune
struct Ex { vector<Hyp> h; string ref; };
static Feats weights_of(const string& out) { vector<string> l = lines(out); if (l.size() != 1) FAIL("expected one line of weights:\n" << out); return parse(l[0]); }
static void scores(EvalMeasure& m, const vector<Ex>& v, const Feats& w, double& lo, double& hi) {   // corpus score of the one-best translations, over ties
  vector<vector<EvalStatsPtr> > c; for (auto& e : v) { if (e.h.empty()) continue; double top = -1e300; for (auto& h : e.h) top = max(top, dot(w, h.f)); c.push_back(vector<EvalStatsPtr>()); set<string> seen; for (auto& h : e.h) if (dot(w, h.f) >= top - 1e-6 * max(1.0, fabs(top)) && seen.insert(h.sent).second) c.back().push_back(m.CalculateStats(Dict::ParseWords(e.ref), Dict::ParseWords(h.sent))); }
  lo = 1e300; hi = -1e300; int left = 3000; function<void(size_t, EvalStatsPtr)> go = [&](size_t i, EvalStatsPtr t) { if (left <= 0) return; if (i == c.size()) { left--; double x = t ? t->ConvertToScore() : 0; lo = min(lo, x); hi = max(hi, x); return; } for (auto& x : c[i]) go(i + 1, t ? t->Plus(*x) : x->Clone()); }; go(0, EvalStatsPtr()); if (left <= 0) { lo = -1e300; hi = 1e300; }
}
PROP(batch_tune, 500, 40000) {
  int nf = s.range(1, 4), n = s.range(1, 4); vector<Ex> v(n); string ref, nb1, nb2; int al = s.range(2, 6); bool two = s.coin(1, 4);
  for (int i = 0; i < n; i++) { v[i].ref = join(words(s, 1, 4, al)); ref += v[i].ref + "\n"; int k = s.size(1, 6); for (int j = 0; j < k; j++) { Hyp h; h.sent = join(words(s, 1, 4, al)); if (s.coin(1, 4)) h.sent = v[i].ref; h.f = feats(s, nf); h.score = 0; bool second = two && s.coin(1, 3); v[i].h.push_back(h); (second ? nb2 : nb1) += to_string(i) + " ||| " + h.sent + " ||| 0 ||| " + text(h.f) + "\n"; } }
  string d = scratch(), meas = s.pick(vector<string>{"bleu:smooth=1", "bleu", "ribes", "wer:reverse=true", "zeroone", "interp:0.5|bleu:smooth=1|0.5|ribes"}), alg = s.pick(vector<string>{"mert", "mert", "greedy-mert", "lbfgs", "onlinepro"}); spew(d + "/r", ref); spew(d + "/n1", nb1); spew(d + "/n2", nb2); if (alg == "lbfgs" && (meas[0] == 'w' || meas[0] == 'i')) meas = "bleu:smooth=1"; Feats w = feats(s, 4); if (w.empty()) w["w"] = 1; { string t; for (auto& p : w) t += p.first + "=" + num(p.second) + "\n"; spew(d + "/w", t); }
  string nbest = d + "/n1" + (two ? "," + d + "/n2" : ""); vector<string> base = {"-eval", meas, "-weight_in", d + "/w", "-rand_seed", to_string(s.range(1, 1000)), "-restarts", to_string(alg == "onlinepro" ? 0 : s.range(0, 4)), "-algorithm", alg}, fit = {"-nbest", nbest}; if (alg == "lbfgs" && s.coin()) { base.push_back("-l2"); base.push_back("0.25"); } if (alg == "onlinepro" && s.coin()) { base.push_back("-update"); base.push_back(s.pick(vector<string>{"perceptron", "avgperceptron"})); }
  double lo = -1e300, hi = 1e300; bool ranges = alg == "greedy-mert" && s.coin(); if (ranges) { lo = s.range(-8, 0) / 4.0; hi = s.range(1, 8) / 4.0; for (auto& p : w) { if (p.second < lo) p.second = lo; if (p.second > hi) p.second = hi; } string t; for (auto& p : w) if (p.second) t += p.first + "=" + num(p.second) + "\n"; spew(d + "/w", t); base.push_back("-weight_ranges"); base.push_back(num(lo) + "|" + num(hi)); }
  for (auto& a : base) s.log << a << " "; s.log << "\nweights " << text(w) << "\n" << ref << "--\n" << nb1 << "--\n" << nb2; s.sync();
  auto go = [&](vector<string> a, const vector<string>& more) { a.insert(a.end(), more.begin(), more.end()); a.push_back(d + "/r"); return run<BatchTuneRunner, ConfigBatchTune>("batch-tune", a); };
  string out; try { out = go(base, fit); } catch (const exception& e) { FAIL("batch-tune: " << e.what()); } Feats res = weights_of(out); s.log << "result " << out; for (auto& p : res) CHECK(std::isfinite(p.second), "weight " << p.first << " is " << p.second); unique_ptr<EvalMeasure> m(EvalMeasureLoader::CreateMeasureFromString(meas));
  double a, b, c, e; scores(*m, v, w, a, b); scores(*m, v, res, c, e); if (alg == "mert" || alg == "greedy-mert") CHECK(e >= a - 1e-4, "the tuned weights " << out << " score at most " << e << ", the initial ones at least " << a);
  if (ranges) for (auto& p : res) CHECK(p.second >= lo - 1e-5 && p.second <= hi + 1e-5, "weight " << p.first << "=" << p.second << " outside of " << lo << " to " << hi);
  // the same with more threads, and from precomputed statistics
  int how = s.below(3); if (alg == "onlinepro" && how == 0) how = 2; bool exact = alg == "onlinepro" || (alg == "greedy-mert" && how == 0) ? false : how != 1 || (alg != "lbfgs" && meas != "ribes" && meas[0] != 'i'); string again; try { if (how == 0) { vector<string> x = fit; x.push_back("-threads"); x.push_back(to_string(s.range(2, 4))); again = go(base, x); }
    else if (how == 1) { string st; int k = 0; for (auto& f : split(nbest, ",")) { string o = d + "/st" + to_string(k++); string none = run<BatchTuneRunner, ConfigBatchTune>("batch-tune", {"-eval", meas, "-nbest", f, "-stat_out", o, d + "/r"}); CHECK_EQ(none, string(), "output when computing statistics"); st += (st.empty() ? "" : ",") + o; CHECK_EQ(lines(slurp(o)).size(), lines(slurp(f)).size(), "statistics of " << f); } vector<string> x = fit; x.push_back("-stat_in"); x.push_back(st); again = go(base, x); s.label("precomputed statistics"); }
    else again = go(base, fit); } catch (const exception& x) { FAIL("batch-tune (second run, " << how << "): " << x.what()); }
  Feats res2 = weights_of(again); if (exact) CHECK(feq(res2, res), "weights " << again << " instead of " << out << (how == 0 ? "with several threads" : how == 1 ? "from precomputed statistics" : "run again")); s.label(alg); s.nontrivial(n > 1 && (e > b + 1e-9 || c > b + 1e-9));
}
PROP(batch_refuses, 400, 4000) {
  string d = scratch(); spew(d + "/r", "a b\nc\n"); spew(d + "/n", "0 ||| a b ||| 1 ||| f=1\n0 ||| b ||| 1 ||| f=2\n1 ||| c ||| 1 ||| f=1\n"); static const char* BAD[] = {"0 ||| a ||| 1\n", "2 ||| a ||| 1 ||| f=1\n", "-1 ||| a ||| 1 ||| f=1\n", "0 ||| a ||| 1 ||| f\n", "99999 ||| a ||| 1 ||| f=1\n", "x ||| a ||| 1 ||| f=1\n"}; int k = s.below(13); spew(d + "/b", string(s.coin() ? "0 ||| a b ||| 1 ||| f=1\n" : "") + BAD[k % 6]); spew(d + "/s", "1\n"); vector<string> a;
  if (k < 6) a = {"-nbest", d + "/b"}; else if (k == 6) a = {"-nbest", d + "/none"}; else if (k == 7) a = {}; else if (k == 8) a = {"-nbest", d + "/n", "-forest", d + "/n"}; else if (k == 9) a = {"-nbest", d + "/n", "-algorithm", "mart"}; else if (k == 10) a = {"-nbest", d + "/n", "-weight_ranges", "1"}; else if (k == 11) a = {"-nbest", d + "/n", "-weight_in", d + "/none"}; else a = {"-nbest", d + "/n", "-eval", "zeroone", "-stat_in", d + "/s"};
  if (k < 6 && k != 3 && s.coin()) { a.push_back("-stat_out"); a.push_back(d + "/so"); } a.push_back(d + "/r"); a.insert(a.begin(), {"-restarts", "0"}); s.log << join(a) << "\n" << BAD[k % 6]; s.sync(); string got; bool ok = false; try { got = run<BatchTuneRunner, ConfigBatchTune>("batch-tune", a); ok = true; } catch (const exception&) { } CHECK(!ok, "accepted: " << got); s.nontrivial(true);
}
PBT_MAIN("h_rescore")
