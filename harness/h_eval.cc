// C14: evaluation measures against their published definitions, computed from scratch.
#include "pbt.h"
#include <travatar/config-mt-evaluator-runner.h>
#include <travatar/eval-measure-bleu.h>
#include <travatar/eval-measure-loader.h>
#include <travatar/eval-measure-nist.h>
#include <travatar/eval-measure-ribes.h>
#include <travatar/eval-measure-ter.h>
#include <travatar/eval-measure-wer.h>
#include <travatar/eval-measure-zeroone.h>
#include <travatar/mt-evaluator-runner.h>
#include <tercpp/tercalc.h>
#include <memory>
using namespace std;
using namespace pbt;
using namespace travatar;
typedef vector<int> Sen;

// A corpus: the system side is usually an edited copy of the reference side.
struct Corpus { vector<Sen> ref, sys; };
static Sen gen_sen(S& s, int al, int hi) { Sen r; int n = s.size(s.coin(1, 12) ? 0 : 1, hi); for (int i = 0; i < n; i++) r.push_back(s.below(al)); return r; }
static Sen edit(S& s, Sen r, int al) {
  int k = s.size(0, 5);
  for (int i = 0; i < k; i++) switch (s.below(5)) {
    case 0: r.insert(r.begin() + s.below(r.size() + 1), s.below(al)); break;
    case 1: if (!r.empty()) r.erase(r.begin() + s.below(r.size())); break;
    case 2: if (!r.empty()) r[s.below(r.size())] = s.below(al); break;
    default: if (r.size() > 1) { int a = s.below(r.size()), l = 1 + s.below(min<int>(4, r.size() - a)); Sen m(r.begin() + a, r.begin() + a + l); r.erase(r.begin() + a, r.begin() + a + l); r.insert(r.begin() + s.below(r.size() + 1), m.begin(), m.end()); }
  }
  return r;
}
static Corpus gen(S& s, int maxsent, int hi) {
  Corpus c; int n = s.size(1, maxsent), al = s.coin() ? 4 : s.coin() ? 2 : 12;
  for (int i = 0; i < n; i++) { c.ref.push_back(gen_sen(s, al, hi)); c.sys.push_back(s.coin(1, 4) ? gen_sen(s, al, hi) : edit(s, c.ref[i], al)); s.log << show(c.ref[i]) << " / " << show(c.sys[i]) << "\n"; }
  return c;
}
static map<Sen, int> ngrams(const Sen& x, int n) { map<Sen, int> r; for (int i = 0; i + n <= (int)x.size(); i++) r[Sen(x.begin() + i, x.begin() + i + n)]++; return r; }
static double total(EvalMeasure& m, const Corpus& c, string* text = 0, double* lo = 0, double* hi = 0) {
  EvalStatsPtr t; for (size_t i = 0; i < c.ref.size(); i++) { EvalStatsPtr x = m.CalculateCachedStats(c.ref[i], c.sys[i]); double v = x->ConvertToScore(); if (lo) *lo = min(*lo, v); if (hi) *hi = max(*hi, v); if (!t) t = x->Clone(); else t->PlusEquals(*x); }
  if (text) *text = t->ConvertToString(); return t->ConvertToScore();
}
static string num(double d) { ostringstream o; o << d; return o.str(); }

// ---- reference definitions
struct BleuOpt { int order; double smooth, prec; bool arith, inverse, brev, sent; };
static double tiny = 0;   // roots of a difference that may or may not cancel exactly
static double bleu(const vector<Sen>& ref, const vector<Sen>& sys, const BleuOpt& o, vector<double>* parts = 0, double* bp = 0) {
  double r = 0, c = 0; for (auto& x : ref) r += x.size(); for (auto& x : sys) c += x.size(); vector<double> p;
  for (int n = 1; n <= o.order; n++) { double m = 0, tot = 0, rt = 0;
    for (size_t i = 0; i < ref.size(); i++) { map<Sen, int> a = ngrams(ref[i], n), b = ngrams(sys[i], n); for (auto& x : b) { tot += x.second; if (a.count(x.first)) m += min(x.second, a[x.first]); } for (auto& x : a) rt += x.second; }
    if (n > 1) { m += o.smooth; tot += o.smooth; rt += o.smooth; }
    double den = o.prec * tot + (1 - o.prec) * rt, v = tot == 0 || den == 0 ? 0 : m / den; p.push_back(o.inverse ? 1 - v : v); if (!o.arith && p.back() < 1e-9 && o.inverse) tiny = 1e-2; }
  double score; if (o.arith) { score = 0; for (double x : p) score += x; score /= o.order; } else { score = 1; for (double x : p) score *= x; score = score <= 0 ? 0 : pow(score, 1.0 / o.order); }
  double b = c >= r || !o.brev ? 1 : c == 0 ? 0 : exp(1 - r / c); if (parts) *parts = p; if (bp) *bp = b; return score * b;
}
static double ribes(const Sen& ref, const Sen& hyp, double alpha, double beta) {
  if (ref.empty()) return hyp.empty() ? 1 : 0; if (hyp.empty()) return 0;
  double bp = min(1.0, exp(1.0 - (double)ref.size() / hyp.size()));
  auto count = [](const Sen& pat, const Sen& in, int& first) { int k = 0; first = -1; for (size_t i = 0; i + pat.size() <= in.size(); i++) if (equal(pat.begin(), pat.end(), in.begin() + i)) { if (first < 0) first = i; k++; } return k; };
  vector<int> list; int L = hyp.size();
  for (int i = 0; i < L; i++) { int f, g; Sen w(1, hyp[i]); int cr = count(w, ref, f), ch = count(w, hyp, g); if (!cr) continue; if (cr == 1 && ch == 1) { list.push_back(f); continue; }
    for (int win = 1; win <= max(i, L - i); win++) {
      if (win <= i) { Sen n(hyp.begin() + i - win, hyp.begin() + i + 1); if (count(n, ref, f) == 1 && count(n, hyp, g) == 1) { list.push_back(f + win); break; } }
      if (i + win < L) { Sen n(hyp.begin() + i, hyp.begin() + i + win + 1); if (count(n, ref, f) == 1 && count(n, hyp, g) == 1) { list.push_back(f); break; } } } }
  int n = list.size(); if (n == 1 && ref.size() == 1) return pow(1.0 / hyp.size(), alpha) * pow(bp, beta); if (n < 2) return 0;
  double asc = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (list[i] < list[j]) asc++;
  return asc / (n * (n - 1) / 2) * pow((double)n / hyp.size(), alpha) * pow(bp, beta);
}
static double nist(const vector<Sen>& allref, const vector<Sen>& ref, const vector<Sen>& sys, int order, double beta) {
  vector<map<Sen, int> > cnt(order + 1); int words = 0; for (auto& x : allref) { words += x.size(); for (int n = 1; n <= order; n++) for (auto& g : ngrams(x, n)) cnt[n][g.first] += g.second; }
  double score = 0, r = 0, c = 0; for (auto& x : ref) r += x.size(); for (auto& x : sys) c += x.size();
  for (int n = 1; n <= order; n++) { double info = 0, tot = 0; for (size_t i = 0; i < ref.size(); i++) { map<Sen, int> a = ngrams(ref[i], n), b = ngrams(sys[i], n); for (auto& x : b) { tot += x.second; if (!a.count(x.first)) continue; Sen ctx(x.first.begin(), x.first.end() - 1); double den = n == 1 ? words : cnt[n - 1][ctx]; info += min(x.second, a[x.first]) * log2(den / cnt[n][x.first]); } } if (tot > 0) score += info / tot; }
  double q = r == 0 ? 1 : min(1.0, c / r); return q <= 0 ? 0 : score * exp(-beta * log(q) * log(q));
}
static int lev(const Sen& a, const Sen& b) { vector<int> p(b.size() + 1), q; for (size_t j = 0; j <= b.size(); j++) p[j] = j; for (size_t i = 1; i <= a.size(); i++) { q.assign(1, i); for (size_t j = 1; j <= b.size(); j++) q.push_back(a[i - 1] == b[j - 1] ? p[j - 1] : 1 + min(p[j - 1], min(p[j], q[j - 1]))); p = q; } return p.back(); }
static int overlap(const Sen& a, const Sen& b) { map<int, int> m; int k = 0; for (int x : a) m[x]++; for (int x : b) if (m[x]-- > 0) k++; return k; }

static string bleu_str(S& s, BleuOpt& o, bool& any) {
  vector<string> p; BleuOpt d = {4, 0, 1, false, false, true, false}; o = d;
  if (s.coin()) { o.order = s.range(1, 6); p.push_back("order=" + num(o.order)); }
  if (s.coin(1, 3)) { o.smooth = s.coin() ? 1 : 0.1 * s.range(1, 30); p.push_back("smooth=" + num(o.smooth)); }
  if (s.coin(1, 4)) { o.prec = s.range(0, 10) / 10.0; p.push_back("prec=" + num(o.prec)); }
  if (s.coin(1, 4)) { o.arith = s.coin(); p.push_back(string("mean=") + (o.arith ? "arith" : "geom")); }
  if (s.coin(1, 4)) { o.inverse = s.coin(); p.push_back(string("inverse=") + (o.inverse ? "true" : "false")); }
  if (s.coin(1, 4)) { o.brev = s.coin(); p.push_back(string("brev=") + (o.brev ? "true" : "false")); }
  if (s.coin(1, 3)) { o.sent = s.coin(); p.push_back(string("scope=") + (o.sent ? "sentence" : "corpus")); }
  any = !p.empty(); for (size_t i = p.size(); i > 1; i--) swap(p[i - 1], p[i - 1 - s.below(i)]); string r = "bleu"; for (size_t i = 0; i < p.size(); i++) r += (i ? "," : ":") + p[i]; return r;
}

PROP(bleu, 12000, 200000) {
  BleuOpt o; bool any; string spec = bleu_str(s, o, any); s.log << spec << "\n"; Corpus c = gen(s, 6, s.coin(1, 3) ? 30 : 10); s.sync();
  unique_ptr<EvalMeasure> m(EvalMeasureLoader::CreateMeasureFromString(spec)); string text; double lo = 0, hi = 0, got; 
  try { got = total(*m, c, &text, &lo, &hi); } catch (const exception& e) { FAIL(spec << ": " << e.what()); }
  double want = 0, bp = 1; vector<double> parts; tiny = 0; if (o.sent) { for (size_t i = 0; i < c.ref.size(); i++) want += bleu(vector<Sen>(1, c.ref[i]), vector<Sen>(1, c.sys[i]), o); want /= c.ref.size(); } else want = bleu(c.ref, c.sys, o, &parts, &bp);
  CHECK_NEAR(got, want, 1e-9 + tiny, "for " << spec); CHECK(lo >= 0 && hi <= 1 && got >= 0 && got <= 1, "out of bounds: " << got << " sentences " << lo << ".." << hi);
  if (!o.sent) { // the printed report
    double b, p; const char* t = strchr(text.c_str(), '='); CHECK(t && sscanf(t, "= %lf, %lf", &b, &p) == 2, "report '" << text << "'"); CHECK_NEAR(b, want, 1e-5 + tiny, "in '" << text << "'"); CHECK_NEAR(p, parts[0], 1e-5, "in '" << text << "'");
    t = strchr(t, ','); for (int i = 0; i < o.order; i++) { CHECK(t, "report '" << text << "'"); CHECK_NEAR(atof(t + 1), parts[i], 1e-5, "order " << i + 1 << " in '" << text << "'"); t = strpbrk(t + 1, "/("); }
    long r = 0, h = 0; for (auto& x : c.ref) r += x.size(); for (auto& x : c.sys) h += x.size(); ostringstream tail; tail << "hyp_len=" << h << ", ref_len=" << r << ")"; CHECK(text.find(tail.str()) != string::npos, "'" << text << "' lacks " << tail.str());
    size_t q = text.find("(BP="); CHECK(q != string::npos, ""); CHECK_NEAR(atof(text.c_str() + q + 4), bp, 1e-5, "brevity in '" << text << "'"); CHECK_EQ(text.substr(0, 4), string(o.inverse ? "INV_" : "BLEU"), ""); }
  // a perfect corpus
  Corpus p = c; p.sys = p.ref; long longest = 0; for (auto& x : p.ref) longest = max<long>(longest, x.size()); if (!o.inverse && !o.sent && longest >= o.order) CHECK_NEAR(total(*m, p), 1.0, 1e-9, "for a perfect corpus"); if (o.inverse && !o.sent && !o.arith && o.brev) CHECK_NEAR(total(*m, p), longest >= o.order ? 0.0 : longest == 0 && 0 ? 0.0 : bleu(p.ref, p.sys, o), 1e-9 + tiny, "for a perfect corpus");
  // measure objects built directly behave alike
  EvalMeasureBleu d(o.order, o.smooth, o.sent ? SENTENCE : CORPUS, o.prec, o.arith ? ARITHMETIC : GEOMETRIC, o.inverse, o.brev); CHECK_NEAR(total(d, c), got, 1e-9 + tiny, "built directly");
  s.nontrivial(want > 0 && want < 1); if (want == 0) s.label("zero"); if (any) s.label("options"); if (bp < 1) s.label("brevity");
}

PROP(ribes, 15000, 200000) {
  double a = 0.25, b = 0.1; string spec = "ribes"; if (s.coin(1, 3)) { a = s.range(0, 8) / 8.0; b = s.range(0, 8) / 8.0; spec += ":alpha=" + num(a) + ",beta=" + num(b); } s.log << spec << "\n";
  Corpus c = gen(s, 4, 12); unique_ptr<EvalMeasure> m(EvalMeasureLoader::CreateMeasureFromString(spec)); double want = 0, lo = 0, hi = 0; bool mid = false;
  for (size_t i = 0; i < c.ref.size(); i++) { double w = ribes(c.ref[i], c.sys[i], a, b); if (w > 0 && w < 1) mid = true; CHECK_NEAR(m->CalculateStats(c.ref[i], c.sys[i])->ConvertToScore(), w, 1e-9, "for ref " << show(c.ref[i]) << " sys " << show(c.sys[i])); want += w; }
  CHECK_NEAR(total(*m, c, 0, &lo, &hi), want / c.ref.size(), 1e-9, "(corpus)"); CHECK(lo >= 0 && hi <= 1 + 1e-12, "out of bounds");
  for (auto& r : c.ref) { set<int> d(r.begin(), r.end()); if (d.size() == r.size() || r.size() == 2) CHECK_NEAR(m->CalculateStats(r, r)->ConvertToScore(), 1.0, 1e-12, "for identical sentences " << show(r)); }
  EvalMeasureRibes d(a, b); CHECK_NEAR(total(d, c), total(*m, c), 1e-9, "built directly"); s.nontrivial(mid);
}

PROP(nist, 8000, 100000) {
  int order = 5; double beta = -log(0.5) / (log(1.5) * log(1.5)); bool sent = false; string spec = "nist"; vector<string> p;
  if (s.coin()) { order = s.range(1, 6); p.push_back("order=" + num(order)); } if (s.coin(1, 3)) { beta = s.range(0, 40) / 8.0; p.push_back("beta=" + num(beta)); } if (s.coin(1, 3)) { sent = s.coin(); p.push_back(string("scope=") + (sent ? "sentence" : "corpus")); }
  for (size_t i = 0; i < p.size(); i++) spec += (i ? "," : ":") + p[i]; s.log << spec << "\n"; Corpus c = gen(s, 6, 12); s.sync(); int tr = 0, ts = 0; bool both = false; for (size_t i = 0; i < c.ref.size(); i++) { tr += c.ref[i].size(); ts += c.sys[i].size(); if (c.ref[i].empty() && c.sys[i].empty()) both = true; } if (tr + ts == 0 || (sent && both)) throw Discard();   // no words at all: undefined
  unique_ptr<EvalMeasure> m(EvalMeasureLoader::CreateMeasureFromString(spec)); vector<vector<Sentence> > refs; for (auto& r : c.ref) refs.push_back(vector<Sentence>(1, r)); m->InitializeWithReferences(refs);
  double want = 0, got = total(*m, c); if (sent) { for (size_t i = 0; i < c.ref.size(); i++) want += nist(c.ref, vector<Sen>(1, c.ref[i]), vector<Sen>(1, c.sys[i]), order, beta); want /= c.ref.size(); } else want = nist(c.ref, c.ref, c.sys, order, beta);
  CHECK_NEAR(got, want, 1e-6, "for " << spec); CHECK(got >= 0, "negative"); s.nontrivial(want > 0); if (sent) s.label("sentence");
  EvalMeasureNist d(order, sent ? SENTENCE_NIST : CORPUS_NIST, beta); d.InitializeWithReferences(refs); CHECK_NEAR(total(d, c), got, 1e-6, "built directly");
}

static bool block_move(const Sen& x, const Sen& y) {   // is y x with one block moved elsewhere (or x itself)?
  if (x == y) return true; int n = x.size(), pre = 0, suf = 0; while (x[pre] == y[pre]) pre++; while (x[n - 1 - suf] == y[n - 1 - suf]) suf++;
  for (int a = pre; a >= 0; a--) for (int z = n - suf; z <= n; z++) for (int k = a + 1; k < z; k++) if (equal(x.begin() + k, x.begin() + z, y.begin() + a) && equal(x.begin() + a, x.begin() + k, y.begin() + a + (z - k))) return true;
  return false;
}
PROP(long_sentences, 3, 40) {
  Sen r, h; int n = s.range(900, 1500), m = n + s.range(-10, 10); for (int i = 0; i < n; i++) r.push_back(i); for (int i = 0; i < m; i++) h.push_back(100000 + i); int k = s.range(0, 12); set<int> at; for (int i = 0; i < k; i++) at.insert(2 * s.below(400)); for (int i : at) h[i] = r[i]; s.log << n << " and " << m << " words, equal at " << show(at) << "\n"; s.sync();
  double want = max(n, m) - (double)at.size(); CHECK_EQ(EvalMeasureTer().CalculateStats(r, h)->GetVals()[0], want, "TER edits"); CHECK_EQ(EvalMeasureWer().CalculateStats(r, h)->GetVals()[0], want, "edit distance"); s.nontrivial(!at.empty() && n >= 1000);
}
PROP(ter, 4000, 60000) {
  bool inv = s.coin(1, 4); string spec = inv ? "ter:inverse=true" : s.coin(1, 4) ? "ter:inverse=false" : "ter"; bool big = s.coin(1, 25); Corpus c = gen(s, big ? 1 : 3, big ? s.coin(1, 3) ? 40 : 24 : 12); s.sync(); unique_ptr<EvalMeasure> m(EvalMeasureLoader::CreateMeasureFromString(spec));
  double edits = 0, len = 0; bool shifted = false;
  for (size_t i = 0; i < c.ref.size(); i++) { const Sen &r = c.ref[i], &h = c.sys[i]; EvalStatsPtr st = m->CalculateStats(r, h); double e = st->GetVals()[0]; CHECK_EQ(st->GetVals()[1], (double)r.size(), "(reference length)"); int L = lev(r, h), low = max(r.size(), h.size()) - overlap(r, h);
    string at = "for ref " + show(r) + " sys " + show(h); CHECK(e == floor(e), "edits " << e << " " << at); CHECK(e >= low, e << " edits, at least " << low << " are needed, " << at); if (L <= 20) CHECK(e <= L, e << " edits, plain edit distance is " << L << " " << at); CHECK_EQ(e == 0, r == h, at); if (e < L) shifted = true;
    CHECK_NEAR(st->ConvertToScore(), inv ? 1 - (r.empty() ? 0 : e / r.size()) : r.empty() ? 0 : e / r.size(), 1e-9, at);
    // the edit sequence behind the number: shifts permute one side, the rest is an alignment
    unique_ptr<TERCpp::terCalc> tc(new TERCpp::terCalc); TERCpp::terAlignment al = tc->TER(r, h); CHECK_EQ(al.numEdits, e, "(direct call) " << at);
    auto words = [](const vector<string>& v) { Sen x; for (auto& w : v) x.push_back(atoi(w.c_str())); return x; }; Sen before = h, after = h;
    if (!r.empty() && !h.empty()) { if (!al.allshifts.empty()) after = words(al.aftershift); for (auto& sh : al.allshifts) { Sen nx = words(sh.aftershift); bool ok = nx.size() == before.size(); // one block moved
          if (ok) ok = block_move(before, nx); CHECK(ok, "a shift turns " << show(before) << " into " << show(nx)); before = nx; }
      int i1 = 0, j1 = 0, n = 0; for (char ch : al.alignment) { if (ch == ' ') { CHECK(i1 < (int)r.size() && j1 < (int)after.size() && r[i1] == after[j1], "alignment matches different words " << at); i1++; j1++; } else { n++; if (ch == 'S') i1++, j1++; else if (ch == 'D') i1++; else j1++; } }
      CHECK(i1 == (int)r.size() && j1 == (int)after.size(), "alignment does not cover the sentences " << at); CHECK_EQ(e, (double)(n + al.allshifts.size()), "edits and shifts of the sequence, " << at); if (!al.allshifts.empty()) s.label("shifts"); }
    edits += e; len += r.size(); }
  if (len > 0) { double w = edits / len; CHECK_NEAR(total(*m, c), inv ? 1 - w : w, 1e-9, "(corpus)"); } Corpus p = c; p.sys = p.ref; CHECK_NEAR(total(*m, p), inv ? 1.0 : 0.0, 1e-12, "for a perfect corpus"); s.nontrivial(edits > 0); if (shifted) s.label("cheaper by shifting");
}

PROP(wer_ser, 8000, 100000) {
  bool rev = s.coin(1, 4); Corpus c = gen(s, 5, s.coin(1, 4) ? 40 : 10); unique_ptr<EvalMeasure> m(EvalMeasureLoader::CreateMeasureFromString(rev ? "wer:reverse=true" : s.coin(1, 4) ? "wer:reverse=false" : "wer")), z(EvalMeasureLoader::CreateMeasureFromString("zeroone"));
  double e = 0, n = 0, same = 0; for (size_t i = 0; i < c.ref.size(); i++) { int d = lev(c.ref[i], c.sys[i]); e += d; n += c.ref[i].size(); same += c.ref[i] == c.sys[i]; EvalStatsPtr st = m->CalculateStats(c.ref[i], c.sys[i]); CHECK_EQ(st->GetVals()[0], (double)d, "edit distance of " << show(c.ref[i]) << " and " << show(c.sys[i])); }
  if (n > 0) CHECK_NEAR(total(*m, c), rev ? 1 - e / n : e / n, 1e-9, "WER"); CHECK_NEAR(total(*z, c), same / c.ref.size(), 1e-12, "exact matches"); s.nontrivial(e > 0 && same < c.ref.size());
}

static string run(const vector<string>& args) {
  vector<const char*> av; av.push_back("mt-evaluator"); for (auto& a : args) av.push_back(a.c_str()); ConfigMTEvaluatorRunner c; ostringstream o; streambuf* old = cout.rdbuf(o.rdbuf());
  try { c.LoadConfig(av.size(), (char**)&av[0], false); MTEvaluatorRunner r; r.Run(c); } catch (...) { cout.rdbuf(old); throw; } cout.rdbuf(old); return o.str();
}
static string text(const vector<Sen>& v) { static const char* W[] = {"the", "a", "Dog", "||", "x0", "\xe7\x8a\xac", "1.5", "(", "-", "&amp;", "b", "c"}; string r; for (auto& x : v) { for (size_t i = 0; i < x.size(); i++) r += (i ? " " : "") + string(W[x[i]]); r += "\n"; } return r; }
static double value(const string& cell) { size_t p = cell.find(" = "); return p == string::npos ? -1e99 : atof(cell.c_str() + p + 3); }

PROP(program, 4000, 50000) {   // mt-evaluator's own run
  Corpus c = gen(s, 6, 8); int nf = s.range(1, 3), n = c.ref.size(); vector<vector<Sen> > sys(1, c.sys); for (int f = 1; f < nf; f++) { vector<Sen> x; for (int i = 0; i < n; i++) x.push_back(s.coin(1, 3) ? c.ref[i] : edit(s, c.ref[i], 4)); if (s.coin(1, 8)) { if (s.coin()) x.pop_back(); } sys.push_back(x); }
  if (s.coin(1, 5)) sys.push_back(c.ref), nf++;
  for (auto& x : c.ref) if (x.empty()) x.push_back(0); for (auto& y : sys) for (auto& x : y) if (x.empty()) x.push_back(1); vector<string> ev; static const char* E[] = {"bleu", "ribes", "nist", "ter", "wer", "zeroone", "bleu:order=2,smooth=1", "bleu:scope=sentence,smooth=0.5", "interp:0.25|bleu:smooth=1|0.75|ribes", "ainterp:A|bleu:order=2|B|ribes|(A+B)/2", "interp:1|nist|1|wer"}; int ne = s.range(0, 3); for (int i = 0; i < ne; i++) ev.push_back(E[s.below(11)]); bool sent = s.coin(1, 3); int boot = s.coin(1, 3) ? s.range(1, 20) : 0;
  string d = scratch(), evs; bool none = s.coin(1, 60); spew(d + "/ref", none ? string() : text(c.ref)); vector<string> args = {"-ref", d + "/ref"}; for (auto& e : ev) evs += (evs.empty() ? "" : " ") + e; if (ne) { args.push_back("-eval"); args.push_back(evs); } else ev = {"bleu", "ribes"}; if (sent) { args.push_back("-sent"); args.push_back("true"); } if (boot) { args.push_back("-bootstrap"); args.push_back(to_string(boot)); }
  for (int f = 0; f < nf; f++) { string p = d + "/s" + to_string(f); spew(p, text(sys[f])); args.push_back(p); } for (auto& a : args) s.log << a << " "; s.sync(); string out; if (none) { for (int f = 0; f < nf; f++) spew(d + "/s" + to_string(f), ""); s.label("no references"); try { out = run(args); } catch (const exception&) { return; } FAIL("an empty corpus gets a score: " << out); } try { out = run(args); } catch (const exception& e) { FAIL("mt-evaluator: " << e.what()); } s.log << "\n" << out;
  vector<vector<Sentence> > refs; for (auto& r : c.ref) refs.push_back(vector<Sentence>(1, r));
  auto score = [&](const string& e, const vector<Sen>& r, const vector<Sen>& h) -> double { if (e == "nist") return nist(c.ref, r, h, 5, -log(0.5) / (log(1.5) * log(1.5))); double t = 0, l = 0; BleuOpt b = {4, 0, 1, false, false, true, false}; auto rb = [&] { double x = 0; for (size_t i = 0; i < r.size(); i++) x += ribes(r[i], h[i], .25, .1); return x / r.size(); }; auto we = [&] { double x = 0, y = 0; for (size_t i = 0; i < r.size(); i++) x += lev(r[i], h[i]), y += r[i].size(); return x / y; };
    if (e == "bleu") return bleu(r, h, b); if (e == "ribes") return rb(); if (e == "wer") return we(); if (e == "zeroone") { for (size_t i = 0; i < r.size(); i++) t += r[i] == h[i]; return t / r.size(); } if (e == "bleu:order=2,smooth=1") { b.order = 2; b.smooth = 1; return bleu(r, h, b); } if (e == "bleu:scope=sentence,smooth=0.5") { b.smooth = .5; for (size_t i = 0; i < r.size(); i++) t += bleu(vector<Sen>(1, r[i]), vector<Sen>(1, h[i]), b); return t / r.size(); }
    if (e[0] == 'i' && e[7] == '0') { b.smooth = 1; return 0.25 * bleu(r, h, b) + 0.75 * rb(); } if (e[0] == 'a') { b.order = 2; return (bleu(r, h, b) + rb()) / 2; } if (e[0] == 'i') return (nist(c.ref, r, h, 5, -log(0.5) / (log(1.5) * log(1.5))) + we()) / 2;
    for (size_t i = 0; i < r.size(); i++) { EvalMeasureTer m; t += m.CalculateStats(r[i], h[i])->GetVals()[0]; l += r[i].size(); } return t / l; };
  istringstream is(out); string line; vector<int> good;
  for (int f = 0; f < nf; f++) { string name = d + "/s" + to_string(f); if (sent) for (size_t i = 0; i < sys[f].size(); i++) for (auto& e : ev) { CHECK(getline(is, line), "too few lines"); string pre = (nf > 1 ? name + " " : "") + "Sent " + to_string(i) + ": "; CHECK_EQ(line.substr(0, pre.size()), pre, "in '" << line << "'"); double w = score(e, vector<Sen>(1, c.ref[i]), vector<Sen>(1, sys[f][i])); string cell = line.substr(pre.size()); if (e[0] != 'a') CHECK_NEAR(value(cell), w, 2e-5, e << " in '" << line << "'"); else CHECK_NEAR(atof(cell.c_str() + cell.rfind('=') + 1), w, 2e-5, e << " in '" << line << "'"); }
    CHECK(getline(is, line), "too few lines"); vector<string> cols; size_t p = 0; for (;;) { size_t q = line.find('\t', p); cols.push_back(line.substr(p, q == string::npos ? q : q - p)); if (q == string::npos) break; p = q + 1; } if (nf > 1) { CHECK_EQ(cols[0], name, "(file name)"); cols.erase(cols.begin()); }
    if ((int)sys[f].size() != n) { CHECK(cols.size() == 1 && cols[0].compare(0, 6, "FAILED") == 0, "different lengths not reported: " << line); continue; } good.push_back(f); CHECK_EQ(cols.size(), ev.size(), "columns of '" << line << "'");
    for (size_t k = 0; k < ev.size(); k++) { double w = score(ev[k], c.ref, sys[f]), g = ev[k][0] == 'a' ? atof(cols[k].c_str() + cols[k].rfind('=') + 1) : value(cols[k]); CHECK_NEAR(g, w, 2e-5, ev[k] << " of file " << f << " in '" << line << "'"); } }
  if (boot) { CHECK(getline(is, line) && line == "", ""); CHECK(getline(is, line) && line == "Bootstrap Resampling Significance:", "'" << line << "'");
    for (size_t a = 0; a + 1 < good.size(); a++) { CHECK(getline(is, line) && line == d + "/s" + to_string(good[a]), "'" << line << "'"); for (size_t b = a + 1; b < good.size(); b++) { CHECK(getline(is, line) && line == " " + d + "/s" + to_string(good[b]), "'" << line << "'");
        for (auto& e : ev) { CHECK(getline(is, line), ""); string pre = "  " + e + "\t"; CHECK_EQ(line.substr(0, pre.size()), pre, ""); double w, t, l; CHECK(sscanf(line.c_str() + pre.size(), "%lf %lf %lf", &w, &t, &l) == 3, "'" << line << "'"); CHECK_NEAR(w + t + l, 1.0, 1e-4, "'" << line << "'"); CHECK(w >= 0 && t >= 0 && l >= 0, "");
          const vector<Sen> &x = sys[good[a]], &y = sys[good[b]]; if (x == y) CHECK_NEAR(t, 1.0, 1e-9, "identical systems do not tie: " << line);
          if (e == "zeroone" || e == "ribes" || e == "bleu:scope=sentence,smooth=0.5") { bool ge = true, le = true, gt = true, lt = true; for (int i = 0; i < n; i++) { double p1 = score(e, vector<Sen>(1, c.ref[i]), vector<Sen>(1, x[i])), p2 = score(e, vector<Sen>(1, c.ref[i]), vector<Sen>(1, y[i])); if (p1 < p2) ge = false; if (p1 > p2) le = false; if (p1 <= p2 + 1e-9) gt = false; if (p1 + 1e-9 >= p2) lt = false; } if (gt) CHECK_NEAR(w, 1.0, 1e-9, "always better: " << line); if (lt) CHECK_NEAR(l, 1.0, 1e-9, "always worse: " << line); (void)ge; (void)le; if (gt || lt) s.label("dominated"); } } } } s.label("bootstrap"); }
  CHECK(!getline(is, line), "extra line '" << line << "'"); s.nontrivial(n >= 2);
}
PBT_MAIN("h_eval")
