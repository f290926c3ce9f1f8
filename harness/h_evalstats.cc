// C15: evaluation statistics as values: sums, differences, multiples, copies, text form, caches, combinations.
#include "pbt.h"
#include <travatar/cfg-data.h>
#include <travatar/dict.h>
#include <travatar/eval-measure-adv-interp.h>
#include <travatar/eval-measure-bleu.h>
#include <travatar/eval-measure-interp.h>
#include <travatar/eval-measure-loader.h>
#include <travatar/eval-measure-nist.h>
#include <travatar/eval-measure-ribes.h>
#include <travatar/eval-measure-ter.h>
#include <travatar/eval-measure-wer.h>
#include <travatar/eval-measure-zeroone.h>
#include <memory>
using namespace std;
using namespace pbt;
using namespace travatar;
typedef vector<int> Sen;
typedef boost::shared_ptr<EvalStats> St;

static string num(double d) { ostringstream o; o << d; return o.str(); }
static string simple(S& s, bool sums, int factor) {   // sums: statistics that are not already averaged per sentence
  string r; vector<string> p;
  switch (s.below(6)) {
    case 0: case 1: r = "bleu"; if (s.coin()) p.push_back("order=" + num(s.range(1, 5))); if (s.coin()) p.push_back("smooth=" + num(s.range(0, 8) / 4.0)); if (s.coin(1, 4)) p.push_back("prec=" + num(s.range(0, 4) / 4.0)); if (s.coin(1, 4)) p.push_back("mean=arith"); if (s.coin(1, 5)) p.push_back("inverse=true"); if (s.coin(1, 4)) p.push_back("brev=false"); if (!sums && s.coin(1, 4)) p.push_back("scope=sentence"); break;
    case 2: r = "ribes"; if (s.coin()) p.push_back("alpha=" + num(s.range(0, 4) / 4.0)); if (s.coin()) p.push_back("beta=" + num(s.range(0, 4) / 4.0)); break;
    case 3: r = "ter"; if (s.coin()) p.push_back(s.coin() ? "inverse=true" : "inverse=false"); break;
    case 4: r = "wer"; if (s.coin()) p.push_back(s.coin() ? "reverse=true" : "reverse=false"); break;
    default: r = s.coin() && factor == 0 ? "nist" : "zeroone"; if (r == "nist") { if (s.coin()) p.push_back("order=" + num(s.range(1, 4))); if (s.coin()) p.push_back("beta=" + num(s.range(0, 8) / 4.0)); }
  }
  if (factor && r != "nist" && r != "zeroone") p.push_back("factor=" + num(factor));
  for (size_t i = p.size(); i > 1; i--) swap(p[i - 1], p[i - 1 - s.below(i)]); for (size_t i = 0; i < p.size(); i++) r += (i ? "," : ":") + p[i]; return r;
}
struct Spec { string text; vector<string> part; vector<double> w; int kind; string formula; };
static const char* FORM[] = {"A", "(A+B)/2", "A*B", "A-B*C", "2*A*B/(A+B+0.001)", "C*(A-0.5)+B", "(A+B+C)/3"};
static double formula(int i, double A, double B, double C) { switch (i) { case 0: return A; case 1: return (A + B) / 2; case 2: return A * B; case 3: return A - B * C; case 4: return 2 * A * B / (A + B + 0.001); case 5: return C * (A - 0.5) + B; default: return (A + B + C) / 3; } }
static Spec gen_spec(S& s) {
  Spec r; r.kind = s.below(4);
  if (r.kind < 2) { r.kind = 0; r.text = simple(s, false, 0); r.part.push_back(r.text); r.w.push_back(1); }
  else if (r.kind == 2) { r.kind = 1; int n = s.range(1, 3); r.text = "interp:"; for (int i = 0; i < n; i++) { r.part.push_back(simple(s, false, 0)); r.w.push_back(s.range(1, 8) / 4.0); r.text += (i ? "|" : "") + num(r.w[i]) + "|" + r.part[i]; } }
  else { r.kind = 2; int f = s.below(7), n = f == 0 ? s.range(1, 3) : f == 1 || f == 2 || f == 4 ? s.range(2, 3) : 3; r.formula = FORM[f]; r.w.push_back(f); r.text = "ainterp:"; for (int i = 0; i < n; i++) { r.part.push_back(simple(s, false, 0)); r.text += string(1, 'A' + i) + "|" + r.part[i] + "|"; } r.text += r.formula; }
  s.log << r.text << "\n"; return r;
}
typedef unique_ptr<EvalMeasure> M;
struct Data { vector<Sen> ref, sys; vector<vector<Sentence> > refs; };
static Data gen_data(S& s, int lo, int hi) {
  Data d; int n = s.size(lo, hi), al = s.range(2, 6); auto sen = [&] { Sen x; int k = s.size(1, 9); for (int i = 0; i < k; i++) x.push_back(s.below(al)); return x; };
  for (int i = 0; i < n; i++) { d.ref.push_back(sen()); Sen h = d.ref.back(); if (s.coin(1, 3)) h = sen(); else for (int k = s.below(4); k > 0; k--) switch (s.below(3)) { case 0: h.insert(h.begin() + s.below(h.size() + 1), s.below(al)); break; case 1: if (h.size() > 1) h.erase(h.begin() + s.below(h.size())); break; default: h[s.below(h.size())] = s.below(al); }
    d.sys.push_back(h); d.refs.push_back(vector<Sentence>(1, d.ref.back())); s.log << show(d.ref.back()) << " / " << show(h) << "\n"; }
  return d;
}
static M make(const Spec& sp, const Data& d) { M m(EvalMeasureLoader::CreateMeasureFromString(sp.text)); m->InitializeWithReferences(d.refs); return m; }
static vector<St> stats(EvalMeasure& m, const Data& d) { vector<St> r; for (size_t i = 0; i < d.ref.size(); i++) r.push_back(m.CalculateStats(d.ref[i], d.sys[i])); return r; }
static bool odd(const string& t) { return t.find("inverse=true") != string::npos && t.find("bleu") != string::npos; }   // 1-x under a root: ill-conditioned near zero
static double tol(const Spec& sp) { for (auto& p : sp.part) if (odd(p)) return 1e-2; return 1e-7; }
static double want(const Spec& sp, const Data& d) {   // from separately measured components
  vector<double> v; for (auto& p : sp.part) { M m(EvalMeasureLoader::CreateMeasureFromString(p)); m->InitializeWithReferences(d.refs); St t; for (size_t i = 0; i < d.ref.size(); i++) { St x = m->CalculateStats(d.ref[i], d.sys[i]); if (!t) t = x; else t->PlusEquals(*x); } v.push_back(t->ConvertToScore()); }
  if (sp.kind == 0) return v[0]; if (sp.kind == 1) { double n = 0, z = 0; for (size_t i = 0; i < v.size(); i++) n += sp.w[i] * v[i], z += sp.w[i]; return n / z; } while (v.size() < 3) v.push_back(0); return formula((int)sp.w[0], v[0], v[1], v[2]);
}

PROP(combined, 6000, 80000) {
  Spec sp = gen_spec(s); Data d = gen_data(s, 1, 6); s.sync(); M m = make(sp, d); vector<St> x = stats(*m, d); St t = x[0]->Clone(); for (size_t i = 1; i < x.size(); i++) t->PlusEquals(*x[i]); double w = want(sp, d); CHECK_NEAR(t->ConvertToScore(), w, tol(sp), "for " << sp.text);
  string txt = t->ConvertToString(); size_t eq = sp.kind == 2 ? txt.rfind('=') : txt.find(" = ") + 2; CHECK(eq != string::npos && eq < txt.size(), txt); CHECK_NEAR(atof(txt.c_str() + eq + 1), w, 2e-5 * max(1.0, fabs(w)) + tol(sp), "printed as '" << txt << "'"); s.nontrivial(sp.kind && d.ref.size() > 1); if (sp.kind) s.label(sp.kind == 1 ? "weighted" : "formula");
}

PROP(algebra, 2000, 80000) {   // a history of operations against the list of sentences (with multiplicities) it stands for
  Spec sp = gen_spec(s); Data d = gen_data(s, 2, 6); s.sync(); M m = make(sp, d); vector<St> x = stats(*m, d); int n = x.size(); vector<string> orig; for (auto& p : x) orig.push_back(p->WriteStats());
  auto ref = [&](const vector<double>& c) -> St { St t; for (int i = 0; i < n; i++) { vector<St> y = stats(*m, d); y[i]->TimesEquals(c[i]); if (!t) t = y[i]; else t->PlusEquals(*y[i]); } return t; };
  struct Var { St st; vector<double> c; }; vector<Var> v; auto unit = [&](int i) { vector<double> c(n); c[i] = 1; return c; }; for (int i = 0; i < n; i++) v.push_back({x[i], unit(i)});
  int steps = s.range(3, 14);
  for (int k = 0; k < steps; k++) { size_t a = s.below(v.size()), b = s.below(v.size()); s.log << "step: ";
    switch (s.below(8)) {
      case 0: s.log << a << " copied\n"; v.push_back({v[a].st->Clone(), v[a].c}); break;
      case 1: case 2: if (a != b && v[a].st != v[b].st) { s.log << a << " += " << b << "\n"; v[a].st->PlusEquals(*v[b].st); for (int i = 0; i < n; i++) v[a].c[i] += v[b].c[i]; } break;
      case 3: { s.log << a << " + " << b << "\n"; St r = v[a].st->Plus(*v[b].st); vector<double> c; for (int i = 0; i < n; i++) c.push_back(v[a].c[i] + v[b].c[i]); v.push_back({r, c}); break; }
      case 4: { double f = s.coin() ? s.range(1, 4) : s.range(1, 8) / 4.0; s.log << a << " * " << f << "\n"; St r = v[a].st->Times(f); vector<double> c = v[a].c; for (auto& z : c) z *= f; v.push_back({r, c}); break; }
      case 5: { double f = s.range(1, 8) / 4.0; s.log << a << " *= " << f << "\n"; v[a].st->TimesEquals(f); for (auto& z : v[a].c) z *= f; break; }
      case 6: { double f = s.range(1, 8) / 4.0; if (a == b || v[a].st == v[b].st) break; s.log << a << " += " << b << " * " << f << "\n"; v[a].st->PlusEqualsTimes(*v[b].st, f); for (int i = 0; i < n; i++) v[a].c[i] += v[b].c[i] * f; break; }
      default: { if (a == b) break; s.log << a << " + " << b << " - " << b << "\n"; St r = v[a].st->Plus(*v[b].st); r->PlusEquals(*v[b].st->Times(-1)); v.push_back({r, v[a].c}); }
    }
    CHECK(v.size() < 100, ""); }
  for (size_t i = 0; i < v.size(); i++) { St w = ref(v[i].c); CHECK(v[i].st->Equals(*w) && *v[i].st == *w, "value " << i << " is " << v[i].st->WriteStats() << ", expected " << w->WriteStats()); CHECK_NEAR(v[i].st->ConvertToScore(), w->ConvertToScore(), max(1e-6, tol(sp)), "value " << i); St z = v[i].st->Times(0); CHECK(z->IsZero(), z->WriteStats()); CHECK_EQ(v[i].st->GetIdString(), x[0]->GetIdString(), "");
    for (size_t j = 0; j < v.size(); j++) { string a = v[i].st->WriteStats(), b = v[j].st->WriteStats(); bool same = true; istringstream p(a), q(b); double u, y; while (p >> u && q >> y) { if (fabs(u - y) > 1e-4) same = false; } if (!same) CHECK(!v[i].st->Equals(*v[j].st), "different statistics compare equal: " << a << " / " << b); } }
  s.nontrivial(steps >= 5); s.label(sp.kind == 0 ? "single" : sp.kind == 1 ? "weighted" : "formula");
}

PROP(text, 6000, 80000) {   // the text form keeps the score, also for many words and fractional values
  Spec sp = gen_spec(s); Data d = gen_data(s, 1, 6); s.sync(); M m = make(sp, d); vector<St> x = stats(*m, d); St t = x[0]->Clone(); for (size_t i = 1; i < x.size(); i++) t->PlusEquals(*x[i]); if (s.coin()) { double f = s.coin() ? s.range(1, 3000000) : 1.0 / s.range(3, 1000); s.log << "times " << f << "\n"; t->TimesEquals(f); s.label("scaled"); }
  string w = t->WriteStats(); CHECK(w.find('\n') == string::npos, w); St r = m->ReadStats(w); double a = t->ConvertToScore(), b = r->ConvertToScore(); CHECK_NEAR(b, a, max(tol(sp), 1e-9), "read back from '" << w << "'"); CHECK_EQ(r->WriteStats(), w, "written again"); CHECK_EQ(r->ConvertToString(), t->ConvertToString(), "printed");
  r->PlusEquals(*x[0]); t->PlusEquals(*x[0]); CHECK_NEAR(r->ConvertToScore(), t->ConvertToScore(), max(tol(sp), 1e-9), "after adding a sentence"); if (sp.kind) { bool bad = true; try { m->ReadStats(w + "\t1 2"); } catch (const exception&) { bad = false; } CHECK(!bad, "surplus column accepted"); } s.nontrivial(sp.kind || d.ref.size() > 1);
}

PROP(equality, 4000, 40000) {   // statistics of different settings
  int f = s.below(7), g = s.below(7); double w1 = s.range(1, 4), w2 = s.range(1, 4); Data d = gen_data(s, 1, 1); s.log << FORM[f] << " / " << FORM[g] << ", " << w1 << " / " << w2 << "\n";
  auto form = [&](int i) { return string("ainterp:A|wer|B|zeroone|C|ribes|") + FORM[i]; }; auto wt = [&](double w) { return "interp:" + num(w) + "|wer|1|ribes"; }; auto st = [&](const string& t) { M m(EvalMeasureLoader::CreateMeasureFromString(t)); return m->CalculateStats(d.ref[0], d.sys[0]); };
  CHECK_EQ(st(form(f))->Equals(*st(form(g))), f == g, "formulas " << FORM[f] << " and " << FORM[g]); CHECK_EQ(st(wt(w1))->Equals(*st(wt(w2))), w1 == w2, "weights"); s.nontrivial(f != g);
}

PROP(cache, 4000, 50000) {   // n-gram caches keyed by sentence ids, interleaved with uncached calls and clearing
  string spec; int kind = s.below(3); if (kind == 0) { spec = "bleu"; if (s.coin()) spec += ":order=" + num(s.range(1, 5)); } else if (kind == 1) spec = "interp:1|bleu|2|ter"; else spec = "ainterp:A|bleu:smooth=1|B|ribes|A*B";
  Data d = gen_data(s, 2, 5); M m(EvalMeasureLoader::CreateMeasureFromString(spec)), plain(EvalMeasureLoader::CreateMeasureFromString(spec)); int n = d.ref.size(), calls = s.range(2, 12); s.log << spec << "\n"; bool hit = false; set<int> seen;
  for (int k = 0; k < calls; k++) { int r = s.below(n), h = s.below(n); bool cr = s.coin(3, 4), ch = s.coin(3, 4); int ri = cr ? 2 * r : INT_MAX, hi = ch ? 2 * h + 1 : INT_MAX; if (seen.count(ri) || seen.count(hi)) hit = true; if (cr) seen.insert(ri); if (ch) seen.insert(hi); s.log << r << (cr ? "c" : "") << " " << h << (ch ? "c" : "") << "\n"; St got;
    if (kind == 0 && s.coin()) got = ((EvalMeasureBleu&)*m).CalculateStats(d.ref[r], d.sys[h], ri, hi); else if (s.coin()) { vector<Sentence> a(1, d.ref[r]), b(1, d.sys[h]); got = m->CalculateCachedStats(a, b, ri, hi); } else { vector<Sentence> a(1, d.ref[r]); CfgDataVector b(1); b[0].words = d.sys[h]; got = m->CalculateCachedStats(a, b, ri, hi); }
    St w = plain->CalculateStats(d.ref[r], d.sys[h]); CHECK(got->Equals(*w), "call " << k << ": " << got->WriteStats() << ", uncached " << w->WriteStats());
    if (s.coin(1, 6)) { m->ClearCache(); s.log << "cleared\n"; // ids may then stand for other sentences
      if (kind == 0) { swap(d.ref[0], d.ref[n - 1]); swap(d.sys[0], d.sys[n - 1]); s.label("reused ids"); } seen.clear(); } }
  s.nontrivial(hit);
}

PROP(factors, 4000, 40000) {   // factor=k looks at the k-th factor only
  Data a = gen_data(s, 1, 3), b = gen_data(s, a.ref.size(), a.ref.size()); int f = s.below(2); string with, without; for (;;) { with = simple(s, false, f); if (f == 0 || with.find("factor") != string::npos) break; } without = with; size_t p = without.find("factor=1"); if (p != string::npos) { size_t q = p + 8; if (q < without.size() && without[q] == ',') q++; else if (p && without[p - 1] == ',') p--; without.erase(p, q - p); if (!without.empty() && without[without.size() - 1] == ':') without.erase(without.size() - 1); } s.log << with << " against " << without << "\n"; s.sync();
  M m(EvalMeasureLoader::CreateMeasureFromString(with)), w(EvalMeasureLoader::CreateMeasureFromString(without)); vector<vector<Sentence> > refs; size_t n = min(a.ref.size(), b.ref.size()); for (size_t i = 0; i < n; i++) { vector<Sentence> x; x.push_back(a.ref[i]); x.push_back(b.ref[i]); refs.push_back(x); } m->InitializeWithReferences(refs); w->InitializeWithReferences(refs);
  for (size_t i = 0; i < n; i++) { vector<Sentence> x; x.push_back(a.sys[i]); x.push_back(b.sys[i]); const Data& d = f ? b : a; St want = w->CalculateStats(d.ref[i], d.sys[i]); CHECK(m->CalculateCachedStats(refs[i], x)->Equals(*want), "sentence " << i); CfgDataVector c(2); c[0].words = a.sys[i]; c[1].words = b.sys[i]; CHECK(m->CalculateCachedStats(refs[i], c)->Equals(*want), "sentence " << i << " (target data)"); }
  s.nontrivial(f == 1);
}

PROP(options, 4000, 40000) {   // option strings against constructors, and options that do not exist
  Data d = gen_data(s, 1, 3); s.sync(); double a = s.range(0, 8) / 8.0, b = s.range(0, 8) / 8.0; bool inv = s.coin(); int o = s.range(1, 5); vector<pair<string, boost::shared_ptr<EvalMeasure> > > v; auto add = [&](const string& t, EvalMeasure* m) { v.push_back(make_pair(t, boost::shared_ptr<EvalMeasure>(m))); };
  add("ribes:beta=" + num(b) + ",alpha=" + num(a), new EvalMeasureRibes(a, b)); add(string("ter:inverse=") + (inv ? "true" : "false"), new EvalMeasureTer(inv)); add(string("wer:reverse=") + (inv ? "true" : "false"), new EvalMeasureWer(inv)); add("zeroone", new EvalMeasureZeroOne); add("nist:beta=" + num(b) + ",order=" + num(o), new EvalMeasureNist(o, CORPUS_NIST, b));
  add("bleu:smooth=" + num(a) + ",order=" + num(o) + ",inverse=" + (inv ? "true" : "false") + ",scope=sentence", new EvalMeasureBleu(o, a, SENTENCE, 1.0, GEOMETRIC, inv)); add("bleu:mean=arith,brev=false,prec=" + num(b), new EvalMeasureBleu(4, 0, CORPUS, b, ARITHMETIC, false, false));
  vector<boost::shared_ptr<EvalMeasure> > ms; ms.push_back(boost::shared_ptr<EvalMeasure>(new EvalMeasureWer)); ms.push_back(boost::shared_ptr<EvalMeasure>(new EvalMeasureRibes(a, b))); vector<Real> co; co.push_back(a + 0.5); co.push_back(b); add("interp:" + num(a + 0.5) + "|wer|" + num(b) + "|ribes:alpha=" + num(a) + ",beta=" + num(b), new EvalMeasureInterp(ms, co));
  vector<WordId> vars; vars.push_back(Dict::WID("P")); vars.push_back(Dict::WID("Q")); add("ainterp:P|wer|Q|ribes:alpha=" + num(a) + ",beta=" + num(b) + "|P-2*Q", new EvalMeasureAdvInterp(ms, vars, "P-2*Q"));
  for (auto& p : v) { M m(EvalMeasureLoader::CreateMeasureFromString(p.first)); m->InitializeWithReferences(d.refs); p.second->InitializeWithReferences(d.refs); for (size_t i = 0; i < d.ref.size(); i++) { St x = m->CalculateStats(d.ref[i], d.sys[i]), y = p.second->CalculateStats(d.ref[i], d.sys[i]); CHECK(x->Equals(*y), p.first); CHECK_EQ(x->ConvertToString(), y->ConvertToString(), p.first); } }
  static const char* BAD[] = {"", "BLEU", "blue", "bleu:", "bleu:order", "bleu:order=x", "bleu:foo=1", "bleu:scope=word", "bleu:mean=harm", "bleu:inverse=yes", "bleu:brev=1", "bleu:order=2,,smooth=1", "ribes:gamma=1", "ribes:alpha=a", "ter:inverse=1", "ter:reverse=true", "wer:reverse=0", "wer:inverse=true", "nist:scope=x", "nist:smooth=1", "interp:", "interp:1", "interp:1|bleu|2", "interp:x|bleu", "interp:1|nope", "ainterp:A|bleu", "ainterp:a|bleu|a", "ainterp:AB|bleu|AB", "ainterp:A|nope|A", "ribes:alpha=0.5=1"};
  int k = s.below(30); bool ok = false; try { M m(EvalMeasureLoader::CreateMeasureFromString(BAD[k])); if (string(BAD[k]) == "bleu:" || string(BAD[k]) == "ter:") ok = false; else ok = true; } catch (const exception&) {} CHECK(!ok, "accepted '" << BAD[k] << "'"); s.nontrivial(true);
}
PBT_MAIN("h_evalstats")
