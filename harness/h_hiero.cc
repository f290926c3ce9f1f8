// C09: hierarchical rule extraction against the definition, over whole corpora.
#include "tgen.h"
#include <travatar/hiero-extractor-runner.h>
#include <travatar/config-hiero-extractor-runner.h>
#include <travatar/hiero-extractor.h>
#include <travatar/alignment.h>
using namespace tg; using pbt::show; typedef vector<string> Words; typedef set<pair<int, int> > Al;

static string run(const Words& args) {
  vector<const char*> av; av.push_back("hiero-extractor"); for (auto& a : args) av.push_back(a.c_str()); ConfigHieroExtractorRunner c; Words keep(args); ostringstream o; streambuf* old = cout.rdbuf(o.rdbuf());
  try { c.LoadConfig(av.size(), (char**)&av[0], false); HieroExtractorRunner r; r.Run(c); } catch (...) { cout.rdbuf(old); throw; } cout.rdbuf(old); return o.str();
}
struct Ph { int s0, s1, t0, t1; };
// phrases: per source span the tightest consistent target span
static vector<Ph> phrases(int S, int T, const Al& al, int maxp) {
  vector<Ph> r; for (int a = 0; a < S; a++) for (int b = a; b < S && b - a + 1 <= maxp; b++) { int t0 = T, t1 = -1; for (auto& l : al) if (l.first >= a && l.first <= b) t0 = min(t0, l.second), t1 = max(t1, l.second); if (t1 < 0 || t1 - t0 + 1 > maxp) continue; bool ok = true; for (auto& l : al) if (l.second >= t0 && l.second <= t1 && (l.first < a || l.first > b)) ok = false; if (ok) { Ph p = {a, b, t0, t1}; r.push_back(p); } } return r;
}
static bool inside(const Ph& a, const Ph& b) { return a.s0 >= b.s0 && a.s1 <= b.s1 && a.t0 >= b.t0 && a.t1 <= b.t1 && (a.s1 - a.s0 < b.s1 - b.s0 || a.t1 - a.t0 < b.t1 - b.t0); }
static bool apart(const Ph& a, const Ph& b) { return (a.s1 < b.s0 || b.s1 < a.s0) && (a.t1 < b.t0 || b.t1 < a.t0); }
// the rule of phrase p with sub-phrases v cut out (sorted by source position), "" if not allowed
static string rule(const Words& src, const Words& trg, const Al& al, const Ph& p, const vector<Ph>& v, int maxt) {
  string s, t; vector<int> sp, tp; int last = -2; bool adj = false; auto put = [](string& o, const string& x) { if (!o.empty()) o += " "; o += x; };
  for (int i = p.s0; i <= p.s1;) { int k = -1; for (size_t q = 0; q < v.size(); q++) if (v[q].s0 == i) k = q; if (k >= 0) { put(s, "x" + to_string(k) + ":X"); if (last == i) adj = true; i = v[k].s1 + 1; last = i; } else { put(s, "\"" + src[i] + "\""); sp.push_back(i); i++; } }
  for (int i = p.t0; i <= p.t1;) { int k = -1; for (size_t q = 0; q < v.size(); q++) if (v[q].t0 == i) k = q; if (k >= 0) { put(t, "x" + to_string(k) + ":X"); i = v[k].t1 + 1; } else { put(t, "\"" + trg[i] + "\""); tp.push_back(i); i++; } }
  if (sp.empty() || tp.empty() || (int)sp.size() > maxt || (int)tp.size() > maxt || adj) return "";
  string a; for (size_t x = 0; x < sp.size(); x++) for (size_t y = 0; y < tp.size(); y++) if (al.count(make_pair(sp[x], tp[y]))) a += (a.empty() ? "" : " ") + to_string(x) + "-" + to_string(y);
  return s + " @ X ||| " + t + " @ X ||| " + a;
}
static multimap<string, double> expected(const Words& src, const Words& trg, const Al& al, int maxp, int maxt, int& two, int& np) {
  multimap<string, double> r; vector<Ph> ps = phrases(src.size(), trg.size(), al, maxp); np = ps.size();
  for (auto& p : ps) { vector<string> g; auto add = [&](const vector<Ph>& v) { string x = rule(src, trg, al, p, v, maxt); if (x != "") { g.push_back(x); if (v.size() == 2) two++; } }; add({}); for (auto& a : ps) if (inside(a, p)) { add({a}); for (auto& b : ps) if (inside(b, p) && a.s1 < b.s0 && apart(a, b)) add({a, b}); } for (auto& x : g) r.insert(make_pair(x, 1.0 / g.size())); }
  return r;
}
PROP(rules, 25000, 500000) {
  int maxp = s.coin(1, 3) ? 10 : s.range(1, 6), maxt = s.coin(1, 3) ? 5 : s.range(1, 4), ns = s.coin(3, 4) ? 1 : s.range(2, 4); ostringstream So, To, Ao; multimap<string, double> want; int two = 0; bool edge = false; size_t nr = 0;
  for (int q = 0; q < ns; q++) {
    int n = s.range(1, s.thorough ? 9 : 7), m = s.range(1, s.thorough ? 9 : 7); Words a, b; for (int i = 0; i < n; i++) a.push_back(word(s.below(5))); for (int i = 0; i < m; i++) b.push_back(string(1, 'u' + s.below(4))); if (s.coin(1, 10)) a[s.below(n)] = "\"x0:X\"";
    Al al; int links = s.range(0, n + 2); int style = s.below(3); for (int i = 0; i < links; i++) { int x = s.below(n), y = style == 0 ? s.below(m) : style == 1 ? min(m - 1, x * m / n) : max(0, min(m - 1, (n - 1 - x) * m / n)); if (style && s.coin(1, 5)) y = s.below(m); al.insert(make_pair(x, y)); }
    auto line = [](const Words& w) { string r; for (size_t i = 0; i < w.size(); i++) r += (i ? " " : "") + w[i]; return r; };
    vector<pair<int, int> > v(al.begin(), al.end()); for (size_t i = v.size(); i > 1; i--) swap(v[i - 1], v[s.below(i)]); So << line(a) << "\n"; To << line(b) << "\n"; for (size_t i = 0; i < v.size(); i++) Ao << (i ? " " : "") << v[i].first << "-" << v[i].second; Ao << "\n";
    int np; auto e = expected(a, b, al, maxp, maxt, two, np); want.insert(e.begin(), e.end()); set<int> sa, ta; for (auto& l : al) sa.insert(l.first), ta.insert(l.second); if (!sa.count(0) && !ta.count(0)) edge = true; if (!sa.count(n - 1)) s.label("last source word unaligned"); (void)nr;
    // the phrase list itself
    Sentence sa_, tb_; for (auto& x : a) sa_.push_back(Dict::WID(x)); for (auto& x : b) tb_.push_back(Dict::WID(x)); Alignment A; for (auto& l : al) A.AddAlignment(l); HieroExtractor ex; ex.SetMaxInitialPhrase(maxp); ex.SetMaxTerminals(maxt); s.log << line(a) << " / " << line(b) << " / " << show(v) << " phrase " << maxp << " terminals " << maxt << "\n"; s.sync();
    auto ph = ex.ExtractPhrase(A, sa_, tb_); set<HieroExtractor::PhrasePair> got(ph.begin(), ph.end()), all; CHECK_EQ(got.size(), ph.size(), "phrases listed twice");
    for (int x = 0; x < n; x++) for (int y = x; y < n && y - x < maxp; y++) for (int u = 0; u < m; u++) for (int w = u; w < m && w - u < maxp; w++) { bool any = false, ok = true; for (auto& l : al) { bool i = l.first >= x && l.first <= y, j = l.second >= u && l.second <= w; if (i && j) any = true; if (i != j) ok = false; } if (any && ok) all.insert(make_pair(make_pair(x, y), make_pair(u, w))); }
    for (auto& p : all) CHECK(got.count(p), "consistent phrase pair " << show(p.first) << " " << show(p.second) << " is missing"); for (auto& p : got) CHECK(all.count(p), "phrase pair " << show(p.first) << " " << show(p.second) << " is not consistent or too long");
  }
  string d = pbt::scratch(); pbt::spew(d + "/s", So.str()); pbt::spew(d + "/t", To.str()); pbt::spew(d + "/a", Ao.str()); Words args; if (maxp != 10 || s.coin()) { args.push_back("-max_initial_phrase"); args.push_back(to_string(maxp)); } if (maxt != 5 || s.coin()) { args.push_back("-max_terminals"); args.push_back(to_string(maxt)); } args.push_back(d + "/s"); args.push_back(d + "/t"); args.push_back(d + "/a"); string out = run(args);
  map<string, vector<double> > g, w; for (auto& x : want) w[x.first].push_back(x.second); istringstream is(out); string l; while (getline(is, l)) { Words c; size_t p = 0; for (;;) { size_t q = l.find(" ||| ", p); c.push_back(l.substr(p, q == string::npos ? q : q - p)); if (q == string::npos) break; p = q + 5; } CHECK_EQ(c.size(), (size_t)4, "columns of '" << l << "'"); istringstream ai(c[3]); vector<pair<int, int> > al; string t; while (ai >> t) { int a, b; CHECK(sscanf(t.c_str(), "%d-%d", &a, &b) == 2, "alignment of '" << l << "'"); al.push_back(make_pair(a, b)); } sort(al.begin(), al.end()); string as; for (auto& x : al) as += (as.empty() ? "" : " ") + to_string(x.first) + "-" + to_string(x.second); g[c[0] + " ||| " + c[1] + " ||| " + as].push_back(atof(c[2].c_str())); }
  for (auto& x : w) CHECK(g.count(x.first), "missing rule " << x.first); for (auto& x : g) { CHECK(w.count(x.first), "unexpected rule " << x.first); auto a = x.second, b = w[x.first]; sort(a.begin(), a.end()); sort(b.begin(), b.end()); CHECK_EQ(a.size(), b.size(), "times of rule " << x.first); for (size_t i = 0; i < a.size(); i++) CHECK_NEAR(a[i], b[i], 1e-5, "count of rule " << x.first); }
  if (two) s.label("two variables"); if (edge) s.label("both first words unaligned"); s.nontrivial(want.size() >= 5);
}
PROP(mismatch, 300, 2000) {
  int n[3]; for (int i = 0; i < 3; i++) n[i] = s.range(1, 3); Words body = {"a b", "u v", "0-0 1-1"}; string d = pbt::scratch(); const char* f[] = {"/s", "/t", "/a"}; Words args; for (int i = 0; i < 3; i++) { string x; for (int k = 0; k < n[i]; k++) x += body[i] + "\n"; pbt::spew(d + f[i], x); args.push_back(d + f[i]); } s.log << n[0] << " " << n[1] << " " << n[2] << " lines\n"; bool threw = false; try { run(args); } catch (std::exception&) { threw = true; } CHECK_EQ(threw, n[0] != n[1] || n[1] != n[2], "files of different lengths must be refused"); s.nontrivial(threw);
}
PROP(outside, 1500, 10000) {
  int n = s.range(1, 4), m = s.range(1, 4); Words a, b; for (int i = 0; i < n; i++) a.push_back(word(s.below(5))); for (int i = 0; i < m; i++) b.push_back(word(s.below(5))); auto line = [](const Words& w) { string r; for (size_t i = 0; i < w.size(); i++) r += (i ? " " : "") + w[i]; return r; };
  bool bad = false; string al; int k = s.range(0, 4); for (int i = 0; i < k; i++) { int x = s.below(n + (s.coin(1, 4) ? 3 : 0)), y = s.below(m + (s.coin(1, 4) ? 3 : 0)); if (x >= n || y >= m) bad = true; al += (i ? " " : "") + to_string(x) + "-" + to_string(y); }
  string d = pbt::scratch(); pbt::spew(d + "/s", line(a) + "\n"); pbt::spew(d + "/t", line(b) + "\n"); pbt::spew(d + "/a", al + "\n"); s.log << line(a) << " / " << line(b) << " / " << al << "\n"; s.sync(); bool threw = false; try { run(Words{d + "/s", d + "/t", d + "/a"}); } catch (std::exception&) { threw = true; }
  CHECK_EQ(threw, bad, "an alignment is refused exactly when it points outside the sentences"); s.nontrivial(bad);
}
PBT_MAIN("h_hiero")
