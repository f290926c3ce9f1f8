// C19: formula queries against a recursive-descent reference evaluator.
#include "pbt.h"
#include <travatar/math-query.h>
#include <travatar/dict.h>
using namespace std; using namespace travatar; using pbt::S;

struct Bad {};
struct Ref {   // the grammar: sums of products of numbers, one-letter variables and bracketed formulas
  const string& q; const map<char, double>& v; size_t p; Ref(const string& q_, const map<char, double>& v_) : q(q_), v(v_), p(0) {}
  void ws() { while (p < q.size() && q[p] == ' ') p++; }
  double atom() { ws(); if (p >= q.size()) throw Bad(); char c = q[p];
    if (c == '(') { p++; double x = sum(); ws(); if (p >= q.size() || q[p] != ')') throw Bad(); p++; return x; }
    if (c >= 'A' && c <= 'Z') { auto it = v.find(c); if (it == v.end()) throw Bad(); p++; return it->second; }
    if (c >= '0' && c <= '9') { size_t b = p; int dots = 0; while (p < q.size() && (isdigit(q[p]) || q[p] == '.')) dots += q[p++] == '.'; if (dots > 1) throw Bad(); return strtod(q.substr(b, p - b).c_str(), 0); }
    throw Bad(); }
  double product() { double x = atom(); for (;;) { ws(); if (p < q.size() && q[p] == '*') { p++; x *= atom(); } else if (p < q.size() && q[p] == '/') { p++; x /= atom(); } else return x; } }
  double sum() { double x = product(); for (;;) { ws(); if (p < q.size() && q[p] == '+') { p++; x += product(); } else if (p < q.size() && q[p] == '-') { p++; x -= product(); } else return x; } }
  double all() { double x = sum(); ws(); if (p != q.size()) throw Bad(); return x; }
};
static string num(S& s) { static const char* N[] = {"0", "1", "2", "3", "10", "0.5", "2.5", "100", "1.", "007", "0.001", "123456.789", "9"}; return s.coin(3, 4) ? N[s.below(13)] : to_string(s.below(100000)) + (s.coin() ? "." + to_string(s.below(1000)) : ""); }
static const char* OPS[] = {"+", "-", "*", "/"};
static void gen(S& s, int depth, const string& vars, vector<string>& o) {
  int k = depth <= 0 ? s.below(2) : s.below(5);
  if (k == 0 || (k == 1 && vars.empty())) o.push_back(num(s)); else if (k == 1) o.push_back(string(1, vars[s.below(vars.size())]));
  else if (k == 2) { o.push_back("("); gen(s, depth - 1, vars, o); o.push_back(")"); }
  else { int n = s.range(2, 4); for (int i = 0; i < n; i++) { if (i) o.push_back(OPS[s.below(4)]); gen(s, depth - 1, vars, o); } }
}
static map<char, double> bind(S& s, string& vars) { map<char, double> m; int n = s.below(4); for (int i = 0; i < n; i++) { char c = "ABZMXQ"[s.below(6)]; if (!m.count(c)) { m[c] = s.coin() ? s.quarter(5) : s.coin(1, 8) ? 0.0 : s.real(1000); vars += c; } } return m; }
static void check(S& s, const string& q, const map<char, double>& v) {
  map<WordId, Real> m; for (auto& p : v) m[Dict::WID(string(1, p.first))] = p.second;
  double want = 0; bool bad = false; try { Ref r(q, v); want = r.all(); } catch (Bad&) { bad = true; }
  s.log << "'" << q << "' with"; for (auto& p : v) s.log << " " << p.first << "=" << pbt::show(p.second); s.log << (bad ? " is malformed" : " is " + pbt::show(want)) << "\n"; s.sync();
  double got = 0; bool threw = false; try { got = MathQuery::Evaluate(m, q); } catch (exception& e) { threw = true; }
  if (bad) { CHECK(threw, "malformed query '" << q << "' was evaluated to " << got); s.label("malformed"); }
  else { CHECK(!threw, "well-formed query '" << q << "' was refused"); if (isfinite(want)) CHECK(isfinite(got) && fabs(got - want) <= 1e-9 * max(1.0, fabs(want)) , "value of '" << q << "' is " << pbt::show(got) << ", expected " << pbt::show(want)); else CHECK(pbt::near(got, want, 0), "value of '" << q << "' is " << got << ", expected " << want); s.label(isfinite(want) ? "finite" : "infinite"); }
  if (bad) return;
  MathQuery mq(q, m); double again = MathQuery::Evaluate(mq); CHECK(pbt::near(again, got, 0), "evaluating a parsed query gives " << again << ", the string gives " << got); again = MathQuery::Evaluate(mq); CHECK(pbt::near(again, got, 0), "evaluating a parsed query twice");
}
static string join(S& s, const vector<string>& t, bool spaces) { string q; for (auto& x : t) { if (spaces) q += string(s.coin(1, 3) ? s.range(1, 3) : 0, ' '); q += x; } if (spaces && s.coin(1, 4)) q += " "; return q; }
PROP(formulas, 60000, 2000000) {
  string vars; map<char, double> v = bind(s, vars); vector<string> t; gen(s, s.range(0, 4), vars, t); if (t.size() > 200) throw pbt::Discard(); string q = join(s, t, s.coin()); check(s, q, v); int ops = 0; set<char> kinds; for (char c : q) if (strchr("+-*/", c)) ops++, kinds.insert(c); s.nontrivial(ops >= 2 && kinds.size() >= 2);
}
// Damaged formulas and arbitrary token sequences.
PROP(malformed, 60000, 2000000) {
  string vars; map<char, double> v = bind(s, vars); vector<string> t; static const char* TOK[] = {"1", "2.5", "A", "Z", "(", ")", "+", "-", "*", "/", ".", "a", "^", "1.2.3", "()", "%", "\t", ",", "x"};
  if (s.coin(2, 3)) { gen(s, s.range(0, 3), vars, t); int n = s.range(1, 2); for (int i = 0; i < n; i++) { int k = s.below(4); size_t p = s.below(t.size()); if (k == 0) { t.erase(t.begin() + p); if (t.empty()) break; } else if (k == 1) t.insert(t.begin() + p, TOK[s.below(19)]); else if (k == 2) t[p] = TOK[s.below(19)]; else swap(t[p], t[s.below(t.size())]); } }
  else { int n = s.range(0, 7); for (int i = 0; i < n; i++) t.push_back(TOK[s.below(s.coin() ? 10 : 19)]); }
  string q = join(s, t, s.coin()); check(s, q, v); s.nontrivial(t.size() >= 3);
}
PBT_MAIN("h_math")
