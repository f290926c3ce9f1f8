// C23: the shared configuration reader against a list-of-settings model.
#include "tree.h"
#include <travatar/config-base.h>
#include <sys/wait.h>
#include <unistd.h>
#include <regex>
#include <climits>
using namespace tg;

struct Conf : public ConfigBase { void Limits(int lo, int hi) { minArgs_ = lo; maxArgs_ = hi; } };
struct Opt { string name, val, desc; };
struct Model { vector<Opt> o; vector<string> mainargs; int lo, hi;
  Opt* find(const string& n) { for (auto& x : o) if (x.name == n) return &x; return 0; } };

// ---- what a value says, read without the code under test ----
static bool int_of(const string& v, long long& r) {                 // [blank] [sign] digits [blank]
  size_t i = 0, e = v.size(); while (i < e && strchr(" \t", v[i])) i++; while (e > i && strchr(" \t", v[e - 1])) e--; bool neg = false; if (i < e && (v[i] == '-' || v[i] == '+')) neg = v[i++] == '-';
  if (i == e) return false; __int128 x = 0; for (; i < e; i++) { if (v[i] < '0' || v[i] > '9') return false; if (x < ((__int128)1 << 100)) x = x * 10 + (v[i] - '0'); } if (neg) x = -x; if (x < INT_MIN || x > INT_MAX) return false; r = (long long)x; return true;
}
static bool real_of(const string& v, double& r) {
  size_t i = 0, e = v.size(); while (i < e && strchr(" \t", v[i])) i++; while (e > i && strchr(" \t", v[e - 1])) e--; bool neg = false; if (i < e && (v[i] == '-' || v[i] == '+')) neg = v[i++] == '-';
  long double m = 0; int dig = 0, ex = 0; for (; i < e && isdigit(v[i]); i++) { m = m * 10 + (v[i] - '0'); dig++; } if (i < e && v[i] == '.') for (i++; i < e && isdigit(v[i]); i++) { m = m * 10 + (v[i] - '0'); ex--; dig++; } if (!dig) return false;
  if (i < e && (v[i] == 'e' || v[i] == 'E')) { i++; int sg = 1, x = 0, d = 0; if (i < e && (v[i] == '-' || v[i] == '+')) sg = v[i++] == '-' ? -1 : 1; for (; i < e && isdigit(v[i]); i++) { x = x * 10 + (v[i] - '0'); d++; } if (!d) return false; ex += sg * x; }
  if (i != e) return false; r = (double)((neg ? -1 : 1) * m * powl(10.0L, ex)); return true;
}
static bool is_option(const string& a) { return a.size() >= 2 && a[0] == '-' && !isdigit((unsigned char)a[1]) && a[1] != '.'; }

// ---- running the reader where it may exit ----
struct Out { bool refused; string out, err; int status; };
static Out contained(const std::function<void(ostream&)>& f, const string& dir) {
  string eo = dir + ".err", oo = dir + ".out"; pid_t pid = fork(); if (pid < 0) throw std::runtime_error("fork");
  if (pid == 0) { FILE* e = freopen(eo.c_str(), "w", stderr); (void)e; int rc = 0; { ofstream o(oo.c_str()); try { f(o); o.flush(); } catch (std::exception& x) { cerr << "\nREFUSED " << x.what() << endl; rc = 1; } } cerr.flush(); _exit(rc); }
  int st = 0; waitpid(pid, &st, 0); Out r; ifstream a(oo.c_str()), b(eo.c_str()); stringstream sa, sb; sa << a.rdbuf(); sb << b.rdbuf(); r.out = sa.str(); r.err = sb.str(); r.status = st; r.refused = !(WIFEXITED(st) && WEXITSTATUS(st) == 0); ::unlink(eo.c_str()); ::unlink(oo.c_str());
  CHECK(WIFEXITED(st) && WEXITSTATUS(st) <= 1, "the reader crashed (status " << st << "): " << r.err.substr(0, 1500)); if (r.refused) CHECK(r.err.size() > 1, "refused without a message"); return r;
}
static string tmpbase() { char b[200]; const char* t = getenv("TMPDIR"); snprintf(b, sizeof b, "%s/hcfg.%d", t ? t : "/tmp", (int)getpid()); return b; }

static string name(S& s) { static const char* N[] = {"threads", "nbest", "nbest_out", "weight_vals", "lm_file", "tm", "t", "search", "all_unk", "x", "config_file", "l1"}; string n = N[s.below(12)]; if (s.coin(1, 4)) n += "_" + string(1, 'a' + s.below(3)); return n; }
static string plain(S& s) { static const char* V[] = {"a", "true", "false", "file.txt", "/x/y", "lm=0.5", "b|c", "x y", "3", "[s]", "#h", "\"q\"", "caf\xc3\xa9", "a b|c d", "|", "a=b=c"}; return V[s.below(16)]; }
static string number(S& s) {
  string v; if (s.coin(1, 8)) v += " "; if (s.coin(1, 3)) v += s.coin(3, 4) ? "-" : "+"; int k = s.below(8);
  if (k == 0) v += string(s.range(1, 6), '0'); else if (k == 1) { static const char* B[] = {"2147483647", "2147483648", "2147483649", "4294967296", "99999999999999999999", "32768"}; v += B[s.below(6)]; } else { int d = s.range(1, 5); for (int i = 0; i < d; i++) v += '0' + s.below(10); }
  if (s.coin(1, 3)) { v += "."; int d = s.below(4); for (int i = 0; i < d; i++) v += '0' + s.below(10); } if (s.coin(1, 5)) { v += s.coin() ? "e" : "E"; if (s.coin()) v += s.coin() ? "-" : "+"; if (s.coin(7, 8)) v += to_string(s.below(12)); }
  if (s.coin(1, 8)) v += " "; if (s.coin(1, 8)) { static const char* J[] = {"x", ",", "-", " 1", "..", "e", "%", "|"}; v += J[s.below(8)]; } return v;
}
static string value(S& s) { int k = s.below(5); return k < 2 ? number(s) : k == 2 ? string(s.coin() ? "true" : "false") : plain(s); }

// the lines of a configuration section, the way a user lays a value out
static void section(S& s, string& text, const string& n, const string& v) {
  text += "[" + n + "]\n"; string rest = v; while (s.coin(1, 3)) { size_t p = rest.find(' '); if (p == string::npos || p == 0 || p + 1 == rest.size() || rest[p + 1] == ' ') break; text += rest.substr(0, p) + "\n"; rest = rest.substr(p + 1); } text += rest + "\n";
}

static void build(Conf& c, const Model& m) { for (auto& o : m.o) c.AddConfigEntry(o.name, o.val, o.desc); c.Limits(m.lo, m.hi); c.SetUsage("usage"); }
static string listing(const Model& m) { string t = "Main arguments:\n"; for (size_t i = 0; i < m.mainargs.size(); i++) t += " " + to_string(i) + ": " + m.mainargs[i] + "\n"; t += "Optional arguments:\n"; for (auto& o : m.o) if (!o.desc.empty()) t += " -" + o.name + " \t" + o.val + "\n"; return t; }

PROP(history, 4000, 120000) {
  Model m; int no = s.range(1, 7); set<string> seen; for (int i = 0; i < no; i++) { Opt o; o.name = name(s); if (!seen.insert(o.name).second) continue; o.val = s.coin(1, 4) ? "" : value(s); o.desc = s.coin(1, 6) ? "" : "what it does"; m.o.push_back(o); s.log << "option " << o.name << " = '" << o.val << "'" << (o.desc.empty() ? " (undocumented)" : "") << "\n"; }
  m.lo = s.below(3); m.hi = m.lo + s.below(3); if (s.coin(1, 3)) { m.lo = m.hi = 0; } Model init = m; vector<std::function<void(Conf&)> > steps; int ns = s.range(1, 5), cmds = 0, files = 0, overrides = 0; bool bad = false; string why; map<string, int> times; string base = tmpbase(); vector<string> tmps; string shown;
  for (int i = 0; i < ns && !bad; i++) {
    int kind = s.below(4); if (kind >= 2 && s.coin()) kind = s.below(2); if (kind == 0 && cmds && (m.hi > 0)) kind = 1;
    if (kind == 0) {                                               // a command line
      cmds++; vector<string> a; int na = s.below(6); for (int k = 0; k < na; k++) { int w = s.below(8); if (w < 5) { Opt* o = &m.o[s.below(m.o.size())]; a.push_back("-" + o->name); if (s.coin(3, 4)) { string v = value(s); a.push_back(v); } } else if (w < 7) a.push_back(s.coin(1, 5) ? "-" + to_string(s.below(9)) : s.coin(1, 6) ? "-" : plain(s)); else if (s.coin(1, 6)) a.push_back(s.coin() ? "-nosuch" : "--" + m.o[0].name); }
      if (s.coin()) { int have = 0; for (size_t k = 0; k < a.size(); k++) { if (is_option(a[k])) { if (k + 1 < a.size() && !is_option(a[k + 1])) k++; } else have++; } vector<string> extra; while (have++ < m.lo) extra.push_back("arg" + to_string(have)); a.insert(a.begin(), extra.begin(), extra.end()); }
      s.log << "command line:"; for (auto& x : a) s.log << " '" << x << "'"; s.log << "\n"; bool print = s.coin(2, 3);
      for (size_t k = 0; k < a.size(); k++) { if (is_option(a[k])) { Opt* o = m.find(a[k].substr(1)); if (!o) { bad = true; why = "unknown option on the command line"; break; } if (times[o->name]++) overrides++; if (k + 1 < a.size() && !is_option(a[k + 1])) o->val = a[++k]; else o->val = "true"; } else m.mainargs.push_back(a[k]); }
      if (!bad && ((int)m.mainargs.size() < m.lo || (int)m.mainargs.size() > m.hi)) { bad = true; why = "wrong number of main arguments"; }
      if (!bad && print) shown += listing(m);
      steps.push_back([a, print](Conf& c) { vector<string> b = a; b.insert(b.begin(), "prog"); vector<char*> p; for (auto& x : b) p.push_back(const_cast<char*>(x.c_str())); p.push_back(0); vector<string> got = c.LoadConfig((int)b.size(), p.data(), print); if (got != c.GetMainArgs()) { cerr << "main arguments returned differ" << endl; _exit(9); } });
    } else if (kind == 1) {                                        // a configuration file
      files++; string text; int n = s.below(5); bool damage = s.coin(1, 6); int at = damage ? s.below(n + 1) : -1;
      for (int k = 0; k <= n && !bad; k++) {
        while (s.coin(1, 4)) text += s.coin() ? "# a comment\n" : s.coin() ? "\n" : "#[threads]\n";
        if (k == at) { int d = s.below(6); if (d == 0) { text += "[" + m.o[0].name + "]\n\n"; why = "empty section"; } else if (d == 1) { text += m.o[0].name + "=3\n"; why = "line outside a section"; } else if (d == 2) { text += "[nosuch]\n1\n\n"; why = "unknown option"; } else if (d == 3) { text += "[]\n1\n\n"; why = "empty name"; } else if (d == 4) { text += "[" + m.o[0].name + s.pick<string>({"", ")", "x", "] "}) + "\n1\n\n"; why = "unclosed name"; } else { text += s.pick<string>({"", "(", "x", " ["}) + m.o[0].name + "]\n1\n\n"; why = "unopened name"; } bad = true; break; }
        if (k == n) break;
        Opt* o = &m.o[s.below(m.o.size())]; string v = value(s); section(s, text, o->name, v); if (!(k == n - 1 && s.coin())) text += "\n"; else if (s.coin()) text.erase(text.size() - 1), k = n - 1; else k = n - 1; if (times[o->name]++) overrides++; o->val = v;
        if (k == n - 1 && (text.size() < 2 || text.substr(text.size() - 2) != "\n\n")) { if (at == n) at = -1; break; }
      }
      s.log << "file:\n" << text << "--- end of file\n"; string f = base + ".cfg" + to_string(i); bool missing = !bad && s.coin(1, 30); if (missing) { bad = true; why = "no such file"; } else { ofstream o(f.c_str()); o << text; tmps.push_back(f); } steps.push_back([f](Conf& c) { c.LoadConfig(f); });
    } else if (kind == 2) { Opt* o = &m.o[s.below(m.o.size())]; string n = o->name, v = value(s); if (times[n]++) overrides++; o->val = v; s.log << "set " << n << " '" << v << "'\n"; steps.push_back([n, v](Conf& c) { c.SetString(n, v); }); }
    else { Opt* o = &m.o[s.below(m.o.size())]; string n = o->name; if (times[n]++) overrides++; if (s.coin()) { int v = s.range(-5, 5000000); o->val = to_string(v); s.log << "set " << n << " " << v << "\n"; steps.push_back([n, v](Conf& c) { c.SetInt(n, v); }); } else { bool v = s.coin(); o->val = v ? "true" : "false"; s.log << "set " << n << " " << o->val << "\n"; steps.push_back([n, v](Conf& c) { c.SetBool(n, v); }); } }
  }
  // read everything back as text
  s.sync(); vector<string> names; for (auto& o : m.o) names.push_back(o.name); int nm = (int)m.mainargs.size();
  Out r = contained([&](ostream& o) { Conf c; build(c, init); for (auto& f : steps) f(c); for (auto& n : names) { o << n << "\n" << c.GetString(n) << "\n"; vector<string> v = c.GetStringArray(n); o << v.size() << "\n"; for (auto& x : v) o << x << "\n"; } o << c.GetMainArgs().size() << "\n"; for (int i = 0; i < nm; i++) o << c.GetMainArg(i) << "\n"; }, base);
  for (auto& f : tmps) ::unlink(f.c_str());
  if (bad) { CHECK(r.refused, "accepted although: " << why); s.label("refused: " + why); s.nontrivial(); return; }
  CHECK(!r.refused, "refused a good configuration: " << r.err);
  ostringstream want; for (auto& x : m.o) { want << x.name << "\n" << x.val << "\n"; vector<string> v; if (!x.val.empty()) { v.push_back(""); for (char c : x.val) if (c == ' ' || c == '|') v.push_back(""); else v.back() += c; } want << v.size() << "\n"; for (auto& y : v) want << y << "\n"; } want << nm << "\n"; for (auto& y : m.mainargs) want << y << "\n";
  CHECK_EQ(r.out, want.str(), "what the options hold"); CHECK(r.err.find(shown) != string::npos, "the configuration printed was\n" << r.err << "\nexpected\n" << shown);
  s.nontrivial(cmds + files >= 1 && times.size() >= 1); if (overrides) s.label("overridden"); if (cmds && files) s.label("command line and file"); if (times.size() < m.o.size()) s.label("defaults kept");
}

PROP(typed, 7000, 240000) {
  string v = s.coin(1, 6) ? plain(s) : s.coin(1, 6) ? (s.coin() ? "true" : s.coin() ? "false" : "True") : number(s); int kind = s.below(5); static const char* K[] = {"integer", "real", "boolean", "integer list", "unknown name"}; if (kind == 3 && s.coin()) { v = ""; int n = s.below(4); for (int i = 0; i < n; i++) v += (i ? (s.coin() ? " " : "|") : "") + (s.coin(1, 9) ? plain(s) : to_string((int)s.below(3000) - 100)); } bool def = s.coin(); s.log << K[kind] << " '" << v << "'\n"; s.sync();
  Out r = contained([&](ostream& o) { Conf c; c.Limits(0, 0); c.AddConfigEntry("opt", def ? v : "0", "d"); c.AddConfigEntry("other", "7", "d"); if (!def) c.SetString("opt", v); o.precision(17); if (kind == 0) o << c.GetInt("opt"); else if (kind == 1) o << c.GetReal("opt"); else if (kind == 2) o << c.GetBool("opt"); else if (kind == 3) { vector<int> a = c.GetIntArray("opt"); o << a.size(); for (int x : a) o << " " << x; } else if (v.size() % 2) o << c.GetString(v); else c.SetString(v, "1"); }, tmpbase());
  if (kind == 4) { if (v == "opt" || v == "other") return; CHECK(r.refused, "an option called '" << v << "' was found"); return; }
  long long iv; double rv; string want; bool ok; if (kind == 0) { ok = int_of(v, iv); want = to_string(iv); } else if (kind == 1) { ok = real_of(v, rv); } else if (kind == 2) { ok = v == "true" || v == "false"; want = v == "true" ? "1" : "0"; } else { ok = true; vector<string> p; if (!v.empty()) { p.push_back(""); for (char c : v) if (c == ' ' || c == '|') p.push_back(""); else p.back() += c; } want = to_string(p.size()); for (auto& x : p) { if (!int_of(x, iv) || x.find_first_of(" \t") != string::npos) ok = false; else want += " " + to_string(iv); } }
  CHECK_EQ(!r.refused, ok, "'" << v << "' as " << K[kind] << " gives " << (r.refused ? "an error" : r.out)); if (!ok) { s.label(string("refused ") + K[kind]); s.nontrivial(); return; }
  if (kind == 1) { double got = atof(r.out.c_str()); CHECK(fabs(got - rv) <= 1e-6 * max(1e-30, fabs(rv)) || got == rv, "'" << v << "' read as " << r.out << ", not " << rv); } else CHECK_EQ(r.out, want, "'" << v << "' as " << K[kind]); s.label(string("read ") + K[kind]); s.nontrivial(v.size() > 1);
}
PROP(round_trip, 1500, 60000) {
  double x = s.coin(1, 6) ? 0 : (double)((long)s.below(2000001) - 1000000) * pow(10.0, (int)s.below(12) - 8); int i = s.coin(1, 6) ? (s.coin() ? INT_MAX : INT_MIN) : (int)s.below(2000001) - 1000000; s.log << x << " " << i << "\n"; s.sync();
  Out r = contained([&](ostream& o) { Conf c; c.Limits(0, 0); c.AddConfigEntry("r", "", "d"); c.AddConfigEntry("i", "", "d"); c.SetReal("r", x); c.SetInt("i", i); o.precision(17); o << c.GetReal("r") << " " << c.GetInt("i"); }, tmpbase()); CHECK(!r.refused, "refused its own text: " << r.err); istringstream in(r.out); double y; int j; in >> y >> j; CHECK(fabs(x - y) <= 1e-5 * fabs(x), "real " << x << " became " << y); CHECK_EQ(j, i, "integer"); s.nontrivial(x != 0);
}
PBT_MAIN("h_config")
