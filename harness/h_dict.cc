// C05: vocabulary, rule sides, features, alignments: text <-> data.
#include "tree.h"
#include <travatar/symbol-set.h>
#include <travatar/alignment.h>
#include <travatar/string-util.h>
#include <travatar/io-util.h>
using namespace tg;

// ---- vocabulary: history against a list ----
static string bytes(S& s) { if (s.coin(2, 3)) return token(s, "", true); string r; int n = s.below(5); for (int i = 0; i < n; i++) r += (char)s.below(256); return r; }
PROP(symbols, 25000, 500000) {
  bool safe = s.coin(); SymbolSet<int> set_(safe); vector<string> model; map<string, int> idx; int steps = s.range(1, s.thorough ? 200 : 40); std::unique_ptr<SymbolSet<int> > copy; vector<string> cmodel; vector<const string*> refs; int dup = 0;
  for (int i = 0; i < steps; i++) {
    switch (s.below(6)) {
      case 0: case 1: case 2: { string w = model.size() && s.coin(1, 3) ? s.pick(model) : bytes(s); s.log << "add " << pbt::jesc(w) << "\n"; int id = set_.GetId(w, true); if (idx.count(w)) { dup++; CHECK_EQ(id, idx[w], "id of known word " << w); } else { CHECK_EQ(id, (int)model.size(), "id of new word"); idx[w] = id; model.push_back(w); refs.push_back(&set_.GetSymbol(id)); } break; }
      case 3: { string w = model.size() && s.coin() ? s.pick(model) : bytes(s); s.log << "find " << pbt::jesc(w) << "\n"; const SymbolSet<int>& c = set_; int a = s.coin() ? c.GetId(w) : set_.GetId(w, false); CHECK_EQ(a, idx.count(w) ? idx[w] : -1, "lookup"); break; }
      case 4: { s.log << "copy\n"; copy.reset(new SymbolSet<int>(set_)); cmodel = model; break; }
      case 5: { bool nl = false; for (auto& w : model) if (w.find('\n') != string::npos) nl = true; if (nl) break; s.log << "write/read\n"; ostringstream o; set_.ToStream(o); istringstream in(o.str()); std::unique_ptr<SymbolSet<int> > r(SymbolSet<int>::FromStream(in)); CHECK_EQ(r->size(), model.size(), "size after reading back"); for (size_t k = 0; k < model.size(); k++) CHECK_EQ(r->GetSymbol(k), model[k], "symbol after reading back"); break; }
    }
    s.sync(); CHECK_EQ(set_.size(), model.size(), "size"); for (size_t k = 0; k < model.size(); k++) { CHECK_EQ(set_.GetSymbol(k), model[k], "symbol " << k); CHECK_EQ(*refs[k], model[k], "earlier reference to symbol " << k); }
    if (copy) { CHECK_EQ(copy->size(), cmodel.size(), "copy size"); for (size_t k = 0; k < cmodel.size(); k++) CHECK_EQ(copy->GetSymbol(k), cmodel[k], "symbol of the copy"); }
  }
  s.nontrivial(model.size() >= 3 && dup);
}
PROP(words, 20000, 300000) {
  map<string, int> ids; int n = s.range(1, 6); vector<string> first; vector<vector<string> > lines;
  for (int i = 0; i < n; i++) {
    vector<string> w; int k = s.below(7); string text; for (int j = 0; j < k; j++) { w.push_back(token(s, "", true)); text += (j || s.coin(1, 6) ? (s.coin(1, 5) ? " \t " : " ") : "") + w.back(); } if (s.coin(1, 6)) text += " \n"; s.log << text << "\n"; s.sync(); lines.push_back(w);
    Sentence st = Dict::ParseWords(text); CHECK_EQ(st.size(), w.size(), "number of words of '" << text << "'"); string canon; for (size_t j = 0; j < w.size(); j++) { CHECK_EQ(Dict::WSym(st[j]), w[j], "word " << j); CHECK_EQ(Dict::WID(w[j]), st[j], "id"); auto it = ids.find(w[j]); if (it != ids.end()) CHECK_EQ(st[j], it->second, "id changed for " << w[j]); ids[w[j]] = st[j]; canon += (j ? " " : "") + w[j]; }
    CHECK_EQ(Dict::PrintWords(st), canon, "printed words");
  }
  set<int> u; for (auto& p : ids) { CHECK(u.insert(p.second).second, "one id for two words"); CHECK_EQ(Dict::WSym(p.second), p.first, "word of id"); }
  // several factors in one line
  string all; CfgDataVector cv; bool col = false; for (size_t i = 0; i < lines.size(); i++) { string t; CfgData d; for (auto& w : lines[i]) { if (w == "|COL|") col = true; t += (t.empty() ? "" : " ") + w; d.words.push_back(Dict::WID(w)); } all += (i ? " |COL| " : "") + t; cv.push_back(d); }
  if (!col) { CHECK_EQ(Dict::PrintWords(cv), all, "printed factors"); vector<Sentence> p = Dict::ParseWordVector(all); CHECK_EQ(p.size(), lines.size(), "factors"); for (size_t i = 0; i < p.size(); i++) CHECK_EQ(Dict::PrintWords(p[i]), Dict::PrintWords(cv[i].words), "factor " << i); }
  s.nontrivial(ids.size() >= 3);
}

// ---- rule sides ----
static CfgData gen_side(S& s, int nv, string& text, bool& lab) {
  CfgData d; vector<int> it; for (int v = 0; v < nv; v++) if (!s.coin(1, 8)) it.push_back(-1 - v); for (size_t i = it.size(); i > 1; i--) swap(it[i - 1], it[i - 1 - s.below(i)]);
  int nw = s.below(5); vector<string> w; for (int i = 0; i < nw; i++) { it.insert(it.begin() + s.below(it.size() + 1), i); w.push_back(token(s, "", true)); }
  map<int, string> syms; if (s.coin()) for (int x : it) if (x < 0 && s.coin(3, 4)) { syms[-1 - x] = label(s, ""); lab = true; }
  for (int x : it) { if (!text.empty() && text.back() != ' ') text += s.coin(1, 6) ? "  " : " "; if (x >= 0) { text += "\"" + w[x] + "\""; d.words.push_back(Dict::WID(w[x])); } else { text += "x" + to_string(-1 - x); if (syms.count(-1 - x)) { text += ":" + syms[-1 - x]; if ((int)d.syms.size() <= -1 - x) d.syms.resize(-x, -1); d.syms[-1 - x] = Dict::WID(syms[-1 - x]); } d.words.push_back(x); } }
  if (s.coin()) { string l = label(s, ""); text += (text.empty() || text.back() == ' ' ? "@ " : " @ ") + l; d.label = Dict::WID(l); lab = true; }
  return d;
}
static void same_side(const CfgData& a, const CfgData& b, const string& what) { CHECK_EQ(vector<int>(a.words.begin(), a.words.end()), vector<int>(b.words.begin(), b.words.end()), what << ": words"); CHECK_EQ(a.label, b.label, what << ": head label"); size_t n = max(a.syms.size(), b.syms.size()); for (size_t i = 0; i < n; i++) CHECK_EQ(a.GetSym(i), b.GetSym(i), what << ": label of variable " << i); }
PROP(rule_sides, 40000, 800000) {
  int nf = s.coin(1, 3) ? s.range(2, 3) : 1, nv = s.below(4); if (s.coin(1, 20)) nv = s.range(9, 13); string text; CfgDataVector want; bool lab = false, col = false;
  for (int f = 0; f < nf; f++) { string t; CfgData d = gen_side(s, nv, t, lab); if (t.find("|COL|") != string::npos) col = true; want.push_back(d); text += (f ? " |COL| " : "") + t; }
  if (col) throw pbt::Discard(); s.log << text << "\n"; s.sync();
  CfgDataVector got = Dict::ParseAnnotatedVector(text); CHECK_EQ((int)got.size(), nf, "factors"); for (int f = 0; f < nf; f++) same_side(got[f], want[f], "parsed factor " + to_string(f));
  string p = Dict::PrintAnnotatedVector(want); CfgDataVector again = Dict::ParseAnnotatedVector(p); CHECK_EQ((int)again.size(), nf, "factors of the printed text " << p); for (int f = 0; f < nf; f++) same_side(again[f], want[f], "reparsed '" + p + "'");
  CHECK_EQ(Dict::PrintAnnotatedVector(again), p, "printing is stable"); int words = 0; for (auto& d : want) words += d.words.size(); s.nontrivial(words >= 3 && (lab || nf > 1)); if (nf > 1) s.label("several factors"); if (nv > 9) s.label("two-digit variables");
  // derived queries
  for (auto& d : want) { vector<int> pos; bool ord = true; int k = 0; for (size_t i = 0; i < d.words.size(); i++) if (d.words[i] < 0) { pos.push_back(i); } (void)k; for (size_t i = 0; i < pos.size(); i++) if (d.words[pos[i]] != -1 - (int)i) ord = false; CHECK_EQ(d.GetNontermPositions(), pos, "positions of variables"); CHECK_EQ(bool(d.NontermsAreOrdered()), ord, "variables ordered"); }
}
PROP(bad_rules, 20000, 300000) {
  bool lab = false; string t; CfgData d = gen_side(s, s.below(3), t, lab); string bad, why; size_t at = t.find(" @ "); if (t.compare(0, 2, "@ ") == 0) at = 0; string body = at == string::npos ? t : t.substr(0, at);
  switch (s.below(8)) {
    case 0: bad = body + " x"; why = "variable without a number"; break;
    case 1: bad = body + " \"open"; why = "unclosed quote"; break;
    case 2: bad = body + " open\""; why = "unopened quote"; break;
    case 3: bad = body + " @"; why = "missing label"; break;
    case 4: bad = body + " @ A B"; why = "two labels"; break;
    case 5: bad = body + " bare"; why = "unquoted word"; break;
    case 6: bad = string("x0") + (s.coin() ? "a" : "-1") + " " + body; why = "text after the variable number"; break;
    default: bad = string("x:NP ") + body; why = "label without a number"; break;
  }
  s.log << why << ": " << bad << "\n"; s.sync(); bool threw = false; try { Dict::ParseAnnotatedVector(bad); } catch (std::exception&) { threw = true; } CHECK(threw, "accepted a rule side with " << why << ": " << bad); s.label(why); s.nontrivial(!body.empty());
}

// ---- features ----
static double val(S& s) { switch (s.below(6)) { case 0: return s.quarter(4); case 1: return (double)s.below(1000); case 2: return s.real(5); case 3: return s.real(1e8); case 4: return s.real(1e-5); default: return -(double)s.below(4) / 8; } }
static bool about(double a, double b) { return fabs(a - b) <= 1e-5 * max(fabs(a), fabs(b)) + 1e-300; }
PROP(features, 25000, 400000) {
  int n = s.below(7); map<string, double> want; string text; for (int i = 0; i < n; i++) { string k = s.coin(1, 5) ? token(s, "") + "=" + token(s, "=") : token(s, "="); if (want.count(k)) continue; double v = val(s); want[k] = v; ostringstream o; o.precision(s.coin() ? 6 : 15); o << v; text += (text.empty() ? "" : s.coin(1, 6) ? "  " : " ") + k + "=" + o.str(); }
  s.log << text << "\n"; s.sync();
  for (int rep = 0; rep < 2; rep++) {
    SparseMap m = Dict::ParseSparseMap(text); SparseVector v = Dict::ParseSparseVector(text); Feat fm, fv; for (auto& p : m) fm[Dict::WSym(p.first)] = p.second; for (auto& p : v.GetImpl()) fv[Dict::WSym(p.first)] = p.second;
    for (auto& p : want) { CHECK(fm.count(p.first) || p.second == 0, "feature " << p.first << " lost"); CHECK(about(fm[p.first], p.second), "value of " << p.first << ": " << fm[p.first] << ", expected " << p.second); CHECK(about(fv[p.first], p.second), "vector value of " << p.first << ": " << fv[p.first] << ", expected " << p.second); }
    for (auto& p : fm) CHECK(want.count(p.first), "feature " << p.first << " invented"); for (auto& p : fv) CHECK(want.count(p.first), "feature " << p.first << " invented");
    text = rep ? Dict::PrintSparseMap(m) : Dict::PrintSparseVector(v); s.log << "printed " << text << "\n"; s.sync(); for (auto it = want.begin(); it != want.end();) if (it->second == 0 && !fv.count(it->first)) want.erase(it++); else ++it;
  }
  s.nontrivial(want.size() >= 3);
}
PROP(bad_features, 6000, 60000) {
  string good = "a=1 b=2"; bool threw = false; int k = s.below(2); string t = k ? good + " " + word(s.below(3)) + word(s.below(3)) : good + " " + string(s.coin() ? "a" : "b") + "=" + to_string(s.below(9)); s.log << t << "\n"; s.sync(); try { Dict::ParseSparseMap(t); } catch (std::exception&) { threw = true; } CHECK(threw, "accepted " << t); if (k) { threw = false; try { Dict::ParseSparseVector(t); } catch (std::exception&) { threw = true; } CHECK(threw, "accepted " << t); } s.nontrivial();
}

// ---- alignments ----
PROP(alignment, 20000, 300000) {
  int n = s.below(9); set<pair<int, int> > want; string text; if (s.coin(1, 6)) text = " "; for (int i = 0; i < n; i++) { pair<int, int> p(s.coin(1, 8) ? s.below(200) : s.below(6), s.coin(1, 8) ? s.below(200) : s.below(6)); want.insert(p); text += (i ? (s.coin(1, 6) ? "  " : " ") : "") + to_string(p.first) + "-" + to_string(p.second); } s.log << text << "\n"; s.sync();
  Alignment a = Alignment::FromString(text); CHECK(a.GetAlignmentVector() == want, "links " << a.ToString()); Alignment b = Alignment::FromString(a.ToString()); CHECK(b.GetAlignmentVector() == want, "reparsed links of " << a.ToString()); CHECK(a == b && !(a != b), "equality");
  for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) CHECK_EQ(a.Contains(i, j), want.count(make_pair(i, j)) > 0, "link " << i << "-" << j);
  auto sa = a.GetSrcAlignments(); map<int, set<int> > m; for (auto& p : want) m[p.first].insert(p.second); for (size_t i = 0; i < sa.size(); i++) CHECK(sa[i] == m[i], "targets of source word " << i); if (!want.empty()) CHECK(sa.size() > (size_t)want.rbegin()->first, "source words"); s.nontrivial(want.size() >= 3);
  if (s.coin(1, 6)) { static const char* B[] = {"3", "1-2-3", "1:2", "-"}; string t = text + " " + B[s.below(3)]; bool threw = false; try { Alignment::FromString(t); } catch (std::exception&) { threw = true; } CHECK(threw, "accepted alignment '" << t << "'"); }
}

// ---- string helpers ----
PROP(strings, 20000, 200000) {
  string x; int n = s.below(10); for (int i = 0; i < n; i++) x += "ab |\"\\<&"[s.below(8)]; string d = s.coin() ? " " : s.coin() ? "|" : " | "; s.log << x << "\n"; s.sync();
  vector<string> t = Tokenize(x, d); string j; for (size_t i = 0; i < t.size(); i++) { j += (i ? d : "") + t[i]; CHECK(t[i].find(d) == string::npos, "piece holds a delimiter"); } CHECK_EQ(j, x, "joining the pieces");
  if (d.size() == 1) CHECK_EQ(Tokenize(x, d[0]), t, "character delimiter"); if (d.size() == 1) CHECK_EQ(FirstToken(x, d[0]), t[0], "first token");
  string e = EscapeQuotes(x), u; for (size_t i = 0; i < e.size(); i++) { if (e[i] == '\\') { i++; CHECK(i < e.size(), "dangling backslash"); } else CHECK(e[i] != '"', "bare quote"); u += e[i]; } CHECK_EQ(u, x, "unescaped");
  string q = Dict::EncodeXML(x); CHECK(q.find_first_of("<>\"'") == string::npos, "XML special left in " << q);
  istringstream in(x + ")rest"); bool forbid = false; for (char c : x) if (c == '<') forbid = true; string got; bool threw = false; try { got = IoUtil::ReadUntil(in, ")", "<"); } catch (std::exception&) { threw = true; } CHECK_EQ(threw, forbid, "forbidden character"); if (!forbid) CHECK_EQ(got, x, "text up to the delimiter");
  istringstream i2("  " + x); IoUtil::Trim(i2, " a"); size_t p = x.find_first_not_of(" a"); CHECK_EQ(i2.peek(), p == string::npos ? EOF : (int)(unsigned char)x[p], "first character after trimming"); s.nontrivial(t.size() > 2);
}
PBT_MAIN("h_dict")
