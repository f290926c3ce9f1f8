// C07: word splitting, unary flattening and casing.
#include "tree.h"
#include <travatar/word-splitter-regex.h>
#include <travatar/word-splitter-compound.h>
#include <travatar/unary-flattener.h>
#include <travatar/caser.h>
using namespace std; using namespace travatar; using namespace tg; using pbt::S;

// ---- splitting
struct Rx { const char* re; int kind; };   // 0 each '-', 1 runs of '-', 2 runs of '-' or one "/", 3 digits one by one, 4 "ab"
static const Rx RX[] = {{"-", 0}, {"-+", 1}, {"(\\-+|\\/)", 2}, {"[0-9]", 3}, {"ab", 4}};
static vector<string> rsplit(const string& w, int kind) {
  vector<string> r; string cur; size_t i = 0;
  while (i < w.size()) { size_t n = 0;
    if (kind == 0) n = w[i] == '-'; else if (kind == 1 || kind == 2) { while (i + n < w.size() && w[i + n] == '-') n++; if (!n && kind == 2 && w[i] == '/') n = 1; } else if (kind == 3) n = isdigit((unsigned char)w[i]) ? 1 : 0; else n = w.compare(i, 2, "ab") == 0 ? 2 : 0;
    if (n) { if (!cur.empty()) r.push_back(cur); cur.clear(); r.push_back(w.substr(i, n)); i += n; } else cur += w[i++]; }
  if (!cur.empty()) r.push_back(cur); return r;
}
static string sword(S& s) { static const char* F[] = {"-LRB-", "-rsb-", "-RCB-", "-lcb-", "--", "-", "a-b", "/"}; if (s.coin(1, 8)) return F[s.below(8)]; static const char* P[] = {"a", "b", "-", "/", "1", "\xc3\xa9", "ab", "2"}; int n = s.range(1, 6); string r; for (int i = 0; i < n; i++) r += P[s.below(8)]; return r; }
static bool ignored(const string& w) { static const set<string> I = {"-LRB-", "-RRB-", "-lrb-", "-rrb-", "-LSB-", "-RSB-", "-lsb-", "-rsb-", "-LCB-", "-RCB-", "-lcb-", "-rcb-"}; return I.count(w); }
// The forest after replacing word i by pieces[i], each piece under a copy of its part of speech.
static Forest split_model(const Forest& f, const vector<vector<string> >& pieces) {
  Forest r = f; r.words.clear(); vector<int> at(1, 0); for (auto& p : pieces) { at.push_back(at.back() + p.size()); r.words.insert(r.words.end(), p.begin(), p.end()); }
  vector<int> ne(f.nodes.size()); for (auto& e : f.edges) ne[e.head]++;
  for (auto& n : r.nodes) { n.lo = at[n.lo]; n.hi = at[n.hi]; }
  size_t E = r.edges.size(); for (size_t i = 0; i < E; i++) { if (r.edges[i].tails.size() != 1 || ne[r.edges[i].tails[0]]) continue; int t = r.edges[i].tails[0], w = f.nodes[t].lo; if (pieces[w].size() < 2) continue;
    vector<int> kids; for (size_t k = 0; k < pieces[w].size(); k++) { Node a = r.nodes[r.edges[i].head]; a.lo = at[w] + k; a.hi = a.lo + 1; Node b = a; b.sym = pieces[w][k]; r.nodes.push_back(a); kids.push_back(r.nodes.size() - 1); r.nodes.push_back(b); Edge e; e.head = kids.back(); e.score = 0; e.tails.push_back(r.nodes.size() - 1); r.edges.push_back(e); }
    r.edges[i].tails = kids; }
  return r;
}
static void compare(const HyperGraph& g, const Forest& want, const string& what) {
  Forest o = from_graph(g); CHECK_EQ(o.words, want.words, what << ": words");
  // every node the root reaches covers its children exactly
  vector<int> st(1, 0); set<int> seen(st.begin(), st.end()); while (!st.empty()) { int x = st.back(); st.pop_back(); bool term = true; for (auto& e : o.edges) if (e.head == x) { term = false; int p = o.nodes[x].lo; for (int t : e.tails) { CHECK_EQ(o.nodes[t].lo, p, what << ": span start of node " << t << " (" << o.nodes[t].sym << ")"); p = o.nodes[t].hi; if (seen.insert(t).second) st.push_back(t); } CHECK_EQ(o.nodes[x].hi, p, what << ": span end of node " << x << " (" << o.nodes[x].sym << ")"); } if (term) CHECK_EQ(o.nodes[x].sym, o.words[o.nodes[x].lo], what << ": terminal and word"); }
  Coll a(want, false), b(o, false); auto x = a.at(0), y = b.at(0); sort(x.begin(), x.end()); sort(y.begin(), y.end());
  if (x != y) { string d; for (auto& t : x) if (!binary_search(y.begin(), y.end(), t)) { d = "missing " + t; break; } for (auto& t : y) if (!binary_search(x.begin(), x.end(), t)) { d += "; extra " + t; break; } FAIL(what << ": " << y.size() << " derivations, expected " << x.size() << "; " << d); }
}
PROP(regex_string, 20000, 600000) {
  const Rx& x = RX[s.below(5)]; string w = sword(s); if (s.coin(1, 4)) w += sword(s); s.log << x.re << " on " << w << "\n"; WordSplitterRegex sp(x.re);
  auto got = sp.StringSplit(w), want = rsplit(w, x.kind); CHECK_EQ(got, want, "pieces"); string cat; for (auto& p : got) { CHECK(!p.empty(), "empty piece"); cat += p; } CHECK_EQ(cat, w, "pieces put together"); s.nontrivial(want.size() > 2);
}
PROP(regex_tree, 12000, 300000) {
  vector<string> ws; int n = s.size(1, 6); for (int i = 0; i < n; i++) ws.push_back(sword(s)); PackOpt o; o.max_derivs = 200; if (s.coin(1, 3)) o.max_alt = 1; Forest f = gen_packed(s, o, &ws); const Rx& x = RX[s.below(5)]; bool dflt = x.kind == 0 && s.coin();
  s.log << x.re << " " << describe_packed(f); s.sync(); unique_ptr<WordSplitterRegex> sp(dflt ? new WordSplitterRegex : new WordSplitterRegex(x.re)); unique_ptr<HyperGraph> g(build(f)), r(sp->TransformGraph(*g));
  vector<vector<string> > p; size_t many = 0; for (auto& w : ws) { p.push_back(ignored(w) ? vector<string>(1, w) : rsplit(w, x.kind)); many = max(many, p.back().size()); }
  compare(*r, split_model(f, p), "split forest"); CHECK_EQ(describe_packed(from_graph(*g)), describe_packed(f), "the input was changed"); s.nontrivial(many > 1 && ws.size() > 1);
}
PROP(compound, 2500, 60000) {
  // vocabulary made of pieces, so that splits exist
  static const char* P[] = {"a", "b", "ab", "ba", "s", "es", "\xc3\xa9", "abb"}; auto word = [&](int hi) { int n = s.range(1, hi); string r; for (int i = 0; i < n; i++) r += P[s.below(8)]; return r; };
  map<string, float> uni; int nv = s.range(1, 14); for (int i = 0; i < nv; i++) uni[word(2)] = -(float)s.range(1, 24) / 4; vector<string> ws; int n = s.range(1, 4); for (int i = 0; i < n; i++) { string w = s.coin() ? word(4) : ""; if (w.empty()) { int k = s.range(1, 3); for (int j = 0; j < k; j++) { auto it = uni.begin(); advance(it, s.below(uni.size())); if (j && s.coin(1, 3)) w += s.coin() ? "s" : "es"; w += it->first; } } ws.push_back(w); if (s.coin(1, 3)) uni[w] = -(float)s.range(1, 24) / 4; }
  ostringstream a; a << "\\data\\\nngram 1=" << uni.size() + 3 << "\nngram 2=1\n\n\\1-grams:\n-99\t<s>\t-0.25\n-1\t</s>\n-2\t<unk>\n"; for (auto& p : uni) a << p.second << "\t" << p.first << "\t-0.5\n"; a << "\n\\2-grams:\n-0.5\t<s> " << uni.begin()->first << "\n\n\\end\\\n";
  string file = pbt::scratch() + "/c.arpa"; pbt::spew(file, a.str()); int minc = s.range(1, 4); static const double TH[] = {0.0123, 0.3, 0.00051, 3.0, 0.11}; double th = TH[s.below(5)]; static const char* FL[] = {"", "s", "s:es", "es:s", "e"}; string fl = FL[s.below(5)]; vector<string> fill; { istringstream is(fl); string x; while (getline(is, x, ':')) fill.push_back(x); fill.push_back(""); }
  s.log << "min " << minc << " threshold " << th << " filler " << fl << " words " << pbt::show(ws) << "\n" << a.str(); s.sync(); WordSplitterCompound sp(file, minc, th, fl); vector<vector<string> > pieces; bool any = false, cand = false;
  for (auto& w : ws) {
    auto got = sp.StringSplit(w); double u = uni.count(w) ? uni[w] : -99, best = u; vector<pair<double, vector<string> > > opts;
    if ((int)w.size() > 2 * minc && (!uni.count(w) || u < log10(th))) { cand = true; for (int i = minc; i + minc <= (int)w.size(); i++) { string l = w.substr(0, i); if (!uni.count(l)) continue; for (auto& f : fill) { if (w.compare(i, f.size(), f)) continue; string r = w.substr(min(w.size(), i + f.size())); if (!uni.count(r)) continue; double m = (uni[l] + uni[r]) / 2; vector<string> v; v.push_back(l); v.push_back(r); opts.push_back(make_pair(m, v)); best = max(best, m); } } }
    bool ok = false; if (best > u) { for (auto& p : opts) if (p.first == best && p.second == got) ok = true; any = true; } else ok = got.size() == 1 && got[0] == w;
    CHECK(ok, w << " split into " << pbt::show(got) << "; best mean " << best << ", unigram " << u); pieces.push_back(got);
  }
  PackOpt o; o.max_derivs = 100; Forest f = gen_packed(s, o, &ws); unique_ptr<HyperGraph> g(build(f)), r(sp.TransformGraph(*g)); compare(*r, split_model(f, pieces), "split forest"); s.nontrivial(any || cand); if (any) s.label("split");
}
// ---- flattening
static T flat(const T& t) { if (t.term) return t; const T* c = &t; string l = t.label; while (c->kids.size() == 1 && !c->kids[0].term) { c = &c->kids[0]; l += "_" + c->label; } T r(l); for (auto& k : c->kids) r.kids.push_back(flat(k)); return r; }
PROP(flatten_tree, 20000, 500000) {
  TreeOpt o; o.preterms = s.coin(3, 4); o.words = 6; T t = gen_tree(s, o); s.log << penn(t) << "\n"; unique_ptr<HyperGraph> g(tree_graph(t)); UnaryFlattener fl; unique_ptr<HyperGraph> r(fl.TransformGraph(*g)); T want = flat(t); same_tree(*r, want, "flattened tree"); same_tree(*g, t, "input tree"); unique_ptr<HyperGraph> again(fl.TransformGraph(*r)); same_tree(*again, want, "flattened twice"); s.nontrivial(!(want == t));
}
struct FD { T t; double sc; Feat fe; };
static vector<FD> fderivs(const Forest& f, int n) {
  vector<FD> out; bool term = true;
  for (auto& e : f.edges) if (e.head == n) { term = false; vector<FD> cur(1); cur[0].t = T(f.nodes[n].sym); cur[0].sc = e.score; cur[0].fe = e.feats; for (int t : e.tails) { vector<FD> nx, ch = fderivs(f, t); for (auto& a : cur) for (auto& b : ch) { FD c = a; c.t.kids.push_back(b.t); c.sc += b.sc; for (auto& p : b.fe) c.fe[p.first] += p.second; nx.push_back(c); } cur = nx; } out.insert(out.end(), cur.begin(), cur.end()); }
  if (term) { FD d; d.t = T(f.nodes[n].sym, true); d.sc = 0; out.push_back(d); } return out;
}
PROP(flatten_forest, 6000, 200000) {
  PackOpt o; o.max_derivs = 60; o.words = 5; Forest f = gen_packed(s, o); s.log << describe_packed(f); unique_ptr<HyperGraph> g(build(f)); UnaryFlattener fl; unique_ptr<HyperGraph> r(fl.TransformGraph(*g)); Forest q = from_graph(*r); s.log << "result " << describe_packed(q); CHECK_EQ(q.words, f.words, "words");
  auto text = [](const Forest& x) { vector<string> v; for (auto& d : fderivs(x, 0)) v.push_back(penn(flat(d.t)) + " " + r12(d.sc) + " " + pbt::show(nz(d.fe))); sort(v.begin(), v.end()); return v; };
  auto a = text(f), b = text(q); CHECK_EQ(b, a, "derivations with unary chains joined"); vector<int> ne(q.nodes.size()); for (auto& e : q.edges) ne[e.head]++; for (auto& e : q.edges) { if (e.tails.size() == 1 && ne[e.tails[0]]) CHECK(ne[e.head] > 1, "node " << e.head << " is still a unary production"); int p = q.nodes[e.head].lo; for (int t : e.tails) { CHECK_EQ(q.nodes[t].lo, p, "span of node " << t); p = q.nodes[t].hi; } CHECK_EQ(p, q.nodes[e.head].hi, "span of node " << e.head); } s.nontrivial(a.size() > 1);
}
// ---- casing
struct Ch { const char *lo, *up; };
static const Ch CH[] = {{"a", "A"}, {"b", "B"}, {"z", "Z"}, {"i", "I"}, {"\xc3\xa9", "\xc3\x89"}, {"\xd0\xb6", "\xd0\x96"}, {"\xc3\xbc", "\xc3\x9c"}, {"-", "-"}, {"1", "1"}, {"\xe6\x97\xa5", "\xe6\x97\xa5"}, {"'", "'"}};
struct W { vector<pair<int, bool> > c; string raw; string str() const { if (!raw.empty()) return raw; string r; for (auto& p : c) r += p.second ? CH[p.first].up : CH[p.first].lo; return r; } string lower() const { if (!raw.empty()) return raw; string r; for (auto& p : c) r += CH[p.first].lo; return r; } bool letters() const { for (auto& p : c) if (p.first >= 7) return false; return raw.empty(); } string title() const { string r; for (size_t i = 0; i < c.size(); i++) r += i ? CH[c[i].first].lo : CH[c[i].first].up; return r; } };
static W cword(S& s) { W w; static const char* P[] = {".", ":", "!", "?", "(", "[", "\"", "'", "`", "``", ",", ")"}; if (s.coin(2, 5)) { w.raw = P[s.below(12)]; return w; } int n = s.range(1, 4); bool odd = s.coin(1, 5); for (int i = 0; i < n; i++) w.c.push_back(make_pair((int)s.below(odd ? 10 : 7), s.coin())); return w; }
static vector<bool> firsts(const vector<W>& v) { vector<bool> r(v.size()); bool start = true; static const set<string> E = {".", ":", "!", "?"}, D = {"(", "[", "\"", "'", "`", "``"}; for (size_t i = 0; i < v.size(); i++) { string x = v[i].str(); if (i == 0) r[0] = true; if (E.count(x)) start = true; else if (!D.count(x)) { r[i] = start; start = false; } else if (i) r[i] = false; } return r; }
PROP(casing, 5000, 300000) {
  vector<W> v; int n = s.range(1, 8); for (int i = 0; i < n; i++) v.push_back(cword(s)); vector<bool> fi = firsts(v); int mode = s.below(3); vector<string> ws; for (auto& w : v) ws.push_back(w.str());
  map<string, string> model; string file; if (mode == 2) { ostringstream m; int k = s.below(6); for (int i = 0; i < k; i++) { W w = s.coin() ? v[s.below(n)] : cword(s); for (auto& c : w.c) c.second = s.coin(); model[w.lower()] = w.str(); m << w.str() << (s.coin(1, 4) ? " 3 x" : "") << "\n"; } file = pbt::scratch() + "/case.txt"; pbt::spew(file, m.str()); s.log << "model:\n" << m.str(); }
  string spec = mode == 0 ? "low" : mode == 1 ? "title" : "true:model=" + file; s.log << (mode == 2 ? "true" : spec) << " on " << pbt::show(ws) << "\n"; s.sync(); unique_ptr<Caser> c(Caser::CreateCaserFromString(spec));
  auto good = [&](size_t i, const string& got, const string& what) {
    if (mode == 0) CHECK_EQ(got, v[i].lower(), what << ", word " << i); else if (!fi[i]) CHECK_EQ(got, ws[i], what << ", word " << i << " is not sentence-initial");
    else if (mode == 1) { if (v[i].letters()) CHECK_EQ(got, v[i].title(), what << ", word " << i); else CHECK_EQ(c->ToLower(got), v[i].lower(), what << ", word " << i << " up to case"); }
    else CHECK_EQ(got, model.count(v[i].lower()) ? model[v[i].lower()] : ws[i], what << ", word " << i); };
  Sentence sent; for (auto& w : ws) sent.push_back(Dict::WID(w)); CHECK_EQ(c->SentenceFirst(sent), fi, "sentence-initial positions"); Sentence t = sent; if (mode == 0) c->ToLower(t); else if (mode == 1) c->ToTitle(t); else c->TrueCase(t); CHECK_EQ(t.size(), sent.size(), "length"); for (size_t i = 0; i < t.size(); i++) good(i, Dict::WSym(t[i]), "sentence");
  PackOpt o; o.max_derivs = 100; Forest f = gen_packed(s, o, &ws); for (auto& x : f.nodes) if (s.coin(1, 6) && x.hi > x.lo + 1) x.sym = ws[0]; unique_ptr<HyperGraph> g(build(f)), r(c->TransformGraph(*g)); Forest q = from_graph(*r); CHECK_EQ(q.words.size(), ws.size(), "words of the forest"); for (size_t i = 0; i < ws.size(); i++) good(i, q.words[i], "forest words");
  vector<int> ne(f.nodes.size()); for (auto& e : f.edges) ne[e.head]++; CHECK_EQ(q.nodes.size(), f.nodes.size(), "nodes"); for (size_t i = 0; i < f.nodes.size(); i++) { if (!ne[i]) good(f.nodes[i].lo, q.nodes[i].sym, "forest terminal"); else CHECK_EQ(q.nodes[i].sym, f.nodes[i].sym, "label of node " << i); q.nodes[i].sym = f.nodes[i].sym; } q.words = f.words; CHECK_EQ(describe_packed(q), describe_packed(f), "everything but the words"); CHECK_EQ(describe_packed(from_graph(*g)), describe_packed(f), "the input was changed"); s.nontrivial(n >= 3);
}
PROP(caser_names, 300, 3000) {
  static const char* B[] = {"lower", "Low", "", "true", "true:file=x", "titles", "upper", "true:model"}; string x = B[s.below(8)]; s.log << x << "\n"; bool threw = false; try { delete Caser::CreateCaserFromString(x); } catch (std::exception&) { threw = true; } CHECK(threw, "caser '" << x << "' accepted"); CHECK(Caser::CreateCaserFromString("none") == NULL, "none gave a caser"); s.nontrivial();
}
PBT_MAIN("h_transform")
