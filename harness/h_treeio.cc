// C03: tree and forest formats: parse/print round trips against an independent model of each format.
#include "tree.h"
#include <travatar/tree-io.h>
using namespace tg;
typedef std::unique_ptr<HyperGraph> G;

static string ws(S& s, bool one) { static const char* W[] = {" ", "  ", "\n", "\t", " \r\n "}; if (!one && s.coin()) return ""; return s.coin(2, 3) ? " " : W[s.below(5)]; }
static string penn_layout(S& s, const T& t) { if (t.term) return t.label; string r = "(" + t.label; if (t.kids.size() == 1 && t.kids[0].term) return r + ws(s, true) + t.kids[0].label + ")"; bool first = true; for (auto& k : t.kids) { r += ws(s, first) + penn_layout(s, k); first = false; } return r + ws(s, false) + ")"; }
static void nt(S& s, const T& t) { vector<string> w = leaves(t); bool q = false; for (auto& x : w) if (x.find_first_of("\"\\&<>'0123456789|@[]{}\xc3\xe6\xd0") != string::npos) q = true; if (q) s.label("unusual characters"); if (set<string>(w.begin(), w.end()).size() < w.size()) s.label("repeated words"); s.nontrivial(w.size() >= 2 && tsize(t) >= 5); }

PROP(penn_io, 60000, 600000) {
  // a stream of several trees, some of them empty
  TreeOpt o; o.bad = "()"; o.ctl = true; o.words = s.coin(1, 30) ? 60 : 8; int n = s.range(1, 4); vector<T> ts; vector<bool> empty; string text;
  for (int i = 0; i < n; i++) { bool e = s.coin(1, 8); empty.push_back(e); ts.push_back(e ? T() : gen_tree(s, o)); text += (e ? string("()") : penn_layout(s, ts[i])) + ws(s, false); }
  if (n > 1) text += "\n"; s.log << text << "\n"; s.sync();
  istringstream in(text); PennTreeIO io; ostringstream out; string want;
  for (int i = 0; i < n; i++) {
    G g(io.ReadTree(in)); CHECK(g.get(), "tree " << i << " of " << n << " was not read");
    if (empty[i]) { CHECK_EQ(g->NumNodes() + g->NumEdges() + (int)g->GetWords().size(), 0, "empty tree"); want = "()"; s.label("empty tree"); }
    else { same_tree(*g, ts[i], "Penn tree " + to_string(i)); nt(s, ts[i]); want = penn(ts[i]); }
    ostringstream o2; io.WriteTree(*g, o2); CHECK_EQ(o2.str(), want, "written Penn tree");
    if (!empty[i]) { G h(io.ReadFromString(o2.str())); CHECK(h.get(), "re-read"); CHECK_EQ(g->CheckEqual(*h), 1, "re-read tree differs"); same_tree(*h, ts[i], "re-read tree"); }
  }
  G g(io.ReadTree(in)); CHECK(!g.get(), "something read after the last tree");
}

static string rule_text(S& s, const T& t) { if (t.term) return "\"" + t.label + "\""; string r = t.label + ws(s, true) + "(" ; for (auto& k : t.kids) r += ws(s, true) + rule_text(s, k); return r + ws(s, true) + ")"; }
static string rule_canon(const T& t) { if (t.term) return "\"" + t.label + "\""; string r = t.label + " ( "; for (auto& k : t.kids) r += rule_canon(k) + " "; return r + ")"; }
PROP(rule_io, 40000, 400000) {
  TreeOpt o; o.preterms = false; o.badlab = "\"()"; o.ctl = true; o.words = s.coin(1, 30) ? 60 : 8; int n = s.range(1, 3); vector<T> ts; string text;
  for (int i = 0; i < n; i++) { ts.push_back(gen_tree(s, o)); text += rule_text(s, ts[i]) + "\n"; }
  s.log << text; s.sync(); istringstream in(text); RuleTreeIO io;
  for (int i = 0; i < n; i++) { G g(io.ReadTree(in)); CHECK(g.get(), "tree " << i << " not read"); same_tree(*g, ts[i], "rule tree"); nt(s, ts[i]); ostringstream o2; io.WriteTree(*g, o2); CHECK_EQ(o2.str(), rule_canon(ts[i]), "written rule tree"); G h(io.ReadFromString(o2.str())); CHECK_EQ(g->CheckEqual(*h), 1, "re-read"); }
  G g(io.ReadTree(in)); CHECK(!g.get(), "something read after the last tree");
}

// --- Moses XML: writer checked by an independent reader of the format ---
static string unxml(const string& x) { string r; for (size_t i = 0; i < x.size();) { if (x[i] == '&') { size_t e = x.find(';', i); CHECK(e != string::npos, "bare & in " << x); string n = x.substr(i + 1, e - i - 1); static const map<string, char> M = {{"amp", '&'}, {"lt", '<'}, {"gt", '>'}, {"quot", '"'}, {"apos", '\''}}; auto it = M.find(n); CHECK(it != M.end(), "unknown entity " << n); r += it->second; i = e + 1; } else { CHECK(x[i] != '<' && x[i] != '>' && x[i] != '"' && x[i] != '\'', "unescaped character in " << x); r += x[i++]; } } return r; }
static T read_xml(const string& x, size_t& p) {
  const string open = "<tree label=\""; CHECK_EQ(x.substr(p, open.size()), open, "at " << p << " of " << x); p += open.size(); size_t e = x.find("\">", p); CHECK(e != string::npos, "unclosed tag"); T t(unxml(x.substr(p, e - p))); p = e + 2;
  for (;;) { CHECK(p < x.size() && x[p] == ' ', "expected a space at " << p << " of " << x); p++; if (x.compare(p, 7, "</tree>") == 0) { p += 7; return t; } if (x[p] == '<') t.kids.push_back(read_xml(x, p)); else { e = x.find(' ', p); CHECK(e != string::npos, "unclosed"); t.kids.push_back(T(unxml(x.substr(p, e - p)), true)); p = e; } }
}
PROP(moses_io, 30000, 300000) {
  TreeOpt o; o.preterms = s.coin(); o.words = 8; T t = gen_tree(s, o); nt(s, t); s.log << penn(t) << "\n"; s.sync(); G g(tree_graph(t));
  ostringstream out; MosesXMLTreeIO io; io.WriteTree(*g, out); size_t p = 0; T u = read_xml(out.str(), p); CHECK_EQ(p, out.str().size(), "trailing text in " << out.str()); CHECK(u == t, "Moses XML " << out.str() << " denotes " << penn(u));
}

// --- words ---
PROP(word_io, 8000, 100000) {
  int n = s.range(1, 4); vector<vector<string> > ls; string text; for (int i = 0; i < n; i++) { vector<string> l; int k = s.below(6); for (int j = 0; j < k; j++) l.push_back(token(s, "", true)); ls.push_back(l); if (s.coin(1, 5)) text += " "; for (size_t j = 0; j < l.size(); j++) text += (j ? (s.coin(1, 5) ? "  " : " ") : "") + l[j]; if (s.coin(1, 5)) text += " "; text += "\n"; }
  s.log << text; s.sync(); istringstream in(text); WordTreeIO io;
  for (int i = 0; i < n; i++) {
    G g(io.ReadTree(in)); CHECK(g.get(), "line " << i << " not read"); Forest f = from_graph(*g); CHECK_EQ(f.words, ls[i], "words"); if (ls[i].size() > 1) s.nontrivial();
    T want("X"); for (auto& w : ls[i]) { T x("X"); x.kids.push_back(T(w, true)); want.kids.push_back(x); } same_tree(*g, want, "word tree");
    ostringstream o; io.WriteTree(*g, o); string c; for (size_t j = 0; j < ls[i].size(); j++) c += (j ? " " : "") + ls[i][j]; CHECK_EQ(o.str(), c, "written words");
  }
  G g(io.ReadTree(in)); CHECK(!g.get(), "line after the last");
}

// --- JSON ---
static double num(S& s) { switch (s.below(5)) { case 0: return 0; case 1: return s.quarter(4); case 2: return s.real(5); case 3: return s.real(1e7); default: return s.real(1e-6); } }
static bool about(double a, double b) { return fabs(a - b) <= 1e-5 * max(fabs(a), fabs(b)) + 1e-300; }
PROP(json_io, 60000, 600000) {
  int k = s.range(1, 3); string text; vector<HyperGraph*> gs; struct Del { vector<HyperGraph*>& v; ~Del() { for (auto p : v) delete p; } } del{gs};
  for (int gi = 0; gi < k; gi++) {
    ForestOpt o; o.max_nodes = 6; o.terminals = s.coin(); o.factors = s.coin(1, 3) ? 2 : 1; o.feats = false; Forest f = gen_forest(s, o);
    bool bare = s.coin(1, 4); int nw = 0; for (auto& n : f.nodes) { n.sym = label(s, ""); n.lo = s.below(5); n.hi = n.lo + s.below(4) + !bare; nw = max(nw, n.hi); } nw = bare ? 0 : nw + (s.coin(1, 4) ? s.below(3) : 0); /* a sentence covers the spans of its graph; a bare graph has no words at all */ for (int i = 0; i < nw; i++) f.words.push_back(token(s, "", true));
    HyperGraph* g = build(f); gs.push_back(g);
    for (int i = 0; i < g->NumNodes(); i++) { HyperNode* n = g->GetNode(i); if (s.coin(1, 3)) { set<int> t; int c = s.range(1, 3); for (int q = 0; q < c; q++) t.insert(s.below(12)); n->SetTrgSpan(t); } if (s.coin(1, 3)) n->SetFrontier(s.coin() ? HyperNode::IS_FRONTIER : HyperNode::NOT_FRONTIER); if (s.coin(1, 4)) n->SetViterbiScore(num(s)); }
    for (int i = 0; i < g->NumEdges(); i++) { HyperEdge* e = g->GetEdge(i); e->SetScore(num(s)); SparseVector v; int nf = s.below(4); for (int q = 0; q < nf; q++) { double x = num(s); if (x != 0) v.Add(Dict::WID(s.coin(2, 3) ? featname(q) : token(s, "") + to_string(q)), x); } e->SetFeatures(v); if (s.coin(1, 3)) e->SetSrcStr("NP ( x0:NN \"" + token(s, "", true) + "\" )"); for (auto& d : e->GetTrgData()) for (auto& w : d.words) if (w >= 0) { string t = token(s, "", true); if (t.size() > 1 && t[0] == '-' && isdigit((unsigned char)t[1]) && !s.coin(1, 20)) t = "m"; w = Dict::WID(t); } }
    ostringstream out; JSONTreeIO io; io.WriteTree(*g, out); CHECK(out.str().find('\n') == string::npos, "a forest must stay on one line: " << out.str()); text += out.str() + "\n";
  }
  s.log << text; s.sync(); istringstream in(text); JSONTreeIO io; int nedge = 0, nfeat = 0;
  for (int gi = 0; gi < k; gi++) {
    HyperGraph& g = *gs[gi]; G h(io.ReadTree(in)); CHECK(h.get(), "forest " << gi << " not read"); Forest a = from_graph(g, 1), b = from_graph(*h, 1);
    CHECK_EQ(b.words, a.words, "words"); CHECK_EQ(b.nodes.size(), a.nodes.size(), "nodes"); CHECK_EQ(b.edges.size(), a.edges.size(), "edges");
    for (size_t i = 0; i < a.nodes.size(); i++) { CHECK_EQ(b.nodes[i].sym, a.nodes[i].sym, "symbol of node " << i); CHECK(h->GetNode(i)->GetSpan() == g.GetNode(i)->GetSpan(), "span of node " << i); CHECK(h->GetNode(i)->GetTrgSpan() == g.GetNode(i)->GetTrgSpan(), "target span of node " << i); CHECK(h->GetNode(i)->GetFrontier() == g.GetNode(i)->GetFrontier(), "frontier of node " << i); vector<int> x, y; for (auto e : g.GetNode(i)->GetEdges()) x.push_back(e->GetId()); for (auto e : h->GetNode(i)->GetEdges()) y.push_back(e->GetId()); CHECK_EQ(y, x, "edges of node " << i); }
    for (size_t i = 0; i < a.edges.size(); i++) {
      const Edge &x = a.edges[i], &y = b.edges[i]; nedge++; nfeat += x.feats.size(); CHECK_EQ(y.head, x.head, "head of edge " << i); CHECK_EQ(y.tails, x.tails, "tails of edge " << i); CHECK_EQ(y.src, x.src, "source string of edge " << i); CHECK(about(y.score, x.score), "score of edge " << i << ": " << y.score << " for " << x.score);
      CHECK_EQ(y.feats.size(), x.feats.size(), "features of edge " << i); for (auto& p : x.feats) { CHECK(y.feats.count(p.first), "feature " << p.first << " lost"); CHECK(about(y.feats.at(p.first), p.second), "feature " << p.first << " is " << y.feats.at(p.first) << " for " << p.second); }
      CHECK_EQ(y.trg.size(), x.trg.size(), "target factors of edge " << i);
      for (size_t q = 0; q < x.trg.size(); q++) { CHECK_EQ(y.trg[q].size(), x.trg[q].size(), "target length of edge " << i); for (size_t w = 0; w < x.trg[q].size(); w++) if (x.trg[q][w] != y.trg[q][w]) { if (x.trg[q][w] >= 0 && y.trg[q][w] < 0 && atoi(Dict::WSym(x.trg[q][w]).c_str()) == y.trg[q][w]) s.finding("json-negative-number-word", "target word '" + Dict::WSym(x.trg[q][w]) + "' is read back as a variable"); FAIL("target word " << w << " of edge " << i << ": id " << y.trg[q][w] << ", expected " << x.trg[q][w] << (x.trg[q][w] >= 0 ? " (" + Dict::WSym(x.trg[q][w]) + ")" : string(" (variable)"))); } }
    }
  }
  G h(io.ReadTree(in)); CHECK(!h.get(), "a forest after the last one"); if (k > 1) s.label("several forests"); s.nontrivial(nedge > 3 && nfeat > 1);
}

// --- Egret ---
struct ENode { string lab; int lo, hi; };
PROP(egret_io, 50000, 400000) {
  int k = s.range(1, 3); bool norm = s.coin(); string text; struct F { vector<string> words; vector<pair<string, int> > key; map<string, vector<pair<vector<string>, double> > > by; string root; int lines; }; vector<F> fs; bool rep = false, amb = false;
  for (int gi = 0; gi < k; gi++) {
    F f; f.lines = 0; int n = s.range(1, 5); bool fail = s.coin(1, 8);
    for (int i = 0; i < n; i++) { string w = s.coin(2, 3) ? word(s.below(3)) : token(s, "[]|"); if (count(f.words.begin(), f.words.end(), w)) rep = true; f.words.push_back(w); }
    text += "sentence " + to_string(gi) + " :\n"; for (int i = 0; i < n; i++) text += (i ? " " : "") + f.words[i]; text += "\n";
    vector<string> lines;
    if (!fail) {
      // chart of labelled spans, built bottom-up, each with one or more analyses
      map<pair<int, int>, vector<string> > chart; static const char* L[] = {"NP", "VP^g", "S", "@S"}; static const char* P[] = {"NN", "DT", "VB"};
      auto nm = [](const string& l, int a, int b) { return l + "[" + to_string(a) + "," + to_string(b - 1) + "]"; };
      vector<pair<string, pair<vector<string>, double> > > rules; set<string> uniq;
      auto add = [&](const string& h, vector<string> tails) { string u = h; for (auto& t : tails) u += " " + t; if (!uniq.insert(u).second) return; rules.push_back(make_pair(h, make_pair(tails, s.coin() ? -s.real(30) : -(double)s.below(5)))); };
      for (int len = 1; len <= n; len++) for (int a = 0; a + len <= n; a++) { int b = a + len; vector<string>& c = chart[make_pair(a, b)];
        if (len == 1) { int np = s.range(1, 2); for (int q = 0; q < np; q++) { string h = nm(P[s.below(3)], a, b); add(h, vector<string>(1, "#" + to_string(a))); c.push_back(h); } }
        else { int ne = s.range(len == n ? 1 : 0, 3); for (int q = 0; q < ne; q++) { string h = nm(L[s.below(4)], a, b); // split
            int m = a + 1 + s.below(len - 1); vector<string> tails; if (chart[make_pair(a, m)].empty() || chart[make_pair(m, b)].empty()) { if (len != n) continue; for (int z = a; z < b; z++) tails.push_back(s.pick(chart[make_pair(z, z + 1)])); } else { tails.push_back(s.pick(chart[make_pair(a, m)])); tails.push_back(s.pick(chart[make_pair(m, b)])); } add(h, tails); c.push_back(h); } }
        sort(c.begin(), c.end()); c.erase(unique(c.begin(), c.end()), c.end()); }
      string root = nm("ROOT", 0, n); for (auto& h : chart[make_pair(0, n)]) if (s.coin(2, 3) || h == chart[make_pair(0, n)][0]) add(root, vector<string>(1, h));
      f.root = root;
      for (auto& r : rules) { f.by[r.first].push_back(r.second); string l = r.first + " =>"; for (auto& t : r.second.first) l += " " + (t[0] == '#' && t.size() > 1 && t.find('[') == string::npos ? f.words[atoi(t.c_str() + 1)] : t); ostringstream o; o.precision(15); o << l << " ||| " << r.second.second; lines.push_back(o.str()); }
      for (auto& p : f.by) { if (p.second.size() > 1) amb = true; }
      f.lines = lines.size();
    }
    for (auto& l : lines) text += l + "\n"; if (fail) text += "\n"; text += "\n"; fs.push_back(f);
  }
  s.log << (norm ? "normalised\n" : "raw\n") << text; s.sync(); if (rep) s.label("repeated words"); if (amb) s.label("ambiguous");
  istringstream in(text); EgretTreeIO io; io.SetNormalize(norm); WordId parse = Dict::WID("parse");
  for (int gi = 0; gi < k; gi++) {
    F& f = fs[gi]; G g(io.ReadTree(in)); CHECK(g.get(), "forest " << gi << " not read"); Forest m = from_graph(*g); CHECK_EQ(m.words, f.words, "words"); CHECK_EQ((int)m.edges.size(), f.lines, "number of edges"); if (!f.lines) { CHECK_EQ(m.nodes.size(), (size_t)0, "nodes of a failed parse"); s.label("failed parse"); continue; }
    auto name = [&](int i) { const HyperNode* n = g->GetNode(i); if (n->NumEdges() == 0) { CHECK_EQ(n->GetSpan().second, n->GetSpan().first + 1, "span of terminal " << m.nodes[i].sym); CHECK_EQ(m.nodes[i].sym, f.words[n->GetSpan().first], "word of the terminal at position " << n->GetSpan().first); return "#" + to_string(n->GetSpan().first); } return m.nodes[i].sym + "[" + to_string(n->GetSpan().first) + "," + to_string(n->GetSpan().second - 1) + "]"; };
    CHECK_EQ(name(0), f.root, "root"); set<string> seen;
    for (size_t i = 0; i < m.nodes.size(); i++) {
      string nme = name(i); CHECK(seen.insert(nme).second, "two nodes for " << nme); if (nme[0] == '#') continue; CHECK(f.by.count(nme), "unexpected node " << nme); auto& want = f.by[nme]; vector<bool> used(want.size()); CHECK_EQ((size_t)g->GetNode(i)->NumEdges(), want.size(), "analyses of " << nme);
      double Z = 0; if (norm) { double mx = -1e300; for (auto& w : want) mx = max(mx, w.second); for (auto& w : want) Z += exp(w.second - mx); Z = log(Z) + mx; }
      for (auto e : g->GetNode(i)->GetEdges()) { vector<string> t; for (auto x : e->GetTails()) t.push_back(name(x->GetId())); size_t q = 0; for (; q < want.size(); q++) if (!used[q] && want[q].first == t) break; CHECK(q < want.size(), "no such analysis of " << nme << ": " << pbt::show(t)); used[q] = true; CHECK_NEAR(e->GetScore(), want[q].second - Z, 1e-7, "score of " << nme << " -> " << pbt::show(t)); double fv = 0; for (auto& p : e->GetFeatures().GetImpl()) { CHECK_EQ(p.first, parse, "feature name"); fv = p.second; } CHECK_NEAR(fv, want[q].second - Z, 1e-7, "parse feature"); }
    }
    size_t refd = 0; for (auto& p : f.by) { (void)p; refd++; } CHECK_EQ(seen.size(), refd + f.words.size(), "number of nodes");
    if (f.lines > 4) s.nontrivial();
    // writing and reading (without renormalising) keeps the forest
    ostringstream o; io.WriteTree(*g, o); o << "\n"; istringstream i2(o.str()); EgretTreeIO raw; raw.SetNormalize(false); G h(raw.ReadTree(i2)); CHECK(h.get(), "written forest not read"); CHECK_EQ(h->NumEdges(), g->NumEdges(), "edges after writing"); CHECK_EQ(h->NumNodes(), g->NumNodes(), "nodes after writing");
    for (int i = 0; i < g->NumEdges(); i++) { auto *a = g->GetEdge(i), *b = h->GetEdge(i); CHECK(about(a->GetScore(), b->GetScore()), "score after writing"); CHECK(a->GetHead()->GetSym() == b->GetHead()->GetSym() && a->GetHead()->GetSpan() == b->GetHead()->GetSpan(), "head after writing"); CHECK_EQ(a->NumTails(), b->NumTails(), "tails after writing"); for (int q = 0; q < a->NumTails(); q++) CHECK(a->GetTail(q)->GetSym() == b->GetTail(q)->GetSym() && a->GetTail(q)->GetSpan() == b->GetTail(q)->GetSpan(), "tail after writing"); }
  }
  G g(io.ReadTree(in)); CHECK(!g.get(), "a forest after the last one");
}

// --- conversions between formats keep the tree ---
PROP(convert, 40000, 300000) {
  TreeOpt o; o.bad = "()[]|\""; o.words = 7; T t = gen_tree(s, o); nt(s, t);
  // Egret identifies a node by label and span, so a label may not repeat along a unary chain
  bool egret_ok = true; struct R { static bool chain(const T& t) { const T* p = &t; set<string> seen; while (!p->term) { if (!seen.insert(p->label).second) return false; if (p->kids.size() != 1) break; p = &p->kids[0]; } for (auto& k : t.kids) if (!k.term && !chain(k)) return false; return true; } }; egret_ok = R::chain(t);
  G g(tree_graph(t)); int steps = s.range(1, 5); s.log << penn(t) << "\n"; s.sync();
  PennTreeIO p; RuleTreeIO r; JSONTreeIO j; EgretTreeIO e; TreeIO* io[] = {&p, &r, &j, &e}; static const char* N[] = {"penn", "rule", "json", "egret"};
  for (int i = 0; i < steps; i++) { int w = s.below(egret_ok ? 4 : 3); s.log << "-> " << N[w]; s.sync(); ostringstream out; io[w]->WriteTree(*g, out); out << "\n"; istringstream in(out.str()); g.reset(io[w]->ReadTree(in)); CHECK(g.get(), "not read back from " << N[w]); same_tree(*g, t, string("after ") + N[w]); }
}
PBT_MAIN("h_treeio")
