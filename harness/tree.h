// Parse-tree model shared by the tree harnesses.
#ifndef VERIF_TREE_H
#define VERIF_TREE_H
#include "tgen.h"
namespace tg {
struct T { string label; vector<T> kids; bool term; T(const string& l = "", bool t = false) : label(l), term(t) {} };   // a terminal's label is its word
inline void leaves(const T& t, vector<string>& o) { if (t.term) o.push_back(t.label); else for (auto& k : t.kids) leaves(k, o); }
inline vector<string> leaves(const T& t) { vector<string> o; leaves(t, o); return o; }
inline int tsize(const T& t) { int n = 1; for (auto& k : t.kids) n += tsize(k); return n; }
inline bool operator==(const T& a, const T& b) { return a.label == b.label && a.term == b.term && a.kids == b.kids; }
inline string penn(const T& t) { if (t.term) return t.label; string r = "(" + t.label; for (auto& k : t.kids) r += " " + penn(k); return r + ")"; }
inline ostream& operator<<(ostream& o, const T& t) { return o << penn(t); }

inline string uchar(S& s) { static const char* U[] = {"\xc3\xa9", "\xe6\x97\xa5", "\xe6\x9c\xac", "\xd0\x96", "\xe3\x80\x80x", "\xc2\xa0y"}; return U[s.below(4)]; }
// A token free of white space; `bad` lists further characters it may not contain.
inline string token(S& s, const string& bad, bool ctl = false) {
  static const char* W[] = {"a", "b", "c", "the", "The", "dog", "2013", "5", "-1", "\"", "\\", "'", "&", "<", ">", ".", "...", "x0", "@", "-LRB-", "|||", "=>", "0.5", "NP", "a-b", "%", "{", "}", "[", "]", ":", "&amp;", "1,000", "+3", "-7"};
  string r;
  if (s.coin(5, 6)) { r = s.coin() ? string(1, 'a' + s.below(4)) : W[s.below(sizeof W / sizeof *W)]; }
  else { int n = s.range(1, 4); for (int i = 0; i < n; i++) { switch (s.below(ctl ? 5 : 4)) { case 0: r += (char)('a' + s.below(26)); break; case 1: r += (char)('!' + s.below(94)); break; case 2: r += uchar(s); break; case 3: r += (char)('0' + s.below(10)); break; default: r += (char)(1 + s.below(8)); } } }
  string q; for (char c : r) if (bad.find(c) == string::npos) q += c;
  return q.empty() ? "w" : q;
}
inline string label(S& s, const string& bad) { static const char* L[] = {"S", "NP", "VP", "DT", "NN", "X", "NP-SBJ", "ADJP^g", "''", "``", ".", ",", "-NONE-", "@S", "PRP$", ":"}; return s.coin(7, 8) ? L[s.below(16)] : token(s, bad); }
struct TreeOpt { int words; bool preterms; bool unary; string bad; int maxkids; bool ctl; string badlab; bool plain; TreeOpt() : words(6), preterms(true), unary(true), maxkids(5), ctl(false), plain(false) {} };
inline T gen_sub(S& s, const TreeOpt& o, int n, int depth) {
  T t(o.plain ? string(1, "SNVDPX"[s.below(6)]) : label(s, o.bad + o.badlab));
  if (o.unary && depth < 6 && s.coin(1, 5)) { t.kids.push_back(gen_sub(s, o, n, depth + 1)); return t; }
  if (n == 1) { if (!o.preterms && s.coin(1, 2) && depth < 6 && s.coin(1, 3)) { t.kids.push_back(gen_sub(s, o, 1, depth + 1)); return t; } t.kids.push_back(T(o.plain ? word(s.below(6)) : token(s, o.bad, o.ctl), true)); return t; }
  int k = (int)s.range(n <= o.maxkids && s.coin(1, 3) ? min(n, o.maxkids) : 2, min(n, o.maxkids));
  vector<int> part(k, 1); for (int i = k; i < n; i++) part[s.below(k)]++;
  for (int i = 0; i < k; i++) { if (!o.preterms && part[i] == 1 && s.coin()) t.kids.push_back(T(o.plain ? word(s.below(6)) : token(s, o.bad, o.ctl), true)); else t.kids.push_back(gen_sub(s, o, part[i], depth + 1)); }
  return t;
}
inline T gen_tree(S& s, const TreeOpt& o) { return gen_sub(s, o, s.size(1, o.words), 0); }

// Graph of a tree, nodes in pre-order.
inline HyperNode* add_tree(HyperGraph* g, const T& t, int& pos) {
  int start = pos; HyperNode* n = new HyperNode(Dict::WID(t.label), -1, make_pair(start, start + 1)); g->AddNode(n);
  if (t.term) { g->AddWord(Dict::WID(t.label)); pos++; return n; }
  HyperEdge* e = new HyperEdge(n); g->AddEdge(e); n->AddEdge(e);
  for (auto& k : t.kids) { HyperNode* c = add_tree(g, k, pos); e->AddTail(c); }
  n->SetSpan(make_pair(start, pos)); return n;
}
inline HyperGraph* tree_graph(const T& t) { HyperGraph* g = new HyperGraph; int pos = 0; add_tree(g, t, pos); return g; }
inline T graph_tree(const HyperGraph& g, const HyperNode* n, int& pos, const string& what, bool spans = true) {
  T t(Dict::WSym(n->GetSym())); int start = pos;
  if (n->NumEdges() == 0) { t.term = true; if (spans) CHECK_EQ(n->GetSpan().first, pos, what << ": start of terminal " << t.label); pos++; if (spans) CHECK_EQ(n->GetSpan().second, pos, what << ": end of terminal " << t.label); return t; }
  CHECK_EQ(n->NumEdges(), 1, what << ": edges of node " << t.label);
  for (auto c : n->GetEdge(0)->GetTails()) t.kids.push_back(graph_tree(g, c, pos, what, spans));
  if (spans) { CHECK_EQ(n->GetSpan().first, start, what << ": span start of " << penn(t)); CHECK_EQ(n->GetSpan().second, pos, what << ": span end of " << penn(t)); }
  return t;
}
// Structure, spans, words, linking and number of nodes all agree with the model.
inline void same_tree(const HyperGraph& g, const T& want, const string& what) {
  Forest f = from_graph(g); int pos = 0; CHECK(g.NumNodes() > 0, what << ": empty graph");
  T got = graph_tree(g, g.GetNode(0), pos, what);
  CHECK(got == want, what << ": tree is " << penn(got) << ", expected " << penn(want));
  CHECK_EQ(f.words, leaves(want), what << ": words");
  CHECK_EQ(g.NumNodes(), tsize(want), what << ": number of nodes");
}
// Packed parse forest over `words` (node 0 is the root). Every word hangs under its own part-of-speech
// nodes; labels come from a small set, so several nodes share a label; `maxk` bounds the arity of an edge.
struct PackOpt { int words, maxk, labels, max_alt; bool unary, feats, mixed, nasty, orphan; long max_derivs; PackOpt() : words(6), maxk(5), labels(3), max_alt(3), unary(true), feats(true), mixed(false), nasty(false), orphan(false), max_derivs(800) {} };
inline Forest gen_packed(S& s, const PackOpt& o, const vector<string>* given = 0) {
  static const char* L[] = {"S", "NP", "VP", ".", ",", "X"}; Forest f; f.factors = 0; int n = given ? given->size() : s.size(1, o.words);
  for (int i = 0; i < n; i++) f.words.push_back(given ? (*given)[i] : o.nasty ? token(s, "") : word(s.below(4)));
  vector<vector<vector<int> > > at(n + 1, vector<vector<int> >(n + 1)); vector<int> term(n);
  int kind = s.below(4);
  auto node = [&](const string& sym, int a, int b) { Node x; x.sym = sym; x.lo = a; x.hi = b; f.nodes.push_back(x); return (int)f.nodes.size() - 1; };
  auto edge = [&](int head, const vector<int>& t) { Edge e; e.head = head; e.tails = t; e.score = gen_score(s, kind, 3); if (o.feats) { int nf = s.below(3); for (int q = 0; q < nf; q++) e.feats[featname(s.below(4))] = s.range(1, 4); } f.edges.push_back(e); };
  for (int i = 0; i < n; i++) { term[i] = node(f.words[i], i, i + 1); int k = s.coin(1, 4) ? 2 : 1; for (int q = 0; q < k; q++) { int p = node(string("P") + (char)('a' + s.below(2)), i, i + 1); edge(p, vector<int>(1, term[i])); at[i][i + 1].push_back(p); } }
  for (int len = 1; len <= n; len++) for (int a = 0; a + len <= n; a++) {
    int b = a + len; bool root = len == n; int k = root ? 1 : s.coin(1, 2) ? 0 : s.range(1, 2); if (len == 1 && !root && !s.coin(1, 4)) k = 0;
    for (int q = 0; q < k; q++) {
      int ne = s.range(1, o.max_alt); vector<vector<int> > es;
      for (int e = 0; e < ne; e++) {
        if (len == 1 || (o.unary && !at[a][b].empty() && s.coin(1, 5))) { if (!o.unary && !root) continue; es.push_back(vector<int>(1, s.pick(at[a][b]))); continue; }
        int parts = s.range(2, min(len, o.maxk)); vector<int> cut; for (int i = a + 1; i < b; i++) cut.push_back(i);
        for (size_t i = cut.size(); i > 1; i--) swap(cut[i - 1], cut[i - 1 - s.below(i)]);
        // take cuts while the pieces have nodes; fill up with more cuts otherwise
        vector<int> c(cut.begin(), cut.begin() + parts - 1); for (size_t x = parts - 1;; x++) { vector<int> d = c; sort(d.begin(), d.end()); d.insert(d.begin(), a); d.push_back(b); bool ok = true; for (size_t i = 0; i + 1 < d.size(); i++) if (at[d[i]][d[i + 1]].empty()) ok = false; if (ok) { vector<int> t; for (size_t i = 0; i + 1 < d.size(); i++) { if (o.mixed && d[i + 1] == d[i] + 1 && s.coin(1, 6)) t.push_back(term[d[i]]); else t.push_back(s.pick(at[d[i]][d[i + 1]])); } es.push_back(t); break; } if (x >= cut.size()) break; c.push_back(cut[x]); }
      }
      if (es.empty()) continue;
      int h = node(L[s.below(o.labels)], a, b); for (auto& t : es) { bool dup = false; for (size_t i = 0; i < f.edges.size(); i++) if (f.edges[i].head == h && f.edges[i].tails == t) dup = true; if (!dup) edge(h, t); }
      at[a][b].push_back(h);
    }
  }
  int root = at[0][n].back();
  // keep what the root reaches, root first, the rest in some order
  vector<bool> keep(f.nodes.size(), o.orphan); vector<int> st(1, root); keep[root] = true; while (!st.empty()) { int x = st.back(); st.pop_back(); for (auto& e : f.edges) if (e.head == x) for (int t : e.tails) if (!keep[t] || o.orphan) { if (o.orphan) continue; keep[t] = true; st.push_back(t); } }
  vector<int> order; for (size_t i = f.nodes.size(); i-- > 0;) if (keep[i] && (int)i != root) order.push_back(i);
  if (s.coin(1, 3)) for (size_t i = order.size(); i > 1; i--) swap(order[i - 1], order[i - 1 - s.below(i)]);
  order.insert(order.begin(), root); map<int, int> id; for (size_t i = 0; i < order.size(); i++) id[order[i]] = i;
  Forest r; r.factors = 0; r.words = f.words; for (int x : order) r.nodes.push_back(f.nodes[x]);
  for (auto& e : f.edges) if (keep[e.head]) { e.head = id[e.head]; for (int& t : e.tails) t = id[t]; r.edges.push_back(e); }
  if (s.coin()) stable_sort(r.edges.begin(), r.edges.end(), [](const Edge& a, const Edge& b) { return a.head < b.head; }); else if (s.coin(1, 3)) for (size_t i = r.edges.size(); i > 1; i--) swap(r.edges[i - 1], r.edges[i - 1 - s.below(i)]);
  if (counts(r)[0] > o.max_derivs) throw pbt::Discard();
  return r;
}
inline string describe_packed(const Forest& f) { ostringstream o; o << "words " << pbt::show(f.words) << "\n"; for (size_t i = 0; i < f.nodes.size(); i++) o << "  n" << i << " " << f.nodes[i].sym << " [" << f.nodes[i].lo << "," << f.nodes[i].hi << ")\n"; for (size_t i = 0; i < f.edges.size(); i++) { o << "  e" << i << ": " << f.edges[i].head << " <- " << pbt::show(f.edges[i].tails); if (f.edges[i].score != 0) o << " score " << f.edges[i].score; if (!f.edges[i].feats.empty()) o << " " << pbt::show(f.edges[i].feats); o << "\n"; } return o.str(); }
// Derivations as text; with `bin`, nodes introduced by binarisation are opened up.
inline bool barred(const string& x) { return !x.empty() && x[x.size() - 1] == '\''; }
inline string r12(double x) { if (fabs(x) < 1e-9) x = 0; char b[40]; snprintf(b, sizeof b, "%.9g", x); return b; }
struct Sub { string text; double score; Feat feats; };   // derivations below a node, introduced nodes opened up
struct Coll {
  const Forest& f; vector<vector<int> > by; vector<bool> intro; map<int, vector<string> > memo;
  Coll(const Forest& f_, bool bin) : f(f_), by(f_.nodes.size()), intro(f_.nodes.size()) { for (size_t i = 0; i < f.edges.size(); i++) by[f.edges[i].head].push_back(i); if (bin) for (size_t i = 0; i < f.nodes.size(); i++) intro[i] = barred(f.nodes[i].sym) && !by[i].empty(); }
  // sequences of children an introduced node may stand for
  vector<Sub> expand(int n) {
    if (!intro[n]) { vector<Sub> r; for (auto& t : at(n)) { Sub x; x.text = t; x.score = 0; r.push_back(x); } return r; }
    vector<Sub> r; for (int e : by[n]) { auto v = edge(e); r.insert(r.end(), v.begin(), v.end()); } return r;
  }
  vector<Sub> edge(int e) {
    Sub z; z.score = f.edges[e].score; z.feats = f.edges[e].feats; vector<Sub> cur(1, z);
    for (int t : f.edges[e].tails) { vector<Sub> nx; auto v = expand(t); for (auto& a : cur) for (auto& b : v) { Sub c = a; c.text += (b.text.size() && b.text[0] == ' ' ? "" : " ") + b.text; c.score += b.score; for (auto& p : b.feats) c.feats[p.first] += p.second; nx.push_back(c); } cur = nx; if (cur.size() > 30000) throw pbt::Discard(); }
    return cur;
  }
  const vector<string>& at(int n) {
    auto it = memo.find(n); if (it != memo.end()) return it->second;
    vector<string> out; string head = f.nodes[n].sym + "[" + to_string(f.nodes[n].lo) + "," + to_string(f.nodes[n].hi) + ")";
    if (by[n].empty()) out.push_back(head);
    for (int e : by[n]) for (auto& x : edge(e)) out.push_back("(" + head + " " + r12(x.score) + " " + pbt::show(nz(x.feats)) + x.text + ")");
    return memo[n] = out;
  }
};
}
#endif
