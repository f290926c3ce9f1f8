// C06: binarisation.
#include "tree.h"
#include <travatar/binarizer.h>
using namespace std; using namespace travatar; using namespace tg; using pbt::S;

static Forest gen(S& s, bool big) {
  PackOpt o; o.words = big ? 10 : 7; o.maxk = big ? 9 : 6; o.mixed = true; o.labels = 4; if (s.coin(1, 4)) o.max_alt = 1; o.max_derivs = 300; Forest f = gen_packed(s, o);
  if (s.coin(1, 5)) { int n = f.nodes.size(); for (int i = 0; i < n; i++) if (f.nodes[i].sym == "S" && s.coin()) f.nodes[i].sym = "$,"; }
  return f;
}
static void law(S& s, const char* type, bool cky) {
  Forest f = gen(s, cky && s.coin(1, 4)); s.log << type << " " << describe_packed(f); int wide = 0; for (auto& e : f.edges) wide = max(wide, (int)e.tails.size());
  unique_ptr<HyperGraph> g(build(f)); unique_ptr<GraphTransformer> b(Binarizer::CreateBinarizerFromString(type)); unique_ptr<HyperGraph> r(b->TransformGraph(*g)); s.sync();
  unique_ptr<HyperGraph> again(b->TransformGraph(*g));
  Forest o = from_graph(*r), src = from_graph(*g); if (s.log.tellp() < 3000) s.log << "result " << describe_packed(o);
  CHECK_EQ(o.words, f.words, "words"); CHECK_EQ(describe_packed(src), describe_packed(f), "the input forest was changed"); CHECK_EQ(describe_packed(from_graph(*again)), describe_packed(o), "second run differs");
  vector<int> ne(o.nodes.size()); for (auto& e : o.edges) ne[e.head]++;
  for (auto& e : o.edges) { if (e.tails.size() > 2) CHECK(cky && e.tails.size() > 7, "edge with " << e.tails.size() << " children"); int p = o.nodes[e.head].lo; for (int t : e.tails) { CHECK_EQ(o.nodes[t].lo, p, "children of node " << e.head << " are not contiguous"); p = o.nodes[t].hi; } if (!e.tails.empty()) CHECK_EQ(p, o.nodes[e.head].hi, "end of the children of node " << e.head); if (barred(o.nodes[e.head].sym)) { CHECK_EQ(e.score, 0.0, "score below an introduced node"); CHECK_EQ((int)e.tails.size(), 2, "children of an introduced node"); } }
  multiset<string> want, got; auto key = [](const Node& n) { return n.sym + " " + to_string(n.lo) + " " + to_string(n.hi); };
  for (auto& n : f.nodes) want.insert(key(n)); for (size_t i = 0; i < o.nodes.size(); i++) if (!(barred(o.nodes[i].sym) && ne[i])) got.insert(key(o.nodes[i]));
  CHECK(want == got, "original nodes: expected " << pbt::show(vector<string>(want.begin(), want.end())) << " got " << pbt::show(vector<string>(got.begin(), got.end())));
  // the root: not below anything, covers everything
  vector<bool> below(o.nodes.size()); for (auto& e : o.edges) for (int t : e.tails) below[t] = true; int root = -1; for (size_t i = 0; i < o.nodes.size(); i++) if (!below[i] && !barred(o.nodes[i].sym)) { CHECK(root < 0, "two nodes without parent"); root = i; } CHECK(root >= 0, "no root");
  if (!cky) CHECK_EQ(root, 0, "root of the binarised forest");
  Coll a(f, false), c(o, true); vector<string> x = a.at(0), y = c.at(root); sort(x.begin(), x.end()); sort(y.begin(), y.end());
  if (cky) y.erase(unique(y.begin(), y.end()), y.end()), x.erase(unique(x.begin(), x.end()), x.end());
  if (x != y) { string d; for (auto& t : x) if (!binary_search(y.begin(), y.end(), t)) { d = "missing " + t; break; } for (auto& t : y) if (d == "" && !binary_search(x.begin(), x.end(), t)) d = "extra " + t; FAIL("derivations after collapsing: " << y.size() << ", originally " << x.size() << "; " << d); }
  if (wide > 2) s.label("arity>2"); if (x.size() > 1) s.label("ambiguous"); s.nontrivial(wide > 2 && f.edges.size() >= 4);
}
PROP(left, 40000, 300000) { law(s, "left", false); }
PROP(right, 40000, 300000) { law(s, "right", false); }
PROP(leftrp, 25000, 200000) { law(s, "leftrp", false); }
PROP(rightrp, 25000, 200000) { law(s, "rightrp", false); }
PROP(cky, 40000, 300000) { law(s, "cky", true); }
// Everything downstream takes node 0 for the root.
PROP(cky_root, 10000, 60000) {
  Forest f = gen(s, false); s.log << describe_packed(f); unique_ptr<HyperGraph> g(build(f)); unique_ptr<GraphTransformer> b(Binarizer::CreateBinarizerFromString("cky")); unique_ptr<HyperGraph> r(b->TransformGraph(*g));
  const HyperNode* n = r->GetNode(0); bool ok = Dict::WSym(n->GetSym()) == f.nodes[0].sym && n->GetSpan() == make_pair(f.nodes[0].lo, f.nodes[0].hi);
  const Edge& e = f.edges[0]; s.nontrivial(f.edges.size() >= 4);
  if (ok) return;
  // the finding: the first edge of the forest is not an unsplit edge of the root
  if (e.head != 0 || (e.tails.size() > 2 && e.tails.size() <= 7)) s.finding("cky-root-order", "node 0 of the result is " + Dict::WSym(n->GetSym()) + ", not the root");
  FAIL("node 0 of the result is not the root");
}
PBT_MAIN("h_binarize")
