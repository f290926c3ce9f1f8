// C10: matching tree rules against parse forests, for both rule tables.
#include "tree.h"
#include <travatar/lookup-table-hash.h>
#include <travatar/lookup-table-marisa.h>
#include <travatar/global-debug.h>
using namespace std; using namespace travatar; using namespace tg; using pbt::S; using pbt::show;

struct P { int kind; string lab; int var; vector<P> kids; P(int k = 2, const string& l = "") : kind(k), lab(l), var(0) {} };   // 0 word, 1 variable, 2 opened
struct Rule { P src; vector<vector<int> > words; /* >=0 index into vocabulary, <0 variable */ vector<string> head; vector<vector<string> > syms; Feat feats; int vars; };
static string text(const P& p) { if (p.kind == 0) return "\"" + p.lab + "\""; if (p.kind == 1) return "x" + to_string(p.var) + ":" + p.lab; string r = p.lab + " ("; for (auto& k : p.kids) r += " " + text(k); return r + " )"; }
static int vars(const P& p) { if (p.kind == 1) return 1; int n = 0; for (auto& k : p.kids) n += vars(k); return n; }
struct M { vector<int> at; Feat feats; };
static void addf(Feat& a, const Feat& b) { for (auto& p : b) a[p.first] += p.second; }
struct Net { const Forest& f; vector<vector<int> > by; Net(const Forest& f_) : f(f_), by(f_.nodes.size()) { for (size_t i = 0; i < f.edges.size(); i++) by[f.edges[i].head].push_back(i); }
  bool term(int n) const { return by[n].empty(); }
  // all ways of laying pattern p over node n
  vector<M> match(const P& p, int n, int bound) const {
    vector<M> r; if (p.lab != f.nodes[n].sym) return r;
    if (p.kind == 0) { if (term(n)) r.push_back(M()); return r; }
    if (p.kind == 1) { if (!term(n) && p.var == bound) { r.push_back(M()); r[0].at.push_back(n); } return r; }
    for (int e : by[n]) { const Edge& E = f.edges[e]; if (E.tails.size() != p.kids.size()) continue; vector<M> cur(1); cur[0].feats = E.feats;
      for (size_t i = 0; i < p.kids.size() && !cur.empty(); i++) { vector<M> nx; for (auto& a : cur) for (auto& b : match(p.kids[i], E.tails[i], bound + a.at.size())) { M c = a; c.at.insert(c.at.end(), b.at.begin(), b.at.end()); addf(c.feats, b.feats); nx.push_back(c); } cur = nx; }
      r.insert(r.end(), cur.begin(), cur.end()); }
    return r;
  } };
static P cut(S& s, const Net& n, int node, int depth, bool top) {
  if (n.term(node)) return P(0, n.f.nodes[node].sym); if (!top && s.coin(depth > 1 ? 2 : 1, 3)) return P(1, n.f.nodes[node].sym);
  P p(2, n.f.nodes[node].sym); const Edge& E = n.f.edges[s.pick(n.by[node])]; for (int t : E.tails) p.kids.push_back(cut(s, n, t, depth + 1, false)); return p;
}
static void number(P& p, int& k) { if (p.kind == 1) p.var = k++; for (auto& c : p.kids) number(c, k); }
static void all(P& p, vector<P*>& o) { o.push_back(&p); for (auto& k : p.kids) all(k, o); }
static vector<string> LABS = {"A", "B", "X"};
static string trgtext(const Rule& r, size_t k) { string o; auto put = [&](const string& x) { if (!o.empty()) o += " "; o += x; }; for (int w : r.words[k]) { if (w >= 0) put("\"" + word(w) + "\""); else put("x" + to_string(-1 - w) + (r.syms[k][-1 - w].empty() ? "" : ":" + r.syms[k][-1 - w])); } if (!r.head[k].empty()) put("@ " + r.head[k]); return o; }
static string canon(const vector<int>& w, const string& head, const vector<string>& syms) { string r; for (int x : w) r += (x >= 0 ? word(x) : "<" + to_string(-1 - x) + ">") + " "; r += "@" + head; for (auto& x : syms) r += " " + x; return r; }
static string canon(const CfgData& d) { string r; for (int x : d.words) r += (x >= 0 ? Dict::WSym(x) : "<" + to_string(-1 - x) + ">") + " "; r += "@" + (d.label >= 0 ? Dict::WSym(d.label) : string()); for (int x : d.syms) r += " " + (x >= 0 ? Dict::WSym(x) : string()); return r; }
static string fe(const Feat& f) { string r; for (auto& p : nz(f)) r += p.first + "=" + r12(p.second) + " "; return r; }
struct XE { int head; vector<int> tails; string rest; };          // an expected edge; `rest` is everything but the nodes
struct XG { vector<string> nodes; vector<XE> edges; };            // node 0 is the root
// ids of nodes up to sharing: equal id iff the node and everything below it are the same
struct Ids { map<string, int> of; int id(const string& x) { return of.insert(make_pair(x, (int)of.size())).first->second; } };
static vector<int> classes(const XG& g, Ids& ids) { vector<vector<int> > by(g.nodes.size()); for (size_t i = 0; i < g.edges.size(); i++) by[g.edges[i].head].push_back(i); vector<int> c(g.nodes.size(), -1);
  function<int(int, int)> go = [&](int n, int d) -> int { if (c[n] >= 0) return c[n]; CHECK(d < 300, "cycle"); vector<string> v; for (int e : by[n]) { string x = g.edges[e].rest + " <-"; for (int t : g.edges[e].tails) x += " " + to_string(go(t, d + 1)); v.push_back(x); } sort(v.begin(), v.end()); string k = g.nodes[n]; for (auto& x : v) k += "\n" + x; return c[n] = ids.id(k); };
  for (size_t i = 0; i < g.nodes.size(); i++) go(i, 0); return c; }
static string dump(const XG& g) { ostringstream o; for (size_t i = 0; i < g.nodes.size(); i++) { o << "    n" << i << " " << g.nodes[i] << "\n"; for (auto& e : g.edges) if (e.head == (int)i) o << "      " << e.rest << " <- " << show(e.tails) << "\n"; } return o.str(); }
static string span(const Node& n) { return " [" + to_string(n.lo) + "," + to_string(n.hi) + ")"; }

struct Unsupported {};
static string unksrc(const Net& n, int node, const Edge& e) { string r = n.f.nodes[node].sym + " ("; int k = 0; bool any = false; for (int t : e.tails) if (!n.term(t)) { r += " x" + to_string(k++) + ":" + n.f.nodes[t].sym; any = true; } if (!any) r += " \"" + n.f.words[n.f.nodes[node].lo] + "\""; return r + " )"; }
static XG expect(const Net& n, const vector<Rule>& rules, int fac, bool save, bool all_unk, bool trgmode, int& deep) {
  XG g; const Forest& f = n.f; vector<int> id(f.nodes.size(), -1);
  for (size_t i = 0; i < f.nodes.size(); i++) if (!n.term(i)) { id[i] = g.nodes.size(); g.nodes.push_back((trgmode ? string("\xcf\x87") : f.nodes[i].sym) + span(f.nodes[i])); }
  vector<vector<pair<const Rule*, M> > > hits(f.nodes.size()); for (size_t i = 0; i < f.nodes.size(); i++) if (!n.term(i)) for (auto& r : rules) for (auto& m : n.match(r.src, i, 0)) hits[i].push_back(make_pair(&r, m));
  map<pair<int, string>, int> sub; auto heads = [&](const Rule& r) { string k; for (auto& h : r.head) k += h + "|"; return k; }; auto child = [&](const Rule& r, int v) { string k; for (auto& x : r.syms) k += x[v] + "|"; return k; };
  if (trgmode) for (size_t i = 0; i < f.nodes.size(); i++) for (auto& h : hits[i]) { auto k = make_pair((int)i, heads(*h.first)); if (!sub.count(k)) { sub[k] = g.nodes.size(); g.nodes.push_back(f.nodes[i].sym + span(f.nodes[i])); XE e; e.head = id[i]; e.tails.push_back(sub[k]); string one; for (int q = 0; q < fac; q++) one += "<0> @ || "; e.rest = one + (save ? f.nodes[i].sym + " ( x0:\xcf\x87 )" : ""); g.edges.push_back(e); } }
  for (size_t i = 0; i < f.nodes.size(); i++) if (!n.term(i)) {
    for (auto& h : hits[i]) { const Rule& r = *h.first; XE e; Feat fs = r.feats; addf(fs, h.second.feats); string t; for (int q = 0; q < fac; q++) t += canon(r.words[q], r.head[q], r.syms[q]) + " || "; if (r.src.kids.size() && tsize(T()) && vars(r.src) && text(r.src).find(" (", r.src.lab.size() + 2) != string::npos) deep++;
      if (!trgmode) { e.head = id[i]; for (int x : h.second.at) e.tails.push_back(id[x]); } else { e.head = sub[make_pair((int)i, heads(r))]; int miss = 0; for (int v = 0; v < r.vars; v++) { int x = h.second.at[v]; auto it = sub.find(make_pair(x, child(r, v))); if (it != sub.end()) e.tails.push_back(it->second); else { miss++; e.tails.push_back(id[x]); } } if (miss) fs["unmatch_trg"] += miss; }
      e.rest = t + (save ? text(r.src) + " " : " ") + fe(fs); g.edges.push_back(e); }
    if (hits[i].empty() || all_unk) for (int x : n.by[i]) { const Edge& E = f.edges[x]; XE e; e.head = id[i]; int nt = 0, tt = 0; for (int t : E.tails) n.term(t) ? tt++ : nt++; if (nt && tt) throw pbt::Discard(); if (!nt && f.nodes[i].hi - f.nodes[i].lo != 1) throw Unsupported(); for (int t : E.tails) if (!n.term(t)) e.tails.push_back(id[t]);
      string d; if (nt) for (int q = 0; q < nt; q++) d += "<" + to_string(q) + "> "; else d = f.words[f.nodes[i].lo] + " "; string t; for (int q = 0; q < fac; q++) t += d + "@ || "; Feat fs = E.feats; fs["unk"] += 1; e.rest = t + (save ? unksrc(n, i, E) + " " : " ") + fe(fs); g.edges.push_back(e); }
  }
  return g;
}
static XG observed(const HyperGraph& g, int fac, bool save) {
  XG x; Forest f = from_graph(g, fac); for (auto& nd : f.nodes) x.nodes.push_back(nd.sym + span(nd));
  for (int i = 0; i < g.NumEdges(); i++) { const HyperEdge* h = g.GetEdge(i); XE e; e.head = h->GetHead()->GetId(); for (auto t : h->GetTails()) e.tails.push_back(t->GetId()); CHECK_EQ((int)h->GetTrgData().size(), fac, "factors of an edge"); for (auto& d : h->GetTrgData()) e.rest += canon(d) + " || "; string ft = fe(from_feats(h->GetFeatures())); bool conn = e.tails.size() == 1 && x.nodes[e.head].compare(0, 2, "\xcf\x87") == 0 && ft.empty() && h->GetTrgData()[0].syms.empty(); if (!save) CHECK_EQ(h->GetSrcStr(), string(), "source string although none was asked for"); e.rest += h->GetSrcStr() + (conn ? "" : " ") + ft; CHECK_EQ(h->GetScore(), 0.0, "score of an edge"); x.edges.push_back(e); }
  int listed = 0; for (int i = 0; i < g.NumNodes(); i++) { for (auto e : g.GetNode(i)->GetEdges()) { CHECK(e->GetHead() == g.GetNode(i), "an edge is listed at a node that is not its head"); listed++; } } CHECK_EQ(listed, g.NumEdges(), "edges listed at their heads");
  return x;
}
static void law(S& s, bool trgmode) {
  PackOpt o; o.words = s.thorough ? 7 : 5; o.maxk = 3; o.labels = s.range(2, 4); o.nasty = s.coin(1, 4); o.mixed = s.coin(1, 5); o.max_derivs = 1e9; o.max_alt = s.coin(1, 3) ? 1 : 2; Forest f = gen_packed(s, o); for (auto& e : f.edges) e.score = 0;
  // single-word phrases that are also words themselves
  { vector<int> term(f.words.size(), -1); Net n0(f); for (size_t i = 0; i < f.nodes.size(); i++) if (n0.term(i)) term[f.nodes[i].lo] = i; for (size_t i = 0; i < f.nodes.size(); i++) if (!n0.term(i) && f.nodes[i].hi == f.nodes[i].lo + 1 && f.nodes[i].sym[0] != 'P' && s.coin(1, 6)) { Edge e; e.head = i; e.tails.push_back(term[f.nodes[i].lo]); e.score = 0; bool dup = false; for (auto& x : f.edges) if (x.head == (int)i && x.tails == e.tails) dup = true; if (!dup) f.edges.push_back(e); } }
  if (f.nodes.size() > 40) throw pbt::Discard(); int fac = s.coin(1, 4) ? 2 : 1; Net n(f); vector<int> nts; for (size_t i = 0; i < f.nodes.size(); i++) if (!n.term(i)) nts.push_back(i);
  vector<Rule> rules; int nr = s.size(0, 14);
  for (int q = 0; q < nr; q++) {
    Rule r; if (!rules.empty() && s.coin(1, 3)) r.src = rules[s.below(rules.size())].src; else { r.src = cut(s, n, s.pick(nts), 0, true); if (s.coin(1, 5)) { vector<P*> v; all(r.src, v); P* p = v[s.below(v.size())]; switch (s.below(4)) { case 0: p->lab = p->kind == 0 ? word(s.below(4)) : string("S"); break; case 1: if (p->kids.size() > 1) p->kids.pop_back(); break; case 2: if (p->kind == 2 && p != &r.src) { P q2(1, p->lab); *p = q2; } break; default: if (p->kind == 2) p->kids.push_back(P(0, word(s.below(4)))); } } int k = 0; number(r.src, k); }
    r.vars = vars(r.src); if (r.vars > 6) { continue; } if (r.vars == 2 && s.coin(1, 15)) { vector<P*> v; all(r.src, v); for (P* p : v) if (p->kind == 1) p->var = 1 - p->var; }
    int labelled = trgmode ? 2 : s.below(3); for (int k = 0; k < fac; k++) { vector<int> w; for (int i = 0; i < r.vars; i++) w.push_back(-1 - i); for (size_t i = w.size(); i > 1; i--) swap(w[i - 1], w[s.below(i)]); if (!trgmode && !w.empty() && s.coin(1, 8)) w.erase(w.begin() + s.below(w.size())); int nw = s.below(3); for (int i = 0; i < nw; i++) w.insert(w.begin() + s.below(w.size() + 1), s.below(8)); r.words.push_back(w); r.head.push_back(labelled && !(trgmode && s.coin(1, 6)) ? LABS[s.below(2 + (labelled == 1))] : ""); vector<string> sy(r.vars); for (int i = 0; i < r.vars; i++) if (labelled == 2) sy[i] = LABS[s.below(2)]; if (!trgmode) { int last = -1; for (int x : w) if (x < 0 && labelled == 2) last = max(last, -1 - x); vector<string> t; for (int i = 0; i <= last; i++) t.push_back(count(w.begin(), w.end(), -1 - i) ? sy[i] : ""); r.syms.push_back(t); } else r.syms.push_back(sy); }
    int nf = s.below(3); for (int i = 0; i < nf; i++) r.feats[featname(s.below(4))] = s.range(-3, 4); rules.push_back(r);
  }
  bool sorted = s.coin(1, 3); if (sorted) stable_sort(rules.begin(), rules.end(), [](const Rule& a, const Rule& b) { return text(a.src) < text(b.src); });
  string tab; for (auto& r : rules) { string t; for (int k = 0; k < fac; k++) { auto full = r; if (!trgmode) { full.syms[k].resize(max((size_t)r.vars, full.syms[k].size())); } t += (k ? " |COL| " : "") + trgtext(full, k); } string fs; for (auto& p : r.feats) fs += (fs.empty() ? "" : " ") + p.first + "=" + to_string((int)p.second); tab += text(r.src) + " ||| " + t + " ||| " + fs + (s.coin(1, 4) ? " ||| 1 2 3 ||| 0-0" : "") + "\n"; }
  bool save = s.coin(), unk = s.coin(1, 4); s.log << describe_packed(f) << "rules\n" << tab << (save ? "save source, " : "") << (unk ? "match all unknown, " : "") << (trgmode ? "target labels, " : "") << fac << " factor(s)\n"; s.sync();
  int deep = 0; bool bad = false; XG want; try { want = expect(n, rules, fac, save, unk, trgmode, deep); } catch (Unsupported&) { bad = true; }
  struct G { G(int f) { GlobalVars::trg_factors = f; } ~G() { GlobalVars::trg_factors = 1; } } guard(fac); unique_ptr<HyperGraph> g(build(f)); string before = describe_packed(from_graph(*g));
  for (int t = 0; t < 2; t++) { istringstream is(tab); unique_ptr<LookupTable> lt(t ? (LookupTable*)LookupTableMarisa::ReadFromRuleTable(is) : (LookupTable*)LookupTableHash::ReadFromRuleTable(is)); lt->SetSaveSrcStr(save); lt->SetMatchAllUnk(unk); lt->SetConsiderTrg(trgmode); const char* nm = t ? "marisa" : "hash";
    unique_ptr<HyperGraph> r; bool threw = false; try { r.reset(lt->TransformGraph(*g)); } catch (std::exception& e) { threw = true; } CHECK_EQ(threw, bad, nm << ": an unknown edge over several words must be refused"); if (threw) continue;
    CHECK_EQ(describe_packed(from_graph(*g)), before, "the parse was changed"); XG got = observed(*r, fac, save); vector<string> ws; for (int w : r->GetWords()) ws.push_back(Dict::WSym(w)); CHECK_EQ(ws, f.words, nm << ": words");
    if (!trgmode) { CHECK_EQ(got.nodes, want.nodes, nm << ": nodes"); vector<string> a, b; auto line = [](const XE& e) { return to_string(e.head) + " <- " + show(e.tails) + " " + e.rest; }; for (auto& e : want.edges) a.push_back(line(e)); for (auto& e : got.edges) b.push_back(line(e)); sort(a.begin(), a.end()); sort(b.begin(), b.end()); if (a != b) { for (auto& x : a) if (count(a.begin(), a.end(), x) > count(b.begin(), b.end(), x)) FAIL(nm << ": missing edge " << x); for (auto& x : b) if (count(b.begin(), b.end(), x) > count(a.begin(), a.end(), x)) FAIL(nm << ": unexpected edge " << x); } }
    else { Ids ids; vector<int> a = classes(want, ids), b = classes(got, ids); if (a[0] != b[0]) FAIL(nm << ": different below the root\nexpected\n" << dump(want) << "got\n" << dump(got)); sort(a.begin(), a.end()); sort(b.begin(), b.end()); CHECK(a == b, nm << ": nodes differ\nexpected\n" << dump(want) << "got\n" << dump(got)); } }
  if (deep) s.label("several levels"); if (bad) s.label("refused"); size_t hit = 0; for (auto& e : want.edges) hit += e.rest.find("unk=") == string::npos; s.nontrivial(hit >= 3 && deep);
}
PROP(rules, 40000, 600000) { law(s, false); }
PROP(target_labels, 15000, 250000) { law(s, true); }
// rule sources that are no complete tree never match and never disturb the rules that are
PROP(fragments, 8000, 80000) {
  PackOpt o; o.words = 4; o.maxk = 3; o.labels = 2; o.max_alt = 2; Forest f = gen_packed(s, o); for (auto& e : f.edges) e.score = 0; Net n(f); vector<int> nts; for (size_t i = 0; i < f.nodes.size(); i++) if (!n.term(i)) nts.push_back(i);
  vector<Rule> rules; string tab; int nr = s.range(1, 6), odd = 0;
  for (int q = 0; q < nr; q++) { Rule r; r.src = cut(s, n, s.pick(nts), 0, true); int k = 0; number(r.src, k); r.vars = k; r.words.resize(1); for (int i = 0; i < k; i++) r.words[0].push_back(-1 - i); r.words[0].push_back(q); r.head.push_back(""); r.syms.resize(1); string src = text(r.src); istringstream is(src); vector<string> tk; string t; while (is >> t) tk.push_back(t); bool bad = s.coin();
    if (bad) { size_t c = 1 + s.below(tk.size()); switch (s.below(4)) { case 0: tk.resize(c); bad = c < tk.size() || text(r.src) != src; break; case 1: tk.push_back(s.coin() ? "\"a\"" : s.coin() ? ")" : "x0:S"); break; case 2: tk.insert(tk.begin(), s.coin() ? "" : "S"); break; default: tk.erase(tk.begin() + (c - 1)); } string u; for (size_t i = 0; i < tk.size(); i++) u += (i ? " " : "") + tk[i]; bad = u != src; src = u; if (bad) odd++; }
    // a changed source may still be a tree: leave those out
    if (bad) { int d = 0; bool closed = false, tree = true; istringstream js(src); string w, last; int i = 0; while (js >> w) { if (closed) tree = false; if (w == "(" ) { d++; if (last == "" || last == "(" || last == ")" || last[0] == '"' || (last[0] == 'x' && last.size() > 2)) tree = false; } else if (w == ")") { d--; if (d == 0) closed = true; if (last == "(") tree = false; } last = w; i++; } if (d != 0 || !closed || src[0] == ' ') tree = false; if (tree) continue; } else { string key = src; rules.push_back(r); }
    tab += src + " ||| " + [&] { string t; for (int i = 0; !bad && i < k; i++) t += "x" + to_string(i) + " "; return t; }() + "\"" + word(q) + "\" ||| p=1\n"; if (!bad) rules.back().feats["p"] = 1; }
  s.log << describe_packed(f) << tab; s.sync(); int deep = 0; XG want = expect(n, rules, 1, false, false, false, deep); unique_ptr<HyperGraph> g(build(f));
  for (int t = 0; t < 2; t++) { istringstream is(tab); unique_ptr<LookupTable> lt(t ? (LookupTable*)LookupTableMarisa::ReadFromRuleTable(is) : (LookupTable*)LookupTableHash::ReadFromRuleTable(is)); const char* nm = t ? "marisa" : "hash"; unique_ptr<HyperGraph> r(lt->TransformGraph(*g)); XG got = observed(*r, 1, false); vector<string> a, b; auto line = [](const XE& e) { return to_string(e.head) + " <- " + show(e.tails) + " " + e.rest; }; for (auto& e : want.edges) a.push_back(line(e)); for (auto& e : got.edges) b.push_back(line(e)); sort(a.begin(), a.end()); sort(b.begin(), b.end()); if (a != b) { for (auto& x : a) if (count(a.begin(), a.end(), x) > count(b.begin(), b.end(), x)) FAIL(nm << ": missing edge " << x); for (auto& x : b) if (count(b.begin(), b.end(), x) > count(a.begin(), a.end(), x)) FAIL(nm << ": unexpected edge " << x); } }
  s.nontrivial(odd && want.edges.size() >= 3);
}
PBT_MAIN("h_lookup")
