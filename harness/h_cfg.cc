// C11: parsing strings with synchronous grammars, against a brute-force chart.
#include "tgen.h"
#include "lmgen.h"
#include <travatar/lookup-table-fsm.h>
#include <travatar/lookup-table-cfglm.h>
#include <travatar/translation-rule-hiero.h>
#include <travatar/weights.h>
using namespace tg; using namespace travatar; using pbt::show; typedef vector<string> Words;

// a rule: source symbols (words, or -1-k for variable k), one target side per factor, labels per variable [src, trg...]
struct Rule { vector<string> src; vector<int> var; /* -1 word, else variable */ vector<vector<string> > labs; vector<vector<int> > trg; vector<string> head; Feat feats; string tsrc, ttrg; };
struct Gram { vector<Rule> rules; int limit; string file; };
struct Node2 { int lo, hi; vector<string> lab; bool operator<(const Node2& o) const { return tie(lo, hi, lab) < tie(o.lo, o.hi, o.lab); } };
struct App { const Rule* r; Node2 head; vector<Node2> tails; string rest; };
static string fe(const Feat& f) { string r; for (auto& p : nz(f)) { char b[60]; snprintf(b, sizeof b, "%s=%.6g ", p.first.c_str(), p.second); r += b; } return r; }
static string canon(const CfgData& d) { string r; for (int x : d.words) r += (x >= 0 ? Dict::WSym(x) : "<" + to_string(-1 - x) + ">") + " "; r += "@" + (d.label >= 0 ? Dict::WSym(d.label) : string()); for (int x : d.syms) r += " " + (x >= 0 ? Dict::WSym(x) : string()); return r; }
static string rfeat(int i) { static const char* W[] = {"p", "q", "m", "wp"}; return W[i]; }
static string tword(int i) { return "t" + string(1, 'a' + i); }
static string label(int i) { return string(1, "SXAB"[i]); }

static void finish(Rule& r) {
  auto put = [](string& o, const string& x) { if (!o.empty()) o += " "; o += x; }; string s; for (size_t i = 0; i < r.src.size(); i++) put(s, r.var[i] < 0 ? "\"" + r.src[i] + "\"" : "x" + to_string(r.var[i]) + ":" + r.labs[r.var[i]][0]); put(s, "@ " + r.head[0]); r.tsrc = s;
  r.ttrg = ""; for (size_t k = 0; k < r.trg.size(); k++) { string t; for (int w : r.trg[k]) put(t, w >= 0 ? "\"" + tword(w) + "\"" : "x" + to_string(-1 - w) + ":" + r.labs[-1 - w][k + 1]); put(t, "@ " + r.head[k + 1]); r.ttrg += (k ? " |COL| " : "") + t; }
}
static string rest(const Rule& r) { string t; for (size_t k = 0; k < r.trg.size(); k++) { for (int w : r.trg[k]) t += (w >= 0 ? tword(w) : "<" + to_string(-1 - w) + ">") + " "; t += "@" + r.head[k + 1]; for (auto& l : r.labs) t += " " + l[k + 1]; t += " || "; } return t; }
static string line(const Rule& r) { string f; for (auto& p : r.feats) f += (f.empty() ? "" : " ") + p.first + "=" + to_string((int)p.second); return r.tsrc + " ||| " + r.ttrg + " ||| " + f + "\n"; }
static Rule gen_rule(S& s, int fac, int labels, int words, int tagvar) {
  Rule r; int n = s.coin(1, 3) ? 1 : s.range(2, 4), v = 0; auto labs = [&] { vector<string> l; int a = s.below(labels); for (int k = 0; k <= fac; k++) l.push_back(label(tagvar && s.coin(1, tagvar) ? s.below(labels) : a)); return l; };
  for (int i = 0; i < n; i++) { bool var = s.coin(n == 1 ? 1 : 2, 4); r.src.push_back(var ? "" : word(s.below(words))); r.var.push_back(var ? v++ : -1); if (var) r.labs.push_back(labs()); } r.head = labs();
  for (int k = 0; k < fac; k++) { vector<int> w; for (int i = 0; i < v; i++) w.push_back(-1 - i); for (size_t i = w.size(); i > 1; i--) swap(w[i - 1], w[s.below(i)]); int nw = s.below(3); for (int i = 0; i < nw; i++) w.insert(w.begin() + s.below(w.size() + 1), s.below(4)); r.trg.push_back(w); }
  int nf = s.below(3); for (int i = 0; i < nf; i++) r.feats[rfeat(s.below(4))] = s.range(-3, 4); finish(r); return r;
}
static bool cyclic(const vector<const Rule*>& rules) { map<vector<string>, set<vector<string> > > up; for (auto r : rules) if (r->src.size() == 1 && r->var[0] == 0) up[r->labs[0]].insert(r->head); for (bool more = true; more;) { more = false; for (auto& x : up) { auto c = x.second; for (auto& y : c) if (up.count(y)) for (auto& z : up[y]) more |= x.second.insert(z).second; } } for (auto& x : up) if (x.second.count(x.first)) return true; return false; }

struct Chart {
  const Words& sent; const vector<Gram>& gs; set<Node2> nodes; vector<App> apps; vector<string> unk; bool useunk; int n;
  Chart(const Words& w, const vector<Gram>& g, const vector<string>& u, bool useunk_) : sent(w), gs(g), unk(u), useunk(useunk_), n(w.size()) {
    if (useunk) for (int i = 0; i < n; i++) { Node2 x = {i, i + 1, unk}; nodes.insert(x); }
    for (int len = 1; len <= n; len++) for (int a = 0; a + len <= n; a++) { int b = a + len; for (auto& g : gs) for (auto& r : g.rules) if (!(r.src.size() == 1 && r.var[0] == 0)) { vector<Node2> t; lay(g, r, 0, a, a, b, t); }
      for (bool more = true; more;) { more = false; for (auto& g : gs) for (auto& r : g.rules) if (r.src.size() == 1 && r.var[0] == 0 && len <= g.limit) { Node2 x = {a, b, r.labs[0]}, h = {a, b, r.head}; if (nodes.count(x)) more |= nodes.insert(h).second; } }
      for (auto& g : gs) for (auto& r : g.rules) if (r.src.size() == 1 && r.var[0] == 0 && len <= g.limit) { Node2 x = {a, b, r.labs[0]}; if (nodes.count(x)) add(r, a, b, vector<Node2>(1, x)); } }
  }
  void add(const Rule& r, int a, int b, const vector<Node2>& t) { App x; x.r = &r; x.head = {a, b, r.head}; x.tails = t; x.rest = rest(r); apps.push_back(x); nodes.insert(x.head); if (apps.size() > 1500) throw pbt::Discard(); }
  void lay(const Gram& g, const Rule& r, size_t k, int pos, int a, int b, vector<Node2>& t) {
    if (k == r.src.size()) { if (pos == b) add(r, a, b, t); return; } if (pos >= b) return;
    if (r.var[k] < 0) { if (sent[pos] == r.src[k]) lay(g, r, k + 1, pos + 1, a, b, t); return; }
    for (int e = pos + 1; e <= b && e - pos <= g.limit; e++) { if (e - pos == b - a) continue; Node2 x = {pos, e, r.labs[r.var[k]]}; if (nodes.count(x)) { t.push_back(x); lay(g, r, k + 1, e, a, b, t); t.pop_back(); } }
  }
};
struct Ids { map<string, int> of; int id(const string& x) { return of.insert(make_pair(x, (int)of.size())).first->second; } };
static string name(const Node2& n) { return n.lab[0] + " [" + to_string(n.lo) + "," + to_string(n.hi) + ")"; }
static Words sentence(S& s, int words, int max) { Words w; int n = s.size(1, max); for (int i = 0; i < n; i++) w.push_back(word(s.below(words))); return w; }
static HyperGraph* input(const Words& w) { HyperGraph* g = new HyperGraph; for (auto& x : w) g->AddWord(Dict::WID(x)); return g; }
struct Factors { Factors(int n) { GlobalVars::trg_factors = n; } ~Factors() { GlobalVars::trg_factors = 1; } };
static vector<Gram> grammars(S& s, int ng, int fac, int labels, int words, int tagvar, int maxr, bool dense = false) {
  vector<Gram> gs(ng); for (int k = 0; k < ng; k++) { gs[k].limit = s.coin() ? 20 : s.range(1, 4); int nr = s.size(1, maxr); for (int i = 0; i < nr; i++) { if (i && s.coin(1, 5)) { Rule r = gs[k].rules[s.below(i)]; r.feats.clear(); r.feats["dup"] = 1 + s.below(3); for (auto& t : r.trg) t.insert(t.begin(), s.below(4)); if (s.coin()) r.head[0] = label(s.below(labels)); finish(r); gs[k].rules.push_back(r); } else gs[k].rules.push_back(gen_rule(s, fac, labels, words, tagvar)); }
    if (dense) for (int i = 0; i < words; i++) if (s.coin(4, 5)) { Rule r; r.src = {word(i)}; r.var = {-1}; r.head = Words(fac + 1, label(s.below(labels))); r.trg.assign(fac, vector<int>()); for (auto& x : r.trg) for (int n = s.below(3); n > 0; n--) x.push_back(s.below(4)); r.feats[rfeat(s.below(2))] = s.range(-3, 4); finish(r); gs[k].rules.push_back(r); }
    if (s.coin(dense ? 2 : 1, 3)) { Rule r; bool right = s.coin(); r.src = {"", ""}; r.var = {0, 1}; r.labs = {Words(fac + 1, "X"), Words(fac + 1, "S")}; if (!right) swap(r.labs[0], r.labs[1]); r.head = Words(fac + 1, "S"); r.trg.assign(fac, vector<int>{-1, -2}); r.feats["glue"] = 1; finish(r); gs[k].rules.push_back(r); r.src = {""}; r.var = {0}; r.labs = {Words(fac + 1, "X")}; r.trg.assign(fac, vector<int>{-1}); finish(r); gs[k].rules.push_back(r); } }
  for (size_t k = 0; k < gs.size(); k++) { string t; for (auto& r : gs[k].rules) t += line(r); gs[k].file = pbt::scratch() + "/g" + to_string(k); pbt::spew(gs[k].file, t); s.log << "grammar " << k << " limit " << gs[k].limit << "\n" << t; } return gs;
}
PROP(parse, 25000, 400000) {
  int fac = s.coin(1, 4) ? 2 : 1, labels = s.range(2, 4), words = s.range(1, 4); Factors F(fac); int tagvar = s.coin() ? 0 : 4; vector<Gram> gs = grammars(s, s.coin(1, 3) ? s.range(2, 3) : 1, fac, labels, words, tagvar, s.thorough ? 14 : 10, s.coin()); Words w = sentence(s, words + s.coin(1, 3), s.thorough ? 7 : 5);
  string us = s.coin(1, 3) ? label(s.below(labels)) : "X", rs = s.coin(1, 3) ? label(s.below(labels)) : "S"; bool del = s.coin(1, 4), save = s.coin(); s.log << show(w) << " unknown " << us << " root " << rs << (del ? " delete unknown" : "") << (save ? " source strings" : "") << "\n"; s.sync();
  vector<const Rule*> all; for (auto& g : gs) for (auto& r : g.rules) all.push_back(&r); bool cyc = cyclic(all), threw = false; vector<string> files; vector<int> lim; for (auto& g : gs) files.push_back(g.file), lim.push_back(g.limit); unique_ptr<LookupTableFSM> lt; try { lt.reset(LookupTableFSM::ReadFromFiles(files)); } catch (std::exception& e) { threw = true; } CHECK_EQ(threw, cyc, "grammars are refused exactly when unary rules form a cycle"); if (cyc) { s.label("unary cycle"); return; }
  Chart c(w, gs, Words(fac + 1, us), true); lt->SetTrgFactors(fac); lt->SetRootSymbol(Dict::WID(rs)); lt->SetUnkSymbol(Dict::WID(us)); lt->SetDeleteUnknown(del); lt->SetSpanLimits(lim); lt->SetSaveSrcStr(save); unique_ptr<HyperGraph> in(input(w)), r(lt->TransformGraph(*in));
  // expected: everything below the root
  map<Node2, vector<const App*> > by; for (auto& a : c.apps) by[a.head].push_back(&a); Node2 root = {0, (int)w.size(), Words(fac + 1, rs)};
  if (!c.nodes.count(root)) { CHECK_EQ(r->NumNodes(), 0, "nodes of a parse that does not exist"); CHECK_EQ(r->NumEdges(), 0, "edges of a parse that does not exist"); return; }
  CHECK(r->NumNodes() > 0, "no parse found although there is one"); Ids ids; map<Node2, int> cls; size_t ne = 0; bool unknown = false;
  function<int(const Node2&)> go = [&](const Node2& x) -> int { auto it = cls.find(x); if (it != cls.end()) return it->second; vector<string> v; for (auto a : by[x]) { string t = a->rest + (save ? a->r->tsrc : "") + " " + fe(a->r->feats) + " <-"; for (auto& y : a->tails) t += " " + to_string(go(y)); v.push_back(t); ne++; } if (v.empty()) { string t; for (int k = 0; k < fac; k++) t += (del ? string("") : w[x.lo]) + " @" + us + " || "; v.push_back(t + (save ? "\"" + w[x.lo] + "\" @ " + us : "") + " unk=1  <-"); ne++; unknown = true; } sort(v.begin(), v.end()); string k = name(x); for (auto& y : v) k += "\n" + y; return cls[x] = ids.id(k); };
  int want = go(root); Forest f = from_graph(*r, fac); CHECK_EQ(f.words, w, "words"); vector<vector<int> > fb(f.nodes.size()); for (size_t i = 0; i < f.edges.size(); i++) fb[f.edges[i].head].push_back(i); vector<int> got(f.nodes.size(), -1);
  function<int(int, int)> og = [&](int x, int d) -> int { if (got[x] >= 0) return got[x]; CHECK(d < 100, "the parse is cyclic"); vector<string> v; for (int e : fb[x]) { const HyperEdge* h = r->GetEdge(e); string t; CHECK_EQ((int)h->GetTrgData().size(), fac, "factors of an edge"); for (auto& q : h->GetTrgData()) t += canon(q) + " || "; t += h->GetSrcStr() + " " + fe(f.edges[e].feats) + " <-"; int p = f.nodes[x].lo; for (int y : f.edges[e].tails) { CHECK(f.nodes[y].lo >= p && f.nodes[y].hi <= f.nodes[x].hi, "children of " << f.nodes[x].sym << " out of order"); p = f.nodes[y].hi; t += " " + to_string(og(y, d + 1)); } v.push_back(t); } sort(v.begin(), v.end()); string k = f.nodes[x].sym + " [" + to_string(f.nodes[x].lo) + "," + to_string(f.nodes[x].hi) + ")"; for (auto& y : v) k += "\n" + y; return got[x] = ids.id(k); };
  int have = og(0, 0); auto dump = [&] { ostringstream o; o << "expected\n"; for (auto& x : cls) for (auto a : by[x.first]) { o << "  " << name(x.first) << ": " << a->rest << " <-"; for (auto& y : a->tails) o << " " << name(y); o << "\n"; } o << "got\n"; for (size_t i = 0; i < f.edges.size(); i++) { o << "  " << f.nodes[f.edges[i].head].sym << " [" << f.nodes[f.edges[i].head].lo << "," << f.nodes[f.edges[i].head].hi << "): " << canon(r->GetEdge(i)->GetTrgData()[0]) << " <-"; for (int t : f.edges[i].tails) o << " " << f.nodes[t].sym << "[" << f.nodes[t].lo << "," << f.nodes[t].hi << ")"; o << "\n"; } return o.str(); };
  if (want != have) FAIL("the parse forests differ\n" << dump()); CHECK_EQ(f.edges.size(), ne, "edges (some are not below the root?)"); CHECK_EQ(f.nodes.size(), cls.size(), "nodes"); { size_t l = 0; for (int i = 0; i < r->NumNodes(); i++) { for (auto e : r->GetNode(i)->GetEdges()) CHECK(e->GetHead() == r->GetNode(i), "edge listed at another node"); l += r->GetNode(i)->GetEdges().size(); } CHECK_EQ(l, ne, "edges listed at their heads"); }
  if (gs.size() > 1) s.label("several grammars"); if (unknown) s.label("unknown word"); s.nontrivial(ne >= 4 && w.size() >= 2);
}

// the chart with a language model
struct D { string sig; Words words; Feat feats; };
PROP(unary_rings, 2500, 40000) {
  int n = s.range(2, 9), ng = s.coin(1, 4) ? 2 : 1; vector<int> perm; for (int i = 0; i < 9; i++) perm.push_back(i); for (size_t i = 9; i > 1; i--) swap(perm[i - 1], perm[s.below(i)]); vector<Gram> gs(ng); for (auto& g : gs) g.limit = 20;
  auto unary = [&](int from, int to) { Rule r; r.src = {""}; r.var = {0}; r.labs = {Words(2, "R" + to_string(perm[from]))}; r.head = Words(2, "R" + to_string(perm[to])); r.trg = {vector<int>{-1}}; r.feats["u"] = 1; finish(r); gs[s.below(ng)].rules.push_back(r); };
  int skip = s.coin() ? s.below(n) : -1; for (int i = 0; i < n; i++) if (i != skip) unary(i, (i + 1) % n); for (int k = s.below(3); k > 0; k--) { int a = s.below(n), b = s.below(n); if (a != b) unary(a, b); }
  for (auto& g : gs) for (size_t i = g.rules.size(); i > 1; i--) swap(g.rules[i - 1], g.rules[s.below(i)]);
  { Rule r; r.src = {word(0)}; r.var = {-1}; r.head = Words(2, "R" + to_string(perm[s.below(n)])); r.trg = {vector<int>{0}}; finish(r); gs[0].rules.push_back(r); }
  vector<string> files; for (int k = 0; k < ng; k++) { string t; for (auto& r : gs[k].rules) t += line(r); gs[k].file = pbt::scratch() + "/u" + to_string(k); pbt::spew(gs[k].file, t); files.push_back(gs[k].file); s.log << "grammar " << k << "\n" << t; }
  vector<const Rule*> all; for (auto& g : gs) for (auto& r : g.rules) all.push_back(&r); bool cyc = cyclic(all), threw = false; unique_ptr<LookupTableFSM> lt; try { lt.reset(LookupTableFSM::ReadFromFiles(files)); } catch (std::exception& e) { threw = true; }
  CHECK_EQ(threw, cyc, "grammars are refused exactly when unary rules form a cycle"); if (ng == 1) { bool t2 = false; unique_ptr<LookupTableCFGLM> c; try { c.reset(LookupTableCFGLM::ReadFromFiles(files)); } catch (std::exception&) { t2 = true; } CHECK_EQ(t2, cyc, "grammars for parsing with language models are refused exactly when unary rules form a cycle"); }
  s.label(cyc ? "long cycle" : "long chain"); s.nontrivial(n >= 3);
}
PROP(parse_lm, 10000, 150000) {
  Factors F(1); int labels = s.range(2, 3), words = s.range(1, 3); vector<Gram> gs = grammars(s, 1, 1, labels, words, s.coin() ? 0 : 5, s.thorough ? 10 : 8, s.coin(3, 4)); gs[0].limit = 1000; vector<Words> ws; for (int n = s.range(1, 6); n > 0; n--) ws.push_back(sentence(s, words, s.thorough ? 5 : 4)); string rs = s.coin(1, 3) ? label(s.below(labels)) : "S"; bool haslm = !s.coin(1, 4), all = s.coin(2, 3); lmg::Lm m; string lf = pbt::scratch() + "/lm";
  if (haslm) { Words v; for (int i = 0; i < 4; i++) if (s.coin(3, 4)) v.push_back(tword(i)); if (v.empty()) v.push_back("ta"); m = lmg::gen(s, v, 4, 12, false); pbt::spew(lf, m.text); s.log << m.text; } int pops = all ? -1 : s.range(1, 6), lim = all ? -1 : s.coin() ? -1 : s.range(1, 3); for (auto& x : ws) s.log << show(x); s.log << " root " << rs << " pops " << pops << " chart " << lim << "\n"; s.sync();
  vector<const Rule*> rl; for (auto& r : gs[0].rules) rl.push_back(&r); bool cyc = cyclic(rl), threw = false; Weights wt; { SparseMap sm; for (int i = 0; i < 4; i++) sm[Dict::WID(rfeat(i))] = s.quarter(2); sm[Dict::WID("lm")] = 1; sm[Dict::WID("lmunk")] = -1; wt.SetCurrent(sm); } unique_ptr<LookupTableCFGLM> lt; try { lt.reset(LookupTableCFGLM::ReadFromFiles(vector<string>(1, gs[0].file))); } catch (std::exception&) { threw = true; } CHECK_EQ(threw, cyc, "grammars are refused exactly when unary rules form a cycle"); if (cyc) return;
  if (haslm) lt->LoadLM(lf); lt->SetPopLimit(pops); lt->SetChartLimit(lim); lt->SetTrgFactors(1); lt->SetRootSymbol(Dict::WID(rs)); lt->SetWeights(wt);
  size_t most = 0; for (auto& w : ws) {
  Chart c(w, gs, Words(2, "X"), false); map<Node2, vector<const App*> > by; for (auto& a : c.apps) by[a.head].push_back(&a); map<Node2, vector<D> > memo; size_t total = 0;
  function<const vector<D>&(const Node2&)> en = [&](const Node2& x) -> const vector<D>& { auto it = memo.find(x); if (it != memo.end()) return it->second; vector<D> out; for (auto a : by[x]) { vector<vector<D> > ch; for (auto& t : a->tails) ch.push_back(en(t)); vector<size_t> ix(ch.size(), 0); for (;;) { D d; Feat own = a->r->feats; own.erase("lm"); own.erase("lmunk"); d.sig = name(x) + ": " + a->rest + fe(own) + "("; d.feats = a->r->feats; for (size_t i = 0; i < ch.size(); i++) { auto& k = ch[i][ix[i]]; d.sig += k.sig + ","; for (auto& p : k.feats) d.feats[p.first] += p.second; } d.sig += ")"; for (int q : a->r->trg[0]) if (q >= 0) d.words.push_back(tword(q)); else { auto& k = ch[-1 - q][ix[-1 - q]].words; d.words.insert(d.words.end(), k.begin(), k.end()); } out.push_back(d); if (++total > 3000) throw pbt::Discard(); size_t i = 0; for (; i < ix.size(); i++) { if (++ix[i] < ch[i].size()) break; ix[i] = 0; } if (i == ix.size()) break; } } return memo[x] = out; };
  Node2 root = {0, (int)w.size(), Words(2, rs)}; vector<D> want; if (c.nodes.count(root)) want = en(root); if (haslm) for (auto& d : want) { double u = 0; Words t = d.words; for (auto& x : t) if (!m.t.count(Words(1, x))) u++; t.push_back("</s>"); d.feats["lm"] += m.total(Words(1, "<s>"), t); d.feats["lmunk"] += u; }
  unique_ptr<HyperGraph> in(input(w)), r(lt->TransformGraph(*in)); Forest f = from_graph(*r); if (f.nodes.empty()) { CHECK(!all || want.empty(), "no parse found, " << want.size() << " expected"); continue; } CHECK_EQ(f.words, w, "words"); vector<vector<int> > fb(f.nodes.size()); for (size_t i = 0; i < f.edges.size(); i++) fb[f.edges[i].head].push_back(i); map<int, vector<D> > gm; set<int> busy; size_t tot = 0;
  function<const vector<D>&(int)> og = [&](int x) -> const vector<D>& { auto it = gm.find(x); if (it != gm.end()) return it->second; CHECK(busy.insert(x).second, "the parse is cyclic"); vector<D> out; for (int e : fb[x]) { const HyperEdge* h = r->GetEdge(e); vector<vector<D> > ch; int p = f.nodes[x].lo; for (int t : f.edges[e].tails) { ch.push_back(og(t)); CHECK(f.nodes[t].lo >= p && f.nodes[t].hi <= f.nodes[x].hi, "children out of order"); p = f.nodes[t].hi; } CHECK_EQ((int)h->GetTrgData().size(), 1, "factors"); Feat own = f.edges[e].feats; own.erase("lm"); own.erase("lmunk"); vector<size_t> ix(ch.size(), 0); bool none = false; for (auto& k : ch) none |= k.empty(); if (none) continue;
      for (;;) { D d; d.feats = f.edges[e].feats; if (x) d.sig = f.nodes[x].sym + " [" + to_string(f.nodes[x].lo) + "," + to_string(f.nodes[x].hi) + "): " + canon(h->GetTrgData()[0]) + " || " + fe(own) + "("; for (size_t i = 0; i < ch.size(); i++) { auto& k = ch[i][ix[i]]; d.sig += k.sig + (x ? "," : ""); for (auto& q : k.feats) d.feats[q.first] += q.second; } if (x) d.sig += ")"; for (int q : h->GetTrgData()[0].words) if (q >= 0) d.words.push_back(Dict::WSym(q)); else { CHECK(-1 - q < (int)ch.size(), "variable without child"); auto& k = ch[-1 - q][ix[-1 - q]].words; d.words.insert(d.words.end(), k.begin(), k.end()); } out.push_back(d); if (++tot > 20000) throw pbt::Discard(); size_t i = 0; for (; i < ix.size(); i++) { if (++ix[i] < ch[i].size()) break; ix[i] = 0; } if (i == ix.size()) break; } } return gm[x] = out; };
  vector<D> got = og(0); map<string, vector<const D*> > wm, gmap; for (auto& d : want) wm[d.sig].push_back(&d); for (auto& d : got) gmap[d.sig].push_back(&d);
  for (auto& x : gmap) { CHECK(wm.count(x.first), "derivation that is none of the grammar: " << x.first); auto& v = wm[x.first]; CHECK(x.second.size() <= v.size(), "derivation " << x.first << " " << x.second.size() << " times"); for (auto d : x.second) { CHECK_EQ(d->words, v[0]->words, "translation of " << x.first); Feat b = v[0]->feats, a = d->feats; for (auto& q : b) CHECK(fabs(a[q.first] - q.second) <= 2e-3 + 3e-6 * fabs(q.second), "feature " << q.first << " of " << show(d->words) << " is " << a[q.first] << ", expected " << q.second); for (auto& q : a) CHECK(b.count(q.first) || fabs(q.second) < 1e-3, "feature " << q.first << " of " << show(d->words)); } }
  if (all) for (auto& x : wm) CHECK(gmap.count(x.first) && gmap[x.first].size() == x.second.size(), "missing derivation " << x.first); if (!all) CHECK(true, ""); if (!all && got.size() < want.size()) s.label("pruned"); most = max(most, want.size());
  }
  if (haslm) s.label("language model"); s.nontrivial(most >= 3);
}
PBT_MAIN("h_cfg")
