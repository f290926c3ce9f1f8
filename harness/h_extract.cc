// C08: tree-based rule extraction, through forest-extractor's runner.
#include "tree.h"
#include <travatar/forest-extractor-runner.h>
#include <travatar/config-forest-extractor-runner.h>
#include <travatar/binarizer.h>
#include <travatar/tree-io.h>
using namespace std; using namespace travatar; using namespace tg; using pbt::S;

struct Frag { int node; int kind; vector<Frag> kids; };   // kind 0 word, 1 variable, 2 expanded
struct Rule { int size; Frag f; vector<int> vars; double score; };
struct Model {
  const Forest& f; set<pair<int, int> > al; int tl; vector<vector<int> > by; vector<set<int> > trg; vector<int> front; map<int, vector<Rule> > mini, comp; int order, lex;
  Model(const Forest& f_, const set<pair<int, int> >& a, int tl_, int order_, int lex_) : f(f_), al(a), tl(tl_), by(f_.nodes.size()), trg(f_.nodes.size()), front(f_.nodes.size()), order(order_), lex(lex_) {
    for (size_t i = 0; i < f.edges.size(); i++) by[f.edges[i].head].push_back(i);
    for (size_t n = 0; n < f.nodes.size(); n++) { set<int> out; for (auto& p : al) { bool in = p.first >= f.nodes[n].lo && p.first < f.nodes[n].hi; (in ? trg[n] : out).insert(p.second); } front[n] = !by[n].empty() && !trg[n].empty(); for (int x : out) if (!trg[n].empty() && x >= *trg[n].begin() && x <= *trg[n].rbegin()) front[n] = 0; }
  }
  typedef pair<Frag, double> FS;
  vector<FS> expand(int n) {   // every way to open node n down to words and frontier nodes
    vector<FS> out;
    for (int e : by[n]) { vector<FS> cur(1); cur[0].first.node = n; cur[0].first.kind = 2; cur[0].second = f.edges[e].score;
      for (int t : f.edges[e].tails) { vector<FS> opt; if (by[t].empty() || front[t]) { FS x; x.first.node = t; x.first.kind = by[t].empty() ? 0 : 1; x.second = 0; opt.push_back(x); } else opt = expand(t);
        vector<FS> nx; for (auto& a : cur) for (auto& b : opt) { FS c = a; c.first.kids.push_back(b.first); c.second += b.second; nx.push_back(c); } cur = nx; if (cur.size() > 2000) throw pbt::Discard(); }
      out.insert(out.end(), cur.begin(), cur.end()); }
    return out;
  }
  static void vars(const Frag& x, vector<int>& o) { if (x.kind == 1) o.push_back(x.node); for (auto& k : x.kids) vars(k, o); }
  static bool replace(Frag& x, int node, const Frag& by) { if (x.kind == 1 && x.node == node) { x = by; return true; } for (auto& k : x.kids) if (replace(k, node, by)) return true; return false; }
  const vector<Rule>& minimal(int n) { auto it = mini.find(n); if (it != mini.end()) return it->second; vector<Rule> r; for (auto& p : expand(n)) { Rule q; q.size = 1; q.f = p.first; q.score = p.second; vars(q.f, q.vars); r.push_back(q); } return mini[n] = r; }
  const vector<Rule>& composed(int n) {
    auto it = comp.find(n); if (it != comp.end()) return it->second; vector<Rule> out; int len = f.nodes[n].hi - f.nodes[n].lo;
    for (auto& m : minimal(n)) { vector<Rule> list(1, m);
      for (int t : m.vars) { size_t end = list.size(); for (size_t i = 0; i < end; i++) for (auto& b : composed(t)) { if (list[i].size + b.size <= order || (len <= lex && list[i].vars.size() == 1 && b.vars.empty())) { Rule c = list[i]; c.size += b.size; c.score += b.score; replace(c.f, t, b.f); c.vars.clear(); vars(c.f, c.vars); list.push_back(c); if (list.size() > 3000) throw pbt::Discard(); } } }
      out.insert(out.end(), list.begin(), list.end()); }
    return comp[n] = out;
  }
  void text(const Frag& x, int& v, string& o, vector<int>& src) const { if (x.kind == 0) { o += "\"" + f.nodes[x.node].sym + "\""; src.push_back(f.nodes[x.node].lo); } else if (x.kind == 1) o += "x" + to_string(v++) + ":" + f.nodes[x.node].sym; else { o += f.nodes[x.node].sym + " ("; for (auto& k : x.kids) { o += " "; text(k, v, o, src); } o += " )"; } }
};
struct Line { string key; double score; bool must; };
typedef map<pair<int, int>, string> Labs;
static void topspans(const T& t, int& pos, Labs& l) { int a = pos; if (t.term) { pos++; l[make_pair(a, pos)] = t.label; return; } for (auto& k : t.kids) topspans(k, pos, l); l[make_pair(a, pos)] = t.label; }
struct Opt { int compose, lex, term, nonterm, attach /*0 none 1 top 2 exhaustive*/, alen; bool norm; double thresh; };

static vector<Line> expected(const Forest& f, const set<pair<int, int> >& al, const vector<string>& trg, const Labs* labs, const Opt& o) {
  Model m(f, al, trg.size(), o.compose, o.compose > 1 || o.lex > 0 ? o.lex : 0); vector<Line> out; if (f.nodes.empty() || !m.front[0]) return out;
  int TL = trg.size(); vector<bool> null(TL, true); for (auto& p : al) null[p.second] = false;
  // nodes of the rule graph: (tree node, left extension, right extension), root first
  typedef pair<int, pair<int, int> > Key; map<Key, int> id; Forest g; g.factors = 0; vector<Key> keys; if (o.attach == 2) { Node n; n.sym = "ROOT"; n.lo = n.hi = 0; g.nodes.push_back(n); keys.push_back(Key(-1, make_pair(0, 0))); }
  auto exts = [&](int n) { vector<pair<int, int> > r; int b = *m.trg[n].begin(), e = *m.trg[n].rbegin(); for (int l = 0; l <= (o.attach == 2 ? o.alen : 0); l++) { if (l && (b - l < 0 || !null[b - l])) break; for (int q = 0; q <= (o.attach == 2 ? o.alen : 0); q++) { if (q && (e + q >= TL || !null[e + q])) break; r.push_back(make_pair(l, q)); } } return r; };
  auto range = [&](int n, pair<int, int> x) { if (o.attach == 1 && n == 0) return make_pair(0, TL); return make_pair(*m.trg[n].begin() - x.first, *m.trg[n].rbegin() + 1 + x.second); };
  vector<int> order; { vector<int> st(1, 0); set<int> seen(st.begin(), st.end()); while (!st.empty()) { int n = st.back(); st.pop_back(); order.push_back(n); for (auto& r : m.minimal(n)) for (int t : r.vars) if (seen.insert(t).second) st.push_back(t); } }
  for (int n : order) for (auto& x : exts(n)) { Key k(n, x); id[k] = g.nodes.size(); keys.push_back(k); Node q; q.sym = f.nodes[n].sym; q.lo = f.nodes[n].lo; q.hi = f.nodes[n].hi; g.nodes.push_back(q); }
  if (o.attach == 2) for (auto& x : exts(0)) { Edge e; e.head = 0; e.score = 0; e.tails.push_back(id[Key(0, x)]); g.edges.push_back(e); }
  size_t pseudo = g.edges.size(); vector<const Rule*> of(pseudo, (const Rule*)0);
  for (int n : order) for (auto& x : exts(n)) { auto hr = range(n, x); for (auto& r : m.composed(n)) {
    vector<pair<vector<int>, set<int> > > cur(1); for (int t : r.vars) { vector<pair<vector<int>, set<int> > > nx; for (auto& c : cur) for (auto& y : exts(t)) { auto tr = range(t, y); bool ok = tr.first >= hr.first && tr.second <= hr.second; set<int> cov = c.second; for (int i = tr.first; i < tr.second; i++) if (!cov.insert(i).second) ok = false; if (!ok) continue; auto d = c; d.first.push_back(id[Key(t, y)]); d.second = cov; nx.push_back(d); } cur = nx; }
    for (auto& c : cur) { Edge e; e.head = id[Key(n, x)]; e.score = r.score; e.tails = c.first; g.edges.push_back(e); of.push_back(&r); if (g.edges.size() > 4000) throw pbt::Discard(); } } }
  vector<double> score(g.edges.size()); for (size_t i = 0; i < g.edges.size(); i++) score[i] = g.edges[i].score;
  if (o.norm) { // inside-outside by the definition: sums over derivations
    vector<double> in(g.nodes.size(), -1), outp(g.nodes.size(), 0); vector<vector<int> > by(g.nodes.size()); for (size_t i = 0; i < g.edges.size(); i++) by[g.edges[i].head].push_back(i);
    if (counts(g)[0] > 1e6) throw pbt::Discard();
    struct In { static double go(const Forest& g, vector<vector<int> >& by, vector<double>& in, int n) { if (in[n] >= 0) return in[n]; double t = 0; for (int e : by[n]) { double p = exp(g.edges[e].score); for (int k : g.edges[e].tails) p *= go(g, by, in, k); t += p; } return in[n] = t; } };
    for (size_t i = 0; i < g.nodes.size(); i++) In::go(g, by, in, i);
    // outside: nodes in an order where heads come before tails
    vector<int> topo, state(g.nodes.size()); struct Dfs { static void go(const Forest& g, vector<vector<int> >& by, vector<int>& st, vector<int>& o, int n) { if (st[n]) return; st[n] = 1; for (int e : by[n]) for (int t : g.edges[e].tails) go(g, by, st, o, t); o.push_back(n); } }; Dfs::go(g, by, state, topo, 0); reverse(topo.begin(), topo.end()); outp[0] = 1;
    for (int n : topo) for (int e : by[n]) for (size_t a = 0; a < g.edges[e].tails.size(); a++) { double p = outp[n] * exp(g.edges[e].score); for (size_t b = 0; b < g.edges[e].tails.size(); b++) if (a != b) p *= in[g.edges[e].tails[b]]; outp[g.edges[e].tails[a]] += p; }
    for (size_t i = 0; i < g.edges.size(); i++) { double p = outp[g.edges[i].head] * exp(g.edges[i].score); for (int t : g.edges[i].tails) p *= in[t]; score[i] = log(p / in[0]); } }
  for (size_t i = pseudo; i < g.edges.size(); i++) {
    const Edge& e = g.edges[i]; const Rule& r = *of[i]; Key hk = keys[e.head]; auto hr = range(hk.first, hk.second); int v = 0; string src; vector<int> sp, tp; m.text(r.f, v, src, sp); string t;
    int nt = 0; for (int p = hr.first; p < hr.second;) { int var = -1; pair<int, int> vr; for (size_t k = 0; k < e.tails.size(); k++) { auto q = range(keys[e.tails[k]].first, keys[e.tails[k]].second); if (p >= q.first && p < q.second) var = k, vr = q; } if (var >= 0) { t += " x" + to_string(var); if (labs && labs->count(vr)) t += ":" + labs->find(vr)->second; p = vr.second; } else { t += " \"" + trg[p] + "\""; tp.push_back(p); p++; nt++; } }
    if (labs && labs->count(hr)) t += " @ " + labs->find(hr)->second;
    string a; for (size_t x = 0; x < sp.size(); x++) for (size_t y = 0; y < tp.size(); y++) if (al.count(make_pair(sp[x], tp[y]))) a += (a.empty() ? "" : " ") + to_string(x) + "-" + to_string(y);
    if ((int)e.tails.size() > o.nonterm || (int)sp.size() > o.term || nt > o.term) continue;
    Line l; l.must = true; if (o.attach == 0 && hk.first == 0 && nt + hr.first + TL - hr.second > o.term) l.must = false;   // unprinted words of the root rule may count against the limit
    if (o.thresh > 0) { double d = score[i] - log(o.thresh); if (fabs(d) < 1e-6) l.must = false; else if (d < 0) continue; }
    l.key = src + " |||" + t + " ||| " + a; l.score = exp(score[i]); out.push_back(l);
  }
  return out;
}
static string run(const vector<string>& args) {
  vector<const char*> av; av.push_back("forest-extractor"); for (auto& a : args) av.push_back(a.c_str()); ConfigForestExtractorRunner c; vector<string> keep(args); ostringstream o; streambuf* old = cout.rdbuf(o.rdbuf());
  try { c.LoadConfig(av.size(), (char**)&av[0], false); ForestExtractorRunner r; r.Run(c); } catch (...) { cout.rdbuf(old); throw; } cout.rdbuf(old); return o.str();
}
static void compare(const vector<Line>& want, vector<string> got, const string& what) {
  map<string, vector<double> > g, w, opt; for (auto& x : got) { vector<string> c; size_t p = 0; for (;;) { size_t q = x.find(" ||| ", p); c.push_back(x.substr(p, q == string::npos ? q : q - p)); if (q == string::npos) break; p = q + 5; } CHECK_EQ(c.size(), (size_t)4, what << ": columns of '" << x << "'"); g[c[0] + " ||| " + c[1] + " ||| " + c[3]].push_back(atof(c[2].c_str())); }
  for (auto& l : want) (l.must ? w : opt)[l.key].push_back(l.score);
  for (auto& p : w) { CHECK(g.count(p.first), what << ": missing rule " << p.first); }
  for (auto& p : g) { vector<double> all = w[p.first], o = opt[p.first], h = p.second; CHECK(!all.empty() || !o.empty(), what << ": unexpected rule " << p.first); sort(h.begin(), h.end()); sort(all.begin(), all.end()); if (o.empty()) { CHECK_EQ(h.size(), all.size(), what << ": number of times of rule " << p.first); for (size_t i = 0; i < h.size(); i++) CHECK_NEAR(h[i], all[i], 2e-5, what << ": count of rule " << p.first); } else CHECK(h.size() >= all.size() && h.size() <= all.size() + o.size(), what << ": number of times of rule " << p.first); }
}
static void law(S& s, bool forest) {
  Opt o; o.compose = s.range(1, 4); o.lex = s.coin() ? 0 : s.range(1, 4); o.term = s.coin(2, 3) ? 10 : s.range(1, 3); o.attach = s.below(3); o.nonterm = o.attach == 2 || s.coin() ? 12 : s.range(0, 3); o.alen = s.range(0, 2); o.norm = s.coin(1, 3); o.thresh = o.norm && s.coin(1, 3) ? 0.013 + 0.1 * s.below(4) : 0; static const char* B[] = {"none", "left", "right"}; string bin = B[s.below(3)]; bool labs = s.coin(1, 4), lexdef = s.coin(1, 6); if (lexdef) o.lex = o.term;
  static const char* A[] = {"none", "top", "exhaustive"}; int ns = s.coin(2, 3) ? 1 : s.range(2, 3); vector<vector<Line> > want; ostringstream S1, T1, A1; size_t nr = 0; bool cross = false;
  s.log << "compose " << o.compose << " lex " << o.lex << " term " << o.term << " nonterm " << o.nonterm << " attach " << A[o.attach] << " " << o.alen << " norm " << o.norm << " thresh " << o.thresh << " " << bin << "\n";
  for (int q = 0; q < ns; q++) {
    PackOpt po; po.words = o.attach == 2 || forest ? 4 : 6; po.labels = 6; po.feats = false; po.max_derivs = 30; po.max_alt = forest ? 2 : 1; Forest f;
    if (forest) { f = gen_packed(s, po); if (!o.norm && s.coin()) for (auto& e : f.edges) e.score = 0; } else { TreeOpt to; to.words = po.words; to.plain = true; T t = gen_tree(s, to); unique_ptr<HyperGraph> g(tree_graph(t)); f = from_graph(*g); f.factors = 0; }
    unique_ptr<HyperGraph> g(build(f)); if (forest) { JSONTreeIO io; io.WriteTree(*g, S1); } else { PennTreeIO io; io.WriteTree(*g, S1); } S1 << "\n";
    unique_ptr<GraphTransformer> bz(Binarizer::CreateBinarizerFromString(bin)); Forest m = f; if (bz.get()) { unique_ptr<HyperGraph> bg(bz->TransformGraph(*g)); m = from_graph(*bg); }
    vector<string> tw; set<pair<int, int> > al; T tt; int n = f.words.size(); if (labs) { TreeOpt to; to.words = 5; to.plain = true; tt = gen_tree(s, to); tw = leaves(tt); T1 << penn(tt) << "\n"; } else { int k = s.size(1, 6); for (int i = 0; i < k; i++) tw.push_back(string(1, 'u' + s.below(4))); for (int i = 0; i < k; i++) T1 << (i ? " " : "") << tw[i]; T1 << "\n"; }
    // alignments: mostly monotone-ish links, some crossing, some many-to-many, some null
    int links = s.range(0, n + 2); for (int i = 0; i < links; i++) { int a = i < n && s.coin(2, 3) ? i : s.below(n); int b = s.coin() ? min((int)tw.size() - 1, (int)(a * tw.size() / n)) : s.below(tw.size()); for (auto& p : al) if ((p.first < a) != (p.second < b) && p.first != a) cross = true; al.insert(make_pair(a, b)); }
    vector<pair<int, int> > v(al.begin(), al.end()); for (size_t i = v.size(); i > 1; i--) swap(v[i - 1], v[i - 1 - s.below(i)]); for (size_t i = 0; i < v.size(); i++) A1 << (i ? " " : "") << v[i].first << "-" << v[i].second; A1 << "\n";
    s.log << (forest ? describe_packed(f) : "") << S1.str() << T1.str() << A1.str(); s.sync(); Labs ls; if (labs) { int pos = 0; topspans(tt, pos, ls); }
    want.push_back(expected(m, al, tw, labs ? &ls : 0, o)); nr += want.back().size();
  }
  string d = pbt::scratch(); pbt::spew(d + "/s", S1.str()); pbt::spew(d + "/t", T1.str()); pbt::spew(d + "/a", A1.str()); ostringstream th; th << o.thresh;
  vector<string> args = {"-input_format", forest ? "json" : "penn", "-output_format", labs ? "penn" : "word", "-binarize", bin, "-compose", to_string(o.compose), "-attach", A[o.attach], "-attach_len", to_string(o.alen), "-term_len", to_string(o.term), "-nonterm_len", to_string(o.nonterm), "-normalize_probs", o.norm ? "true" : "false", "-partial_count_thresh", th.str()}; if (!lexdef) { args.push_back("-src_lex_len"); args.push_back(to_string(o.lex)); }
  vector<string> files = {d + "/s", d + "/t", d + "/a"}; vector<string> a2 = args; a2.insert(a2.end(), files.begin(), files.end()); string out = run(a2); a2 = args; a2.push_back("-count_rules"); a2.push_back("true"); a2.insert(a2.end(), files.begin(), files.end()); string cnt = run(a2);
  vector<string> lines; { istringstream is(out); string l; while (getline(is, l)) lines.push_back(l); } istringstream ic(cnt); size_t at = 0;
  for (int q = 0; q < ns; q++) { int k = -1; ic >> k; CHECK(k >= 0 && at + k <= lines.size(), "count of sentence " << q << " is " << k << ", " << lines.size() << " rules in all"); compare(want[q], vector<string>(lines.begin() + at, lines.begin() + at + k), "sentence " + to_string(q)); at += k; } CHECK_EQ(at, lines.size(), "rules printed");
  if (cross) s.label("crossing"); if (nr > 3) s.label("4+ rules"); s.nontrivial(nr >= 3);
}
PROP(tree_rules, 40000, 400000) { law(s, false); }
PROP(forest_rules, 30000, 200000) { law(s, true); }
PBT_MAIN("h_extract")
