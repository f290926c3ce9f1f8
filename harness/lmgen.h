// Random ARPA models and their textbook interpretation.
#pragma once
#include "pbt.h"
#include <map>
#include <set>
#include <cmath>
#include <sstream>
#include <algorithm>
namespace lmg {
using namespace std; typedef pbt::S S;
struct Entry { double p, b; bool hasb; };
struct Lm {
  int order; vector<string> vocab; map<vector<string>, Entry> t; bool blanks, unk; string text;
  // log10 p(w | context), the context given oldest first
  double prob(vector<string> c, string w, int* len = NULL) const {
    vector<string> k1(1, w); if (!t.count(k1)) w = "<unk>"; for (auto& x : c) if (!t.count(vector<string>(1, x))) x = "<unk>"; if ((int)c.size() > order - 1) c.erase(c.begin(), c.end() - (order - 1)); double bo = 0;
    for (;;) { vector<string> k = c; k.push_back(w); auto i = t.find(k); if (i != t.end()) { if (len) *len = k.size(); return bo + i->second.p; } if (c.empty()) { if (len) *len = 1; return bo - 100; } auto j = t.find(c); if (j != t.end()) bo += j->second.b; c.erase(c.begin()); }
  }
  double total(const vector<string>& ctx, const vector<string>& w) const { vector<string> c = ctx; double r = 0; for (auto& x : w) { r += prob(c, x); c.push_back(x); } return r; }
};
inline double logp(S& s) { return s.coin() ? -(double)s.range(0, 16) / 4 : s.coin(1, 12) ? -99 : -floor(s.below(400000)) / 1e5; }
inline string num(double v) { char b[64]; snprintf(b, sizeof b, "%.6g", v); return b; }
// words: the plain words; maxn: bound on the extra n-grams of each order
inline Lm gen(S& s, const vector<string>& words, int maxorder, int maxn, bool blanks) {
  Lm m; m.order = s.range(2, maxorder); m.blanks = blanks; m.unk = !s.coin(1, 5); m.vocab = words; vector<string> first = words, any = words; any.push_back("</s>"); first.push_back("<s>"); bool unkgram = m.unk && s.coin(1, 4); if (unkgram) { first.push_back("<unk>"); any.push_back("<unk>"); }
  auto add = [&](const vector<string>& k) { if (m.t.count(k)) return; Entry e; e.p = logp(s); e.hasb = (int)k.size() < m.order && k.back() != "</s>" && s.coin(4, 5); e.b = e.hasb ? (s.coin(1, 5) ? 0 : !blanks && s.coin(1, 4) ? s.range(1, 4) / 8.0 : -(double)s.below(200000) / 1e5) : 0; m.t[k] = e; };
  for (auto& w : words) add({w}); add({"<s>"}); m.t[{"<s>"}].p = -99; add({"</s>"}); if (m.unk) add({"<unk>"});
  for (int n = 2; n <= m.order; n++) { int k = s.range(1, maxn); vector<vector<string> > prev; for (auto& x : m.t) if ((int)x.first.size() == n - 1 && x.first.back() != "</s>") prev.push_back(x.first); if (prev.empty()) { m.order = n - 1; break; }
    for (int i = 0; i < k; i++) { vector<string> g = prev[s.below(prev.size())]; if (n == 2 && g[0] == "<unk>" && !unkgram) continue; g.push_back(any[s.below(any.size())]); if (!blanks) { vector<string> h(g.begin() + 1, g.end()); if (!m.t.count(h)) { if (s.coin()) continue; for (size_t st = g.size() - 1; st-- > 1;) { vector<string> q(g.begin() + st, g.end()); for (size_t l = 2; l <= q.size(); l++) add(vector<string>(q.begin(), q.begin() + l)); } } } add(g); } }
  // an n-gram which is no context of a longer one has a back-off weight only if its suffix is a context or has one too (real models have none; KenLM's chart states rely on it)
  { set<vector<string> > ext; for (auto& x : m.t) ext.insert(vector<string>(x.first.begin(), x.first.end() - 1)); for (int n = 2; n <= m.order; n++) for (auto& x : m.t) if ((int)x.first.size() == n && x.second.hasb && x.second.b != 0 && !ext.count(x.first)) { vector<string> h(x.first.begin() + 1, x.first.end()); if (!ext.count(h) && !(m.t.count(h) && m.t[h].b != 0)) x.second.b = 0; } }
  // the order is that of the longest n-gram present
  int top = 1; for (auto& x : m.t) top = max(top, (int)x.first.size()); if (top < 2) { add({"<s>", words[0]}); top = 2; } m.order = top; for (auto& x : m.t) if ((int)x.first.size() == top) { x.second.hasb = false; x.second.b = 0; }
  ostringstream o; o << "\\data\\\n"; for (int n = 1; n <= top; n++) { int c = 0; for (auto& x : m.t) c += (int)x.first.size() == n; o << "ngram " << n << "=" << c << "\n"; }
  for (int n = 1; n <= top; n++) { o << "\n\\" << n << "-grams:\n"; vector<vector<string> > ks; for (auto& x : m.t) if ((int)x.first.size() == n) ks.push_back(x.first); for (size_t i = ks.size(); i > 1; i--) swap(ks[i - 1], ks[s.below(i)]); for (auto& k : ks) { Entry& e = m.t[k]; string p = num(e.p), b = num(e.b); e.p = atof(p.c_str()); e.b = e.hasb ? atof(b.c_str()) : 0; o << p << "\t"; for (size_t i = 0; i < k.size(); i++) o << (i ? " " : "") << k[i]; if (e.hasb && n < top) o << "\t" << b; o << "\n"; } }
  o << "\n\\end\\\n"; m.text = o.str(); return m;
}
}
