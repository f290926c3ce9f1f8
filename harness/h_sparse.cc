// C04: sparse vectors/maps versus a std::map model.
#include "pbt.h"
#include <travatar/sparse-map.h>
#include <travatar/dict.h>
#include <boost/unordered_map.hpp>
using namespace travatar; using namespace std; using pbt::S;

typedef map<int, double> M;
static M nz(const M& m) { M r; for (auto& p : m) if (p.second != 0) r[p.first] = p.second; return r; }
static M viewv(const SparseVector& v) { M r; for (auto& p : v.GetImpl()) if (p.second != 0) r[p.first] += p.second; return r; }
static M viewm(const SparseMap& v) { M r; for (auto& p : v) if (p.second != 0) r[p.first] = p.second; return r; }
static bool eqm(const M& a, const M& b) {
  for (auto& p : a) { auto it = b.find(p.first); if (!pbt::near(p.second, it == b.end() ? 0 : it->second, 1e-9)) return false; }
  for (auto& p : b) if (!a.count(p.first) && !pbt::near(p.second, 0, 1e-9)) return false;
  return true;
}
static void sorted_ok(const SparseVector& v, const char* where) {
  const vector<SparsePair>& i = v.GetImpl();
  for (size_t k = 1; k < i.size(); k++) CHECK(i[k - 1].first < i[k].first, where << ": keys not strictly increasing " << pbt::show(vector<pair<int,double>>(i.begin(), i.end())));
}
static double gv(S& s) { int k = s.below(4); return k == 0 ? 0.0 + s.quarter(2) : k == 1 ? s.quarter(8) : k == 2 ? s.real(10) : (double)s.range(1, 3) * (s.coin() ? -1 : 1); }
static vector<SparsePair> gpairs(S& s, int maxk, int maxn, bool dups) {
  int n = s.size(0, maxn); vector<SparsePair> r; set<int> seen;
  for (int i = 0; i < n; i++) { int k = s.range(0, maxk); if (!dups && !seen.insert(k).second) continue; r.push_back(make_pair(k, gv(s))); }
  return r;
}
static string showp(const vector<SparsePair>& v) { return pbt::show(vector<pair<int,double>>(v.begin(), v.end())); }
struct V { SparseVector v; M m; };
// Build a vector in one of the ways callers build them.
static V gvec(S& s, int maxk) {
  V r; vector<SparsePair> p; int how = s.below(3);
  p = gpairs(s, maxk, 10, how != 2);
  for (auto& x : p) r.m[x.first] += x.second;
  if (how == 0) r.v = SparseVector(p);
  else for (auto& x : p) r.v.Add(x.first, x.second);
  s.log << (how == 0 ? "ctor" : "adds") << showp(p) << " ";
  s.sync();
  sorted_ok(r.v, how == 0 ? "construction" : "Add");
  CHECK(eqm(viewv(r.v), r.m), "construction from " << showp(p) << " gives " << pbt::show(viewv(r.v)) << " expected " << pbt::show(nz(r.m)));
  return r;
}
struct MM { SparseMap v; M m; };
static MM gmap(S& s, int maxk) {
  MM r; vector<SparsePair> p = gpairs(s, maxk, 10, false);
  for (auto& x : p) { r.v.insert(x); r.m[x.first] = x.second; }
  s.log << "map" << showp(p) << " "; s.sync();
  return r;
}
static M comb(const M& a, const M& b, double f) { M r = a; for (auto& p : b) r[p.first] += f * p.second; return r; }
static double dot(const M& a, const M& b) { double r = 0; for (auto& p : a) { auto it = b.find(p.first); if (it != b.end()) r += p.second * it->second; } return r; }
#define SAME(view, model, what) CHECK(eqm(view, model), what << " gives " << pbt::show(view) << " expected " << pbt::show(nz(model)))

static void classify(S& s, const M& a, const M& b) {
  bool ov = false, cancel = false, tail = false;
  for (auto& p : a) { auto it = b.find(p.first); if (it != b.end()) { ov = true; if (p.second == it->second || p.second == -it->second) cancel = true; } }
  if (!a.empty() && !b.empty() && b.rbegin()->first > a.rbegin()->first) tail = true;
  if (ov) s.label("overlapping keys"); if (cancel) s.label("equal or opposite values"); if (tail) s.label("rhs has last key");
  if (a.empty() || b.empty()) s.label("an empty operand");
  s.nontrivial(a.size() >= 2 && b.size() >= 2 && (ov || tail));
}

PROP(binary_ops, 600000, 6000000) {
  int maxk = s.pick(vector<int>{3, 6, 20});
  V a = gvec(s, maxk), b = gvec(s, maxk); MM c = gmap(s, maxk), d = gmap(s, maxk);
  classify(s, a.m, b.m);
  SparseVector x = a.v + b.v; sorted_ok(x, "v+v"); SAME(viewv(x), comb(a.m, b.m, 1), "v+v");
  x = a.v - b.v; sorted_ok(x, "v-v"); SAME(viewv(x), comb(a.m, b.m, -1), "v-v");
  x = a.v; SparseVector& rx = (x += b.v); CHECK(&rx == &x, "+= returns its left side"); sorted_ok(x, "v+=v"); SAME(viewv(x), comb(a.m, b.m, 1), "v+=v");
  x = a.v; x -= b.v; sorted_ok(x, "v-=v"); SAME(viewv(x), comb(a.m, b.m, -1), "v-=v");
  double f = s.quarter(4); M sc; for (auto& p : a.m) sc[p.first] = p.second * f;
  x = a.v * f; SAME(viewv(x), sc, "v*real");
  CHECK_NEAR(a.v * b.v, dot(a.m, b.m), 1e-9, "dot of vectors");
  // maps
  SparseMap y = c.v + d.v; SAME(viewm(y), comb(c.m, d.m, 1), "m+m");
  y = c.v - d.v; SAME(viewm(y), comb(c.m, d.m, -1), "m-m");
  y = c.v; y += d.v; SAME(viewm(y), comb(c.m, d.m, 1), "m+=m");
  y = c.v; y -= d.v; SAME(viewm(y), comb(c.m, d.m, -1), "m-=m");
  sc.clear(); for (auto& p : c.m) sc[p.first] = p.second * f;
  y = c.v * f; SAME(viewm(y), sc, "m*real");
  CHECK_NEAR(c.v * d.v, dot(c.m, d.m), 1e-9, "dot of maps");
  // mixed
  y = c.v + a.v; SAME(viewm(y), comb(c.m, a.m, 1), "m+v");
  y = c.v - a.v; SAME(viewm(y), comb(c.m, a.m, -1), "m-v");
  y = c.v; y += a.v; SAME(viewm(y), comb(c.m, a.m, 1), "m+=v");
  y = c.v; y -= a.v; SAME(viewm(y), comb(c.m, a.m, -1), "m-=v");
  CHECK_NEAR(c.v * a.v, dot(c.m, a.m), 1e-9, "dot map*vector");
  SAME(viewm(a.v.ToMap()), a.m, "ToMap");
  // the operands are untouched
  SAME(viewv(a.v), a.m, "left operand after use"); SAME(viewv(b.v), b.m, "right operand after use"); SAME(viewm(c.v), c.m, "map after use");
}

PROP(aliasing, 150000, 2000000) {
  V a = gvec(s, s.pick(vector<int>{3, 8})); MM c = gmap(s, 5);
  s.nontrivial(a.m.size() >= 2);
  SparseVector x = a.v; x += x; sorted_ok(x, "v+=itself"); SAME(viewv(x), comb(a.m, a.m, 1), "v+=itself");
  x = a.v; x -= x; SAME(viewv(x), M(), "v-=itself");
  x = a.v; x = x + x; SAME(viewv(x), comb(a.m, a.m, 1), "v=v+v");
  x = a.v; x = x - x; SAME(viewv(x), M(), "v=v-v");
  SparseMap y = c.v + c.v; SAME(viewm(y), comb(c.m, c.m, 1), "m+m same");
  y = c.v - c.v; SAME(viewm(y), M(), "m-m same");
}

// Equality means: same keys, values within 1e-6.
PROP(equality, 150000, 2000000) {
  V a = gvec(s, 6); V b; bool same = s.coin();
  if (same) { vector<SparsePair> p(a.m.begin(), a.m.end()); for (size_t i = p.size(); i > 1; i--) swap(p[i - 1], p[i - 1 - s.below(i)]); for (auto& x : p) b.v.Add(x.first, x.second); b.m = a.m; }
  else b = gvec(s, 6);
  // compare as non-zero views, built without explicit zeros
  SparseVector av, bv; SparseMap am, bm;
  for (auto& p : nz(a.m)) { av.Add(p.first, p.second); am.insert(p); } for (auto& p : nz(b.m)) { bv.Add(p.first, p.second); bm.insert(p); }
  bool eq = nz(a.m).size() == nz(b.m).size(); if (eq) for (auto& p : nz(a.m)) { auto bb = nz(b.m); auto it = bb.find(p.first); double df = it == bb.end() ? 1 : fabs(it->second - p.second); if (df > 1e-9 && df < 1e-5) throw pbt::Discard(); if (df > 1e-6) eq = false; }
  s.label(eq ? "equal" : "different"); s.nontrivial(a.m.size() >= 1);
  CHECK_EQ(av == bv, eq, "vector =="); CHECK_EQ(av != bv, !eq, "vector !="); CHECK_EQ(am == bm, eq, "map =="); CHECK_EQ(am != bm, !eq, "map !=");
  CHECK_EQ(bv == av, eq, "vector == swapped"); CHECK_EQ(bm == am, eq, "map == swapped");
}

PROP(normalize_l1, 100000, 1000000) {
  MM c = gmap(s, 8); double tgt = s.below(3) == 0 ? 1.0 : fabs(s.quarter(5)) + 0.25; double sum = 0; for (auto& p : c.m) sum += fabs(p.second);
  s.log << " to " << tgt; s.nontrivial(c.m.size() > 1 && sum > 0);
  SparseMap y = c.v; NormalizeL1(y, tgt);
  M e; for (auto& p : c.m) e[p.first] = sum == 0 ? p.second : p.second / sum * tgt;
  SAME(viewm(y), e, "NormalizeL1");
}

// A history of operations on a few registers.
PROP(histories, 250000, 4000000) {
  vector<V> r(3); vector<MM> q(2); int n = s.size(1, 25), real_ops = 0; int maxk = s.pick(vector<int>{2, 4, 10});
  for (int i = 0; i < n; i++) {
    int op = s.below(11), a = s.below(3), b = s.below(3), c = s.below(2); s.log << op << ":" << a << b << c << " "; s.sync();
    double f;
    switch (op) {
      case 0: case 1: { int k = s.range(0, maxk); f = gv(s); s.log << "add " << k << "," << f << " "; s.sync(); r[a].v.Add(k, f); r[a].m[k] += f; break; }
      case 2: r[a].v += r[b].v; { M o = r[b].m; r[a].m = comb(r[a].m, o, 1); } break;
      case 3: r[a].v -= r[b].v; { M o = r[b].m; r[a].m = comb(r[a].m, o, -1); } break;
      case 4: { int d = s.below(3); r[d].v = r[a].v + r[b].v; r[d].m = comb(M(r[a].m), M(r[b].m), 1); break; }
      case 5: { int d = s.below(3); r[d].v = r[a].v - r[b].v; r[d].m = comb(M(r[a].m), M(r[b].m), -1); break; }
      case 6: f = s.quarter(2); r[a].v = r[a].v * f; for (auto& p : r[a].m) p.second *= f; break;
      case 7: q[c].v += r[a].v; q[c].m = comb(q[c].m, r[a].m, 1); break;
      case 8: q[c].v -= r[a].v; q[c].m = comb(q[c].m, r[a].m, -1); break;
      case 9: q[c].v = r[a].v.ToMap(); q[c].m = r[a].m; break;
      case 10: r[a].v = SparseVector(vector<SparsePair>(q[c].v.begin(), q[c].v.end())); r[a].m = q[c].m; break;
    }
    if (op > 1) real_ops++;
    for (auto& x : r) { sorted_ok(x.v, "history"); for (auto& p : x.m) if (fabs(p.second) > 1e9) return; SAME(viewv(x.v), x.m, "register after step"); }
    for (auto& x : q) SAME(viewm(x.v), x.m, "map register after step");
  }
  s.nontrivial(real_ops >= 3);
}
PBT_MAIN("h_sparse")
