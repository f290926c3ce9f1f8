// C27: the low-level structures of kenlm/util against plain reference structures.
#include "pbt.h"
#include <boost/thread.hpp>
#include <thread>
#include <sys/types.h>
#include "util/bit_packing.hh"
#include "util/file.hh"
#include "util/file_piece.hh"
#include "util/joint_sort.hh"
#include "util/mmap.hh"
#include "util/multi_intersection.hh"
#include "util/pcqueue.hh"
#include "util/pool.hh"
#include "util/probing_hash_table.hh"
#include "util/sized_iterator.hh"
#include "util/sorted_uniform.hh"
#include "util/tokenize_piece.hh"
#include <boost/range/iterator_range.hpp>
using namespace std;
using namespace pbt;

struct Entry { typedef uint64_t Key; uint64_t key, value; uint64_t GetKey() const { return key; } void SetKey(uint64_t k) { key = k; } };
typedef util::ProbingHashTable<Entry, util::IdentityHash> Table;
typedef util::AutoProbing<Entry, util::IdentityHash> Auto;

static uint64_t gen_key(S& s, int range) { return s.coin(1, 6) ? 1 + s.below(1ull << 62) : 1 + s.below(range); }

template <class T> static void lookups(S& s, T& t, const map<uint64_t, uint64_t>& m, uint64_t invalid, int range) {
  for (map<uint64_t, uint64_t>::const_iterator i = m.begin(); i != m.end(); ++i) {
    typename T::ConstIterator it; CHECK(t.Find(i->first, it), "key " << i->first << " lost");
    CHECK(it->key == i->first && it->value == i->second, "key " << i->first << " has value " << it->value << " for " << i->second);
    CHECK_EQ(t.MustFind(i->first)->value, i->second, "(MustFind)");
  }
  for (int j = 0; j < 10; j++) { uint64_t k = gen_key(s, range); if (m.count(k) || k == invalid) continue;
    typename T::ConstIterator it; CHECK(!t.Find(k, it), "absent key " << k << " found"); }
}

PROP(probing, 10000, 60000) {
  int buckets = s.range(2, s.coin(1, 4) ? 200 : 24), range = s.coin() ? 12 : 400;
  uint64_t invalid = s.coin(1, 3) ? 5 : 0; if (s.coin(1, 6)) invalid = ~0ull;
  vector<char> mem(buckets * sizeof(Entry)); Table t(mem.data(), mem.size(), invalid); t.Clear();
  map<uint64_t, uint64_t> m; int ops = s.size(1, 60); bool dbl = false;
  s.log << "buckets " << buckets << " invalid " << invalid << ":";
  for (int i = 0; i < ops; i++) {
    uint64_t k = gen_key(s, range), v = s.below(1000); if (k == invalid) k = 3; bool full = (int)m.size() + 1 >= buckets;
    int op = s.below(8); s.log << " " << op << "(" << k << ")";
    if (op <= 2) {
      if (m.count(k)) continue;
      bool threw = false; Entry e = {k, v};
      try { Table::MutableIterator it = t.Insert(e); CHECK(it->key == k && it->value == v, "Insert's iterator"); } catch (const util::ProbingSizeException&) { threw = true; }
      CHECK_EQ(threw, full, "for Insert with " << m.size() << " entries in " << buckets << " buckets");
      if (threw) return; m[k] = v;
    } else if (op <= 5) {
      Entry e = {k, v}; Table::MutableIterator it; bool threw = false, found = false, had = m.count(k);
      try { found = t.FindOrInsert(e, it); } catch (const util::ProbingSizeException&) { threw = true; }
      CHECK_EQ(threw, full && !had, "for FindOrInsert"); if (threw) return;
      CHECK_EQ(found, had, "for FindOrInsert of " << k); if (!had) m[k] = v;
      CHECK_EQ(it->value, m[k], "for FindOrInsert of " << k);
      if (s.coin(1, 4)) { it->value = v + 7; m[k] = v + 7; }
    } else if (op == 6 && buckets < 3000) {
      mem.resize(t.DoubleTo()); CHECK_EQ(mem.size(), (size_t)buckets * 2 * sizeof(Entry), "");
      t.Double(mem.data()); buckets *= 2; dbl = true;
    } else if (op == 7 && s.coin(1, 6)) { t.Clear(); m.clear(); }
    CHECK_EQ(t.SizeNoSerialization(), m.size(), "");
    if (s.coin(1, 3)) lookups(s, t, m, invalid, range);
    if ((int)m.size() + 1 < buckets) try { t.CheckConsistency(); } catch (const util::Exception& e) { FAIL("inconsistent table: " << e.what()); }
  }
  lookups(s, t, m, invalid, range);
  s.nontrivial(m.size() >= 4); if (dbl) s.label("doubled");
}

PROP(autoprobing, 3000, 40000) {
  int init = s.range(1, 12), range = s.coin() ? 12 : 400; uint64_t invalid = s.coin(1, 3) ? 5 : 0;
  Auto t(init, invalid); map<uint64_t, uint64_t> m; int ops = s.size(1, s.coin(1, 4) ? 200 : 40);
  bool ins = s.coin(); s.log << "initial " << init << ", " << ops << (ins ? " inserts and" : "") << " find-or-inserts\n";
  for (int i = 0; i < ops; i++) {
    uint64_t k = gen_key(s, range), v = s.below(1000); if (k == invalid) k = 3; s.log << " " << k; Entry e = {k, v}; Auto::MutableIterator it;
    if (ins && !m.count(k) && s.coin()) { it = t.Insert(e); m[k] = v; CHECK_EQ(it->value, v, ""); }
    else { bool had = m.count(k); CHECK_EQ(t.FindOrInsert(e, it), had, "for " << k); if (!had) m[k] = v; CHECK_EQ(it->value, m[k], "for " << k); }
    CHECK_EQ(t.Size(), m.size(), "");
    if (s.coin(1, 40)) { t.Clear(); m.clear(); }
    if (s.coin(1, 4)) lookups(s, t, m, invalid, range);
  }
  lookups(s, t, m, invalid, range); s.nontrivial((int)m.size() > init); if (ins) s.label("insert");
}

template <class T, class P> static void uniform(S& s, uint64_t maxv) {
  int n = s.size(0, 60); vector<T> v; bool clump = s.coin();
  for (int i = 0; i < n; i++) v.push_back(clump && !v.empty() && s.coin() ? v[s.below(v.size())] + (T)s.below(3) : (T)(s.coin(1, 3) ? s.below(40) : s.below(maxv) * (maxv == ~0ull ? 1 : 1)));
  if (n && s.coin(1, 4)) v[0] = (T)~0ull; if (n > 1 && s.coin(1, 4)) v[1] = 0;
  sort(v.begin(), v.end()); util::IdentityAccessor<T> acc; s.log << show(v) << "\n";
  for (int j = 0; j < 12; j++) {
    T k = n && s.coin() ? v[s.below(n)] + (T)s.below(3) - 1 : (T)s.below(maxv); bool want = binary_search(v.begin(), v.end(), k);
    const T *b = v.data(), *e = b + n, *out = 0;
    bool got = util::SortedUniformFind<const T*, util::IdentityAccessor<T>, P>(acc, b, e, k, out);
    CHECK_EQ(got, want, "for key " << k << " in " << show(v)); if (got) CHECK(out >= b && out < e && *out == k, "wrong position for " << k);
    out = 0; got = util::BinaryFind(acc, b, e, k, out);
    CHECK_EQ(got, want, "(binary) for key " << k); if (got) CHECK(out >= b && out < e && *out == k, "wrong position for " << k);
    // the bounded form looks strictly between two given positions
    if (n >= 2) { size_t lo = s.below(n - 1), hi = lo + 1 + s.below(n - 1 - lo); if (v[lo] < k && k < v[hi]) {
      bool w = binary_search(v.begin() + lo, v.begin() + hi + 1, k); out = 0;
      got = util::BoundedSortedUniformFind<const T*, util::IdentityAccessor<T>, P>(acc, b + lo, v[lo], b + hi, v[hi], k, out);
      CHECK_EQ(got, w, "(bounded) for key " << k << " in " << show(v)); if (got) CHECK(out > b + lo && out < b + hi && *out == k, "wrong position"); s.label("bounded"); } }
  }
  s.nontrivial(n >= 4);
}
PROP(sorted_uniform, 10000, 60000) {
  switch (s.below(3)) { case 0: uniform<uint64_t, util::Pivot64>(s, ~0ull); break; case 1: uniform<uint32_t, util::Pivot32>(s, 0xffffffffull); break; default: uniform<uint16_t, util::Pivot32>(s, 0xffff); }
}

PROP(bit_packing, 4000, 60000) {
  struct F { int kind; uint64_t off; int len; uint64_t v; float f; }; vector<F> fs; uint64_t at = s.below(20);
  int n = s.size(1, 40); uint64_t spread = 0; bool small = true;
  for (int i = 0; i < n; i++) { F f; f.kind = s.below(4); f.off = at; f.v = 0; f.f = 0;
    if (f.kind == 0) { f.len = s.range(1, 57); f.v = s.coin(1, 4) ? (1ull << f.len) - 1 : s.below(1ull << f.len); }
    else if (f.kind == 1) { f.len = s.range(1, 25); f.v = s.coin(1, 4) ? (1ull << f.len) - 1 : s.below(1ull << f.len); }
    else if (f.kind == 2) { f.len = 32; f.f = s.coin(1, 5) ? -numeric_limits<float>::infinity() : (float)(s.quarter(40) * (s.coin() ? 1 : 1e-30)); }
    else { f.len = 31; f.f = -(float)fabs(s.coin(1, 5) ? (double)numeric_limits<float>::infinity() : s.quarter(40) * (s.coin() ? 1 : 1e-30)); }
    at += f.len + (s.coin(1, 3) ? s.below(9) : 0); if (f.len > 25) small = false; fs.push_back(f); s.log << " " << f.kind << "@" << f.off << "+" << f.len; }
  vector<uint8_t> mem((at + 7) / 8 + 8, 0);
  vector<int> order; for (int i = 0; i < n; i++) order.push_back(i); for (int i = n - 1; i > 0; i--) swap(order[i], order[s.below(i + 1)]);
  for (int j = 0; j < n; j++) { F& f = fs[order[j]];
    if (f.kind == 0) util::WriteInt57(mem.data(), f.off, f.len, f.v); else if (f.kind == 1) util::WriteInt25(mem.data(), f.off, f.len, f.v);
    else if (f.kind == 2) util::WriteFloat32(mem.data(), f.off, f.f); else util::WriteNonPositiveFloat31(mem.data(), f.off, f.f); }
  for (int j = 0; j < n; j++) { F& f = fs[j]; util::BitsMask bm = util::BitsMask::ByBits(f.len);
    if (f.kind == 0) CHECK_EQ(util::ReadInt57(mem.data(), f.off, f.len, bm.mask), f.v, "at " << f.off << " length " << f.len);
    else if (f.kind == 1) CHECK_EQ((uint64_t)util::ReadInt25(mem.data(), f.off, f.len, bm.mask), f.v, "at " << f.off << " length " << f.len);
    else if (f.kind == 2) CHECK_EQ(util::ReadFloat32(mem.data(), f.off), f.f, "at " << f.off);
    else CHECK_EQ(util::ReadNonPositiveFloat31(mem.data(), f.off), f.f, "at " << f.off); }
  // bits outside every field stay zero
  vector<bool> used(mem.size() * 8, false); for (int j = 0; j < n; j++) for (int b = 0; b < fs[j].len; b++) used[fs[j].off + b] = true;
  for (size_t b = 0; b < used.size(); b++) if (!used[b]) CHECK(!(mem[b / 8] >> (b % 8) & 1), "stray bit " << b);
  uint64_t mx = s.coin() ? s.below(300) : s.below(1ull << s.range(1, 56)); int want = 0; while (want < 64 && (mx >> want)) want++;
  CHECK_EQ((int)util::RequiredBits(mx), want, "for " << mx); util::BitsMask bm = util::BitsMask::ByMax(mx);
  CHECK_EQ((int)bm.bits, want, ""); CHECK_EQ(bm.mask, (1ull << want) - 1, "for " << mx);
  float x = (float)s.quarter(50), y = x; util::SetSign(x); CHECK(signbit(x) && fabs(x) == fabs(y), "SetSign of " << y); util::UnsetSign(x); CHECK(!signbit(x) && fabs(x) == fabs(y), "UnsetSign of " << y);
  util::BitPackingSanity(); s.nontrivial(n >= 4); (void)spread; if (small) s.label("small-fields");
}

static string gen_str(S& s, const string& al, int hi) { string r; int n = s.size(0, hi); for (int i = 0; i < n; i++) r += al[s.below(al.size())]; return r; }
template <class It, class C> static vector<string> toks(const string& str, const C& c) { vector<string> r; for (It i(StringPiece(str), c); i; ++i) { r.push_back(string(i->data(), i->size())); if (r.size() > 500) FAIL("does not end"); } return r; }

PROP(tokens, 6000, 80000) {
  string str = gen_str(s, "ab ,|\n", 24), delims; int kind = s.below(3); vector<string> all; size_t len = 1;
  if (kind == 0) delims = string(1, " ,|a"[s.below(4)]); else if (kind == 1) { int n = s.range(1, 3); for (int i = 0; i < n; i++) delims += " ,|"[s.below(3)]; len = n; }
  else { int n = s.range(1, 3); for (int i = 0; i < n; i++) delims += " ,|\n"[s.below(4)]; }
  s.log << "'" << jesc(str) << "' by " << kind << " '" << jesc(delims) << "'"; size_t b = 0;
  while (true) { size_t p = kind == 2 ? str.find_first_of(delims, b) : str.find(delims, b); if (p == string::npos) { all.push_back(str.substr(b)); break; } all.push_back(str.substr(b, p - b)); b = p + len; }
  vector<string> ne; for (auto& x : all) if (x != "") ne.push_back(x);
  if (kind == 0) { CHECK_EQ((toks<util::TokenIter<util::SingleCharacter>>(str, delims[0])), all, ""); CHECK_EQ((toks<util::TokenIter<util::SingleCharacter, true>>(str, delims[0])), ne, ""); }
  if (kind <= 1) { CHECK_EQ((toks<util::TokenIter<util::MultiCharacter>>(str, StringPiece(delims))), all, ""); CHECK_EQ((toks<util::TokenIter<util::MultiCharacter, true>>(str, StringPiece(delims))), ne, ""); }
  if (kind == 2) { CHECK_EQ((toks<util::TokenIter<util::AnyCharacter>>(str, StringPiece(delims))), all, ""); CHECK_EQ((toks<util::TokenIter<util::AnyCharacter, true>>(str, StringPiece(delims))), ne, "");
    bool tab[256] = {}; for (char c : delims) tab[(unsigned char)c] = true;
    CHECK_EQ((toks<util::TokenIter<util::BoolCharacter>>(str, (const bool*)tab)), all, ""); CHECK_EQ((toks<util::TokenIter<util::BoolCharacter, true>>(str, (const bool*)tab)), ne, ""); }
  s.nontrivial(all.size() >= 3);
}

PROP(string_piece, 5000, 60000) {
  string a = gen_str(s, "abc", 14), b = gen_str(s, "abc", 3); StringPiece x(a), y(b); size_t pos = s.below(17); char c = "abcd"[s.below(4)];
  if (s.coin(1, 4)) pos = string::npos; s.log << a << " / " << b << " / " << pos << " " << c;
#define SAME(e1, e2) CHECK_EQ((size_t)(e1), (size_t)(e2), "for '" << a << "', '" << b << "', " << c << ", " << pos)
  SAME(x.find(y, pos), a.find(b, pos)); SAME(x.find(c, pos), a.find(c, pos)); SAME(x.rfind(y, pos), a.rfind(b, pos)); SAME(x.rfind(c, pos), a.rfind(c, pos));
  SAME(x.find_first_of(y, pos), a.find_first_of(b, pos)); SAME(x.find_last_of(y, pos), a.find_last_of(b, pos));
  SAME(x.find_first_not_of(c, pos), a.find_first_not_of(c, pos)); SAME(x.find_last_not_of(c, pos), a.find_last_not_of(c, pos));
  if (b != "") { SAME(x.find_first_not_of(y, pos), a.find_first_not_of(b, pos)); SAME(x.find_last_not_of(y, pos), a.find_last_not_of(b, pos)); }
  size_t len = s.below(9), p = min(pos, a.size()); CHECK_EQ(x.substr(p, len).as_string(), a.substr(p, len), "");
  int cmp = x.compare(y); CHECK_EQ((cmp > 0) - (cmp < 0), (a.compare(b) > 0) - (a.compare(b) < 0), ""); CHECK_EQ(x < y, a < b, ""); CHECK_EQ(x == y, a == b, ""); CHECK_EQ(x != y, a != b, "");
  CHECK_EQ(x > y, a > b, ""); CHECK_EQ(x <= y, a <= b, ""); CHECK_EQ(x >= y, a >= b, "");
  CHECK_EQ(x.starts_with(y), a.compare(0, b.size(), b) == 0 && a.size() >= b.size(), ""); CHECK_EQ(x.ends_with(y), a.size() >= b.size() && a.substr(a.size() - b.size()) == b, "");
  s.nontrivial(a.size() >= 3 && !b.empty());
}

// --- FilePiece
static string gen_text(S& s) {
  string r; int segs = s.size(0, 40);
  static const char* NUM[] = {"0", "-1.5", "3.25e-7", "12345", "-0.3010299", "1e10", "-99", "4294967296", "0.1", "+7", "-2.718281828459045", "1e-40"};
  for (int i = 0; i < segs; i++) {
    switch (s.below(6)) {
      case 0: case 1: { int n = s.size(1, 12); for (int j = 0; j < n; j++) r += "abcxyz\x81\xe3"[s.below(8)]; break; }
      case 2: r += NUM[s.below(12)]; break;
      case 3: r += string(s.coin() ? s.range(1, 20) : s.range(3000, 9000), "qrs"[s.below(3)]); break;
      case 4: { int lines = s.range(50, 700); for (int j = 0; j < lines; j++) { r += NUM[j % 12]; r += j % 7 == 3 ? "\n" : j % 5 == 1 ? "  " : " "; } break; }
      default: break;
    }
    int k = s.below(6); r += k == 0 ? "" : k <= 2 ? " " : k == 3 ? "\n" : k == 4 ? "\t \n" : "\n\n";
  }
  if (s.coin(1, 5) && !r.empty()) { size_t want = 4096 * (1 + s.below(3)); if (r.size() > want) r.resize(want); }   // ends on a page
  return r;
}
static bool sp(char c) { return util::kSpaces[(unsigned char)c]; }

PROP(file_piece, 10000, 60000) {
  struct Closer { std::thread* t; util::FilePiece* f; ~Closer() { delete f; if (t) { t->join(); delete t; } } } own = {0, 0};
  string d = gen_text(s); int kind = s.below(4); size_t minbuf = s.coin(1, 4) ? 1 + s.below(20000) : 1; signal(SIGPIPE, SIG_IGN);
  s.log << d.size() << " bytes, source " << kind << ", buffer " << minbuf << " '" << jesc(d.substr(0, 200)) << "'\n"; s.sync();
  istringstream is(d); string path = scratch() + "/in";
  if (kind <= 1) { ofstream f(path.c_str()); f << d; f.close(); own.f = kind ? new util::FilePiece(open(path.c_str(), O_RDONLY), "in", NULL, minbuf) : new util::FilePiece(path.c_str(), NULL, minbuf); }
  else if (kind == 2) { int p[2]; if (pipe(p)) abort(); int step = s.coin() ? 100000 : s.range(1, 5000);
    own.t = new std::thread([=] { size_t w = 0; while (w < d.size()) { ssize_t r = write(p[1], d.data() + w, min((size_t)step, d.size() - w)); if (r <= 0) break; w += r; } close(p[1]); });
    own.f = new util::FilePiece(p[0], "pipe", NULL, minbuf); }
  else own.f = new util::FilePiece(is, "stream", minbuf);
  util::FilePiece& f = *own.f; size_t at = 0; int mode = s.below(6), n = 0, nums = 0;
  for (int i = 0; i < 4000; i++) {
    int op = mode < 5 ? (s.coin(1, 20) ? s.below(8) : mode) : s.below(8); if (op > 4 && op < 7 && mode == 5) op = 4 + s.below(4);
    CHECK_EQ(f.Offset(), (uint64_t)at, "(Offset)"); bool threw = false; s.log << op; n++;
    if (op == 0) { // ReadLine
      char dl = s.coin(1, 6) ? ' ' : '\n'; string got; try { StringPiece g(f.ReadLine(dl)); got.assign(g.data(), g.size()); } catch (const util::EndOfFileException&) { threw = true; }
      CHECK_EQ(threw, at >= d.size(), "ReadLine at " << at << " of " << d.size()); if (threw) break;
      size_t e = d.find(dl, at); string want = d.substr(at, e == string::npos ? string::npos : e - at); CHECK(got == want, "ReadLine at " << at << " gives " << got.size() << " bytes, expected " << want.size()); at = e == string::npos ? d.size() : e + 1;
    } else if (op == 1) { StringPiece g; bool ok = f.ReadLineOrEOF(g); CHECK_EQ(ok, at < d.size(), "ReadLineOrEOF at " << at << " of " << d.size()); if (!ok) break;
      size_t e = d.find('\n', at); string want = d.substr(at, e == string::npos ? string::npos : e - at); CHECK(string(g.data(), g.size()) == want, "ReadLineOrEOF at " << at << " gives " << g.size() << " bytes, expected " << want.size()); at = e == string::npos ? d.size() : e + 1;
    } else if (op == 2) { string got; try { StringPiece g(f.ReadDelimited()); got.assign(g.data(), g.size()); } catch (const util::EndOfFileException&) { threw = true; }
      while (at < d.size() && sp(d[at])) at++; CHECK_EQ(threw, at >= d.size(), "ReadDelimited at " << at << " of " << d.size()); if (threw) break;
      size_t e = at; while (e < d.size() && !sp(d[e])) e++; CHECK(got == d.substr(at, e - at), "ReadDelimited at " << at << " gives '" << got.substr(0, 50) << "' (" << got.size() << ") for '" << d.substr(at, min<size_t>(50, e - at)) << "' (" << e - at << ")"); at = e;
    } else if (op == 3) { StringPiece g; bool ok = f.ReadWordSameLine(g); while (at < d.size() && sp(d[at]) && d[at] != '\n') at++;
      bool want = at < d.size() && d[at] != '\n'; CHECK_EQ(ok, want, "ReadWordSameLine at " << at);
      if (ok) { size_t e = at; while (e < d.size() && !sp(d[e])) e++; CHECK(string(g.data(), g.size()) == d.substr(at, e - at), "ReadWordSameLine at " << at << " gives " << g.size() << " bytes for " << e - at); at = e; }
      else if (at >= d.size()) break; else { char c = f.get(); CHECK_EQ(c, '\n', "after the end of a line"); at++; }
    } else if (op == 4) { char c = 0; try { c = f.get(); } catch (const util::EndOfFileException&) { threw = true; } CHECK_EQ(threw, at >= d.size(), "get at " << at << " of " << d.size()); if (threw) break; CHECK(c == d[at], "get at " << at << " gives " << (int)c << " for " << (int)d[at]); at++;
    } else { // numbers: only where a well-formed one stands
      size_t b = at; while (b < d.size() && sp(d[b])) b++; size_t e = b; while (e < d.size() && !sp(d[e])) e++; string w = d.substr(b, e - b); char* end; const char* c = w.c_str();
      bool isl = !w.empty() && w.find_first_not_of("0123456789+-") == string::npos; double dv = strtod(c, &end); bool isd = !w.empty() && *end == 0 && w.find_first_not_of("0123456789+-.e") == string::npos;
      if (!isd) { string got; if (b >= d.size()) { bool th = false; try { f.ReadFloat(); } catch (const util::Exception&) { th = true; } CHECK(th, "a number is read at the end of the file"); break; }
        if (w.find_first_of("abcqrsxyz") == 0) { bool th = false; try { f.ReadDouble(); } catch (const util::ParseNumberException&) { th = true; } CHECK(th, "'" << w.substr(0, 30) << "' is read as a number"); s.label("not-a-number"); break; }
        got = f.ReadDelimited().as_string(); CHECK(got == w, "ReadDelimited at " << b); at = e; continue; }
      nums++;
      if (op == 5) CHECK_EQ(f.ReadFloat(), strtof(c, &end), "for " << w); else if (op == 6 || !isl) CHECK_EQ(f.ReadDouble(), dv, "for " << w);
      else if (w[0] == '-' || s.coin()) CHECK_EQ(f.ReadLong(), strtol(c, &end, 10), "for " << w); else CHECK_EQ(f.ReadULong(), strtoul(c, &end, 10), "for " << w);
      at = e;
    }
  }
  s.nontrivial(n >= 4 && d.size() > 4); if (d.size() > 8192) s.label("beyond-one-buffer"); if (nums) s.label("numbers"); s.label("source-" + string(1, '0' + kind));
}

PROP(compressed_refused, 60, 600) {   // this build has no decompressors: a compressed file must not be read as text
  static const string M[] = {string("\x1f\x8b\x08\0\0\0", 6), "BZh91A", string("\xfd" "7zXZ\0", 6)}; int k = s.below(3); string d = M[k]; int n = s.range(0, 200); for (int i = 0; i < n; i++) d += (char)s.below(256);
  string path = scratch() + "/in"; { ofstream f(path.c_str()); f << d; } bool threw = false; s.log << "magic " << k << " + " << n;
  try { util::FilePiece f(path.c_str(), NULL, 1); f.ReadLine(); } catch (const util::Exception&) { threw = true; }
#if !defined(HAVE_ZLIB) && !defined(HAVE_BZLIB) && !defined(HAVE_XZLIB)
  CHECK(threw, "a compressed file is read as if it were text");
#endif
  s.nontrivial();
}

PROP(intersection, 10000, 40000) {
  int k = s.range(1, 4); vector<vector<int> > v(k); set<int> want; 
  for (int i = 0; i < k; i++) { set<int> x; int n = s.size(0, 12); for (int j = 0; j < n; j++) x.insert(s.below(s.coin() ? 10 : 25)); v[i].assign(x.begin(), x.end()); s.log << show(v[i]);
    if (i == 0) want = x; else { set<int> y; for (int e : want) if (x.count(e)) y.insert(e); want = y; } }
  typedef boost::iterator_range<vector<int>::const_iterator> R; vector<R> sets; for (auto& x : v) sets.push_back(R(x.begin(), x.end()));
  vector<R> c(sets); boost::optional<int> first = util::FirstIntersection(c); CHECK_EQ((bool)first, !want.empty(), ""); if (first) CHECK_EQ(*first, *want.begin(), "");
  vector<int> got; auto out = [&](int x) { got.push_back(x); }; c = sets; util::AllIntersection(c, out); CHECK_EQ(got, vector<int>(want.begin(), want.end()), "");
  s.nontrivial(k >= 2 && !want.empty());
}

PROP(joint_sort, 3000, 40000) {
  int n = s.size(0, 60); vector<int> k; vector<string> v; multimap<int, string> m; bool dup = s.coin(); for (int i = 0; i < n; i++) { k.push_back(dup ? s.below(8) : s.below(1000)); v.push_back("v" + show(i)); m.insert(make_pair(k[i], v[i])); }
  s.log << show(k); bool desc = s.coin(); if (desc) util::JointSort(k.begin(), k.end(), v.begin(), greater<int>()); else util::JointSort(k.begin(), k.end(), v.begin());
  for (int i = 1; i < n; i++) CHECK(desc ? k[i - 1] >= k[i] : k[i - 1] <= k[i], "not sorted " << show(k));
  multiset<pair<int, string> > a, b; for (int i = 0; i < n; i++) a.insert(make_pair(k[i], v[i])); for (auto& x : m) b.insert(x); CHECK(a == b, "pairs are broken up");
  // fixed-size records sorted in place
  int sz = s.range(1, 20), c = s.size(0, 50); string mem; vector<string> recs; for (int i = 0; i < c; i++) { string r; for (int j = 0; j < sz; j++) r += (char)s.below(4); recs.push_back(r); mem += r; }
  struct Less { size_t n; bool operator()(const void* x, const void* y) const { return memcmp(x, y, n) < 0; } } less = {(size_t)sz};
  vector<char> buf(mem.begin(), mem.end()); buf.push_back(0); sort(util::SizedIt(buf.data(), sz), util::SizedIt(buf.data() + c * sz, sz), util::SizedCompare<Less>(less));
  sort(recs.begin(), recs.end()); string want; for (auto& r : recs) want += r; CHECK(string(buf.begin(), buf.end() - 1) == want, "records of " << sz << " bytes not sorted"); s.nontrivial(n >= 5 || c >= 5);
}

PROP(pool, 2000, 30000) {
  util::Pool p; int n = s.size(1, 60); vector<pair<char*, int> > got; vector<char> fill;
  for (int i = 0; i < n; i++) { int sz = s.coin(1, 8) ? s.range(0, 5000) : s.range(0, 40); char* q = (char*)p.Allocate(sz); memset(q, i + 1, sz); got.push_back(make_pair(q, sz)); fill.push_back(i + 1); s.log << " " << sz;
    if (s.coin(1, 40)) { p.FreeAll(); got.clear(); fill.clear(); } }
  for (size_t i = 0; i < got.size(); i++) for (int j = 0; j < got[i].second; j++) CHECK(got[i].first[j] == fill[i], "block " << i << " overwritten at " << j);
  s.nontrivial(n >= 5);
}

PROP(pcqueue, 1000, 4000) {
  int prod = s.range(1, 3), cons = s.range(1, 3), cap = s.range(1, 5), per = s.range(1, 40); s.log << prod << " producers of " << per << ", " << cons << " consumers, capacity " << cap; s.sync();
  util::PCQueue<int> q(cap); vector<vector<int> > got(cons); boost::thread_group tg, cg;
  for (int i = 0; i < prod; i++) tg.create_thread([&, i] { for (int j = 0; j < per; j++) q.Produce(i * 1000 + j); });
  for (int i = 0; i < cons; i++) cg.create_thread([&, i] { while (true) { int x; q.Consume(x); if (x < 0) break; got[i].push_back(x); } });
  tg.join_all(); for (int i = 0; i < cons; i++) q.Produce(-1); cg.join_all();
  multiset<int> all, want; for (auto& g : got) { all.insert(g.begin(), g.end()); map<int, int> last; for (int x : g) { if (last.count(x / 1000)) CHECK(last[x / 1000] < x, "out of order"); last[x / 1000] = x; } }
  for (int i = 0; i < prod; i++) for (int j = 0; j < per; j++) want.insert(i * 1000 + j); CHECK(all == want, "queue delivered " << all.size() << " items of " << want.size()); s.nontrivial(prod + cons >= 3);
}
PBT_MAIN("h_util")
