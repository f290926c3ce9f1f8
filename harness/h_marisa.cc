// C26: the compact trie dictionary against an ordered set.
#include "pbt.h"
#include <marisa/marisa.h>
#include <marisa/trie.h>
#include <marisa/iostream.h>
#include <marisa/stdio.h>
#include <memory>
using namespace std; using pbt::S;

static string esc(const string& x) { string r; char b[8]; for (unsigned char c : x) if (c > 32 && c < 127 && c != '\\') r += c; else { snprintf(b, sizeof b, "\\x%02x", c); r += b; } return "'" + r + "'"; }
static char ch(S& s, int alpha) { switch (alpha) { case 0: return "ab"[s.below(2)]; case 1: return 'a' + s.below(4); case 2: return "a\0b\xff"[s.below(4)]; case 3: return 'a' + s.below(26); default: return (char)s.below(256); } }
static string rstr(S& s, int alpha, int lo, int hi) { string r; int n = s.size(lo, hi); for (int i = 0; i < n; i++) r += ch(s, alpha); return r; }
// Keys that share prefixes, suffixes and middles.
static vector<string> keys(S& s, int n, int alpha) {
  vector<string> v; int kind = s.below(4); int longest = s.coin(1, 5) ? 40 : 8;
  for (int i = 0; i < n; i++) {
    string k; int c = v.empty() ? 0 : s.below(7);
    if (c <= 2) k = rstr(s, alpha, kind == 0 ? 0 : 1, longest);
    else { const string& o = v[s.below(v.size())]; if (c == 3) k = o.substr(0, s.below(o.size() + 1)) + rstr(s, alpha, 0, 4); else if (c == 4) k = rstr(s, alpha, 0, 4) + o.substr(s.below(o.size() + 1)); else if (c == 5) k = o; else { k = o; if (!k.empty()) k[s.below(k.size())] = ch(s, alpha); } }
    if (k.size() > 200) k.resize(200);
    if (s.coin(1, 200)) k += string(s.range(200, 1500), ch(s, alpha)); v.push_back(k);
  }
  return v;
}
static string cfgname(int f) { ostringstream o; o << "tries " << (f & 0x7f) << " cache " << hex << (f & 0xf80) << " tail " << (f & 0xf000) << " order " << (f & 0xf0000); return o.str(); }
static string str(const marisa::Key& k) { return string(k.ptr(), k.length()); }
struct Ids { map<string, size_t> id; };
static void verify(S& s, const marisa::Trie& t, const set<string>& want, const vector<string>& probes, bool labels, Ids& ids, const string& what, size_t cap) {
  CHECK_EQ(t.size(), want.size(), what << ": size"); CHECK_EQ(t.num_keys(), want.size(), what << ": number of keys"); CHECK_EQ(t.empty(), want.empty(), what << ": empty");
  marisa::Agent a, b; set<size_t> seen; bool first = ids.id.empty();
  for (auto& k : want) { a.set_query(k.data(), k.size()); CHECK(t.lookup(a), what << ": member " << esc(k) << " is not found"); size_t id = a.key().id(); CHECK(id < want.size(), what << ": id " << id << " of " << esc(k) << " out of range"); CHECK(seen.insert(id).second, what << ": id " << id << " of " << esc(k) << " used twice"); CHECK_EQ(str(a.key()), k, what << ": key of a lookup");
    if (first) ids.id[k] = id; else CHECK_EQ(id, ids.id[k], what << ": id of " << esc(k) << " changed");
    b.set_query(id); t.reverse_lookup(b); CHECK(str(b.key()) == k, what << ": reverse lookup of the id of " << esc(k) << " gives " << esc(str(b.key()))); CHECK_EQ(b.key().id(), id, what << ": id after a reverse lookup"); }
  for (size_t x : {want.size(), want.size() + 1, want.size() + 1000}) { b.set_query(x); bool threw = false; try { t.reverse_lookup(b); } catch (marisa::Exception&) { threw = true; } CHECK(threw, what << ": reverse lookup of the invalid id " << x); }
  for (auto& q : probes) {
    a.set_query(q.data(), q.size()); bool in = want.count(q); bool got = t.lookup(a); CHECK_EQ(got, in, what << ": lookup of " << esc(q)); if (got) CHECK_EQ(a.key().id(), ids.id[q], what << ": id of " << esc(q));
    // all members that are prefixes of q, shortest first
    vector<string> wp; for (size_t l = 0; l <= q.size(); l++) if (want.count(q.substr(0, l))) wp.push_back(q.substr(0, l));
    vector<string> gp; a.set_query(q.data(), q.size()); while (t.common_prefix_search(a)) { gp.push_back(str(a.key())); CHECK(gp.size() <= wp.size(), what << ": too many common prefixes of " << esc(q) << ", last " << esc(gp.back())); CHECK(want.count(gp.back()) && a.key().id() == ids.id[gp.back()], what << ": common prefix " << esc(gp.back()) << " with id " << a.key().id()); }
    CHECK(gp == wp, what << ": " << gp.size() << " common prefixes of " << esc(q) << ", expected " << wp.size()); CHECK(!t.common_prefix_search(a), what << ": a finished prefix search starts again");
    // all members that start with q
    vector<string> wq; for (auto it = want.lower_bound(q); it != want.end() && it->compare(0, q.size(), q) == 0; ++it) wq.push_back(*it);
    if (wq.size() > cap && s.coin(3, 4)) continue;
    vector<string> gq; a.set_query(q.data(), q.size()); while (t.predictive_search(a)) { gq.push_back(str(a.key())); CHECK(gq.size() <= wq.size(), what << ": too many keys start with " << esc(q) << ", last " << esc(gq.back())); CHECK(want.count(gq.back()) && a.key().id() == ids.id[gq.back()], what << ": predicted " << esc(gq.back()) << " for " << esc(q) << " with id " << a.key().id()); }
    if (!labels) sort(gq.begin(), gq.end()); CHECK(gq == wq, what << ": keys starting with " << esc(q) << (labels ? " (in label order)" : "") << ": " << gq.size() << ", expected " << wq.size()); CHECK(!t.predictive_search(a), what << ": a finished predictive search starts again");
    // an abandoned search does not disturb the next query
    if (!wq.empty()) { a.set_query(q.data(), q.size()); CHECK(t.predictive_search(a), what << ": predictive search restarted for " << esc(q)); a.set_query(q.data(), q.size()); CHECK_EQ(t.lookup(a), in, what << ": lookup after an abandoned search"); }
  }
}
static void law(S& s, int maxn, size_t nprobe) {
  int alpha = s.below(5); int n = maxn > 100 ? s.range(100, maxn) : s.size(0, maxn); vector<string> v = keys(s, n, alpha); set<string> want(v.begin(), v.end());
  static const int C[] = {0, 0x80, 0x100, 0x200, 0x400, 0x800}, T[] = {0, 0x1000, 0x2000}, O[] = {0, 0x10000, 0x20000}; int flags = (s.coin(1, 8) ? (int)s.range(6, 127) : (int)s.below(6)) | C[s.below(6)] | T[s.below(3)] | O[s.below(3)]; bool weights = s.coin();
  s.log << n << " keys, " << want.size() << " distinct, " << cfgname(flags) << "\n"; for (size_t i = 0; i < v.size() && i < 40; i++) s.log << " " << esc(v[i].substr(0, 60)); s.log << "\n"; s.sync();
  marisa::Keyset ks; if (s.coin(1, 6)) { for (int i = 0; i < 5; i++) ks.push_back("junk" , 4); ks.reset(); }
  for (auto& k : v) { float w = weights ? (float)s.below(20) : 1; int how = s.below(4); if (how == 0 && k.find('\0') == string::npos && !weights) ks.push_back(k.c_str()); else if (how == 1) { marisa::Key x; x.set_str(k.data(), k.size()); x.set_weight(w); ks.push_back(x); } else if (how == 2) { marisa::Key x; x.set_str(k.data(), k.size()); x.set_weight(w); ks.push_back(x, '\0'); } else ks.push_back(k.data(), k.size(), w); }
  CHECK_EQ(ks.size(), v.size(), "keys in the key set"); for (size_t i = 0; i < v.size(); i++) CHECK(str(ks[i]) == v[i], "key " << i << " of the key set is " << esc(str(ks[i])));
  marisa::Trie t; if (s.coin(1, 8)) { marisa::Keyset o; o.push_back("old"); t.build(o); } t.build(ks, flags); bool labels = (flags & 0xf0000) == 0x10000;
  vector<string> probes; for (size_t i = 0; i < nprobe; i++) { int c = v.empty() ? 0 : s.below(6); string q; if (c == 0) q = rstr(s, alpha, 0, 6); else { q = v[s.below(v.size())]; if (c == 2) q += ch(s, alpha); else if (c == 3) q = q.substr(0, s.below(q.size() + 1)); else if (c == 4 && !q.empty()) q[s.below(q.size())] = ch(s, alpha); else if (c == 5) q = q.substr(0, s.below(q.size() + 1)) + rstr(s, alpha, 0, 3); } probes.push_back(q); } probes.push_back("");
  Ids ids; verify(s, t, want, probes, labels, ids, "built", 300); for (size_t i = 0; i < v.size(); i++) CHECK_EQ(ks[i].id(), ids.id[v[i]], "id left in the key set for " << esc(v[i]));
  if (flags & 0xf0000) CHECK_EQ((int)t.node_order(), flags & 0xf0000, "node order");
  int how = s.below(7); string f = pbt::scratch() + "/t"; marisa::Trie u; vector<uint64_t> mem; static const char* H[] = {"saved and loaded", "saved and memory-mapped", "mapped from memory", "written and read through a stream", "written and read through FILE", "written and read through a descriptor", "swapped"}; string w = H[how];
  if (s.coin(1, 4) && how < 6) { marisa::Keyset o; o.push_back("old"); u.build(o); }
  switch (how) {
    case 0: t.save(f.c_str()); u.load(f.c_str()); break;
    case 1: t.save(f.c_str()); u.mmap(f.c_str()); break;
    case 2: case 3: { stringstream ss; if (how == 3) { ss << t << t; marisa::Trie first; ss >> first >> u; } else { ss << t; string d = ss.str(); CHECK_EQ(d.size(), t.io_size(), "bytes written"); mem.resize(d.size() / 8 + 1); memcpy(&mem[0], d.data(), d.size()); u.map(&mem[0], d.size()); } break; }
    case 4: { FILE* p = fopen(f.c_str(), "w+b"); fwrite(p, t); fflush(p); rewind(p); fread(p, &u); fclose(p); break; }
    case 5: { int fd = open(f.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); t.write(fd); lseek(fd, 0, SEEK_SET); u.read(fd); close(fd); break; }
    default: u.swap(t); }
  if (how < 2) { t.clear(); if (how == 1) unlink(f.c_str()); }
  s.sync(); vector<string> some(probes.begin(), probes.begin() + min<size_t>(probes.size(), 12)); verify(s, u, want, some, labels, ids, w, 60);
  CHECK_EQ((int)u.node_order() , (flags & 0xf0000) ? flags & 0xf0000 : 0x20000, w << ": node order"); s.label(w); if (alpha == 2) s.label("zero bytes"); s.nontrivial(want.size() >= 5);
}
PROP(small_sets, 40000, 400000) { law(s, 60, 25); }
PROP(large_sets, 800, 4000) { law(s, s.thorough ? 20000 : 5000, 60); }
PBT_MAIN("h_marisa")
