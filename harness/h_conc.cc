// C05 (vocabulary under concurrent use), built with ThreadSanitizer.
#include "pbt.h"
#include <travatar/symbol-set.h>
#include <travatar/dict.h>
#include <thread>
#include <atomic>
using namespace std; using namespace travatar; using pbt::S;

PROP(shared_dict, 400, 20000) {
  bool global = s.coin(); int nt = s.range(2, 4), nw = s.range(2, 24); SymbolSet<int> own(true); string tag = "w" + to_string(s.below(1000000)) + "_";
  vector<vector<int> > order(nt); for (auto& o : order) { int k = s.range(1, nw * 2); for (int i = 0; i < k; i++) o.push_back(s.below(nw)); }
  s.log << nt << " threads, " << nw << " words, " << (global ? "the global dictionary" : "a symbol set") << "\n"; for (auto& o : order) s.log << "  " << pbt::show(o) << "\n"; s.sync();
  vector<vector<int> > got(nt); vector<string> err(nt); atomic<int> ready(0);
  vector<thread> th; for (int t = 0; t < nt; t++) th.push_back(thread([&, t] { ready++; while (ready < nt) {} 
    for (int w : order[t]) { string x = tag + to_string(w); int id = global ? Dict::WID(x) : own.GetId(x, true); got[t].push_back(id); const string& y = global ? Dict::WSym(id) : own.GetSymbol(id); if (y != x) err[t] = "id " + to_string(id) + " of " + x + " prints as " + y; if (!got[t].empty()) { int j = got[t].size() / 2; string z = tag + to_string(order[t][j]); if ((global ? Dict::WSym(got[t][j]) : own.GetSymbol(got[t][j])) != z) err[t] = "earlier id of " + z + " changed"; } } }));
  for (auto& x : th) x.join();
  map<int, int> id; for (int t = 0; t < nt; t++) { CHECK_EQ(err[t], string(), "in thread " << t); for (size_t i = 0; i < order[t].size(); i++) { auto it = id.find(order[t][i]); if (it == id.end()) id[order[t][i]] = got[t][i]; else CHECK_EQ(got[t][i], it->second, "threads disagree on the id of word " << order[t][i]); } }
  set<int> u; for (auto& p : id) CHECK(u.insert(p.second).second, "id used for two words"); if (!global) CHECK_EQ(own.size(), id.size(), "size of the symbol set");
  s.nontrivial(id.size() >= 3);
}
PBT_MAIN("h_conc")
