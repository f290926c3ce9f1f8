// C29: thread pool and output collector under random loads; built plain and with ThreadSanitizer.
#include "pbt.h"
#include <travatar/thread-pool.h>
#include <travatar/output-collector.h>
#include <travatar/task.h>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <atomic>
#include <chrono>
using namespace std; using namespace travatar; using pbt::S;

static void nap(int us) { if (us < 0) return; if (us == 0) this_thread::yield(); else usleep(us); }
struct Plan { vector<int> delay; };
struct Rec { atomic<int> begun, done; atomic<int> deleted; Rec() : begun(0), done(0), deleted(0) {} };
struct JobBase : public Task { Rec& r; int us; OutputCollector* oc; int id; string out, err; bool skip; JobBase(Rec& r_, int u) : r(r_), us(u), oc(0), id(0), skip(false) {}
  void Run() { r.begun++; nap(us); if (oc) { if (skip) oc->Skip(id); else oc->Write(id, out, err); } r.done++; }
  ~JobBase() { r.deleted++; } };

// A stream that remembers everything and how much had been written at the last flush.
struct Buf : public streambuf { string s; size_t flushed; Buf() : flushed(0) {} int overflow(int c) { if (c != EOF) s += (char)c; return c; } streamsize xsputn(const char* p, streamsize n) { s.append(p, n); return n; } int sync() { flushed = s.size(); return 0; } };

// Runs f in a thread of its own; a case that takes far too long has hung.
template <class F> static void limited(F f, const char* what) {
  struct St { mutex m; condition_variable c; bool done; string err; St() : done(false) {} }; shared_ptr<St> st(new St);
  thread t([=]() { string e; try { f(); } catch (pbt::Failure& x) { e = x.msg; } catch (exception& x) { e = string("unexpected exception: ") + x.what(); } lock_guard<mutex> l(st->m); st->done = true; st->err = e; st->c.notify_all(); });
  bool ok; { unique_lock<mutex> l(st->m); ok = st->c.wait_until(l, chrono::system_clock::now() + chrono::seconds(25), [&] { return st->done; }); }
  if (!ok) { t.detach(); FAIL(what << " did not finish within 25 s (tasks or threads are stuck)"); }
  t.join(); if (!st->err.empty()) throw pbt::Failure(st->err);
}

PROP(pool, 4000, 60000) {
  int nthr = s.range(1, 6), limit = s.range(0, 4), n = s.size(0, 40), subs = s.range(1, 3), rounds = s.range(1, 6); bool process = s.coin(3, 4), del = s.coin(3, 4), late = s.coin(1, 3); int submit_us = s.below(3) - 1;
  vector<int> us; for (int i = 0; i < n; i++) us.push_back(s.coin(1, 3) ? (int)s.range(1, 200) : (int)s.below(2) - 1);
  int pause = s.below(3) * 50 - 1;
  s.log << nthr << " threads, queue limit " << limit << ", " << n << " tasks from " << subs << " submitters, delays " << pbt::show(us) << " us, " << rounds << " rounds, " << (process ? "processing" : "dropping") << " what remains, deleting " << del << "\n"; s.sync();
  for (int r = 0; r < rounds; r++) limited([=]() {
    unique_ptr<Rec[]> rec(new Rec[n ? n : 1]); vector<JobBase*> jobs; for (int i = 0; i < n; i++) jobs.push_back(new JobBase(rec[i], us[i]));
    { ThreadPool pool(nthr, limit); pool.SetDeleteTasks(del);
      vector<thread> th; for (int t = 0; t < subs; t++) th.push_back(thread([&, t] { for (int i = t; i < n; i += subs) { nap(submit_us); pool.Submit(jobs[i]); } }));
      for (auto& t : th) t.join();
      nap(pause); pool.Stop(process);
      int ran = 0; for (int i = 0; i < n; i++) { int b = rec[i].begun, d = rec[i].done; CHECK(b <= 1, "task " << i << " ran " << b << " times"); CHECK_EQ(d, b, "after Stop, task " << i << " is still running"); ran += b; }
      if (process) CHECK_EQ(ran, n, "tasks executed");
      if (del) { for (int i = 0; i < n; i++) CHECK_EQ((int)rec[i].deleted, (int)rec[i].begun, "deletions of task " << i); } else for (int i = 0; i < n; i++) CHECK_EQ((int)rec[i].deleted, 0, "deletions of task " << i << " though deletion is off");
      if (late) { Rec x; JobBase j(x, 0); bool threw = false; try { pool.Submit(&j); } catch (exception& e) { threw = true; } CHECK(threw, "a task submitted after Stop was accepted"); pool.Stop(process); CHECK_EQ((int)x.begun, 0, "a task submitted after Stop ran"); }
    }
    for (int i = 0; i < n; i++) if (!del || !rec[i].begun) delete jobs[i];
  }, "a thread pool");
  if (process) s.label("process remaining"); if (limit) s.label("queue limit"); s.nontrivial(n >= 4 && nthr >= 2);
}
static string chunk(S& s) { static const char* C[] = {"", "x", "one line\n", "two\nlines\n", "\n", "trailing"}; return C[s.below(6)]; }
struct Out { bool skip; string out, err; };
// One thread, any order: after every single write exactly the contiguous prefix is out.
PROP(collector_steps, 20000, 300000) {
  int n = s.size(0, 12); bool buffer = s.coin(), same = s.coin(1, 4); vector<Out> v(n); vector<int> order; for (int i = 0; i < n; i++) { v[i].skip = s.coin(1, 5); if (!v[i].skip) { v[i].out = chunk(s); v[i].err = chunk(s); } order.push_back(i); }
  for (int i = n; i > 1; i--) swap(order[i - 1], order[i - 1 - s.below(i)]); int lost = s.coin(1, 5) && n ? (int)s.below(n) : -1;
  s.log << "write order " << pbt::show(order) << " buffer " << buffer << " same stream " << same << " never written " << lost << "\n"; s.sync();
  Buf bo, be; ostream so(&bo), se(&be); OutputCollector oc(&so, same ? &so : &se, buffer); set<int> seen; bool ooo = false;
  for (int id : order) { if (id == lost) continue; if (v[id].skip) oc.Skip(id); else oc.Write(id, v[id].out, v[id].err); seen.insert(id);
    string wo, we; int k = 0; while (seen.count(k)) { wo += v[k].out; (same ? wo : we) += v[k].err; k++; } if (k <= id) ooo = true;
    CHECK_EQ(bo.s, wo, "output after writing " << id); CHECK_EQ(be.s, we, "error output after writing " << id);
    if (!buffer) { CHECK_EQ(bo.flushed, wo.size(), "flushed output after writing " << id << " unbuffered"); CHECK_EQ(be.flushed, we.size(), "flushed error output after writing " << id << " unbuffered"); } }
  oc.Flush(); CHECK_EQ(bo.flushed, bo.s.size(), "output after Flush"); CHECK_EQ(be.flushed, be.s.size(), "error output after Flush");
  s.nontrivial(ooo && n >= 3);
}
PROP(collector_threads, 4000, 60000) {
  int n = s.size(1, 60), nt = s.range(2, 6), rounds = s.range(1, 6); vector<Out> v(n); vector<vector<int> > w(nt); vector<int> us; for (int i = 0; i < n; i++) { v[i].skip = s.coin(1, 6); if (!v[i].skip) { v[i].out = to_string(i) + "\n"; v[i].err = "e" + to_string(i) + "\n"; } w[s.below(nt)].push_back(i); us.push_back(s.coin(1, 6) ? (int)s.range(1, 40) : -1); }
  for (auto& x : w) if (s.coin()) for (size_t i = x.size(); i > 1; i--) swap(x[i - 1], x[i - 1 - s.below(i)]); bool buffer = s.coin();
  s.log << n << " outputs over " << nt << " threads " << pbt::show(w) << " x" << rounds << "\n"; s.sync(); string wo, we; for (auto& x : v) wo += x.out, we += x.err;
  for (int r = 0; r < rounds; r++) limited([=]() { Buf bo, be; ostream so(&bo), se(&be); OutputCollector oc(&so, &se, buffer); atomic<int> ready(0); vector<thread> th; for (int t = 0; t < nt; t++) th.push_back(thread([&, t] { ready++; while (ready < nt) this_thread::yield(); for (int i : w[t]) { nap(us[i]); if (v[i].skip) oc.Skip(i); else oc.Write(i, v[i].out, v[i].err); } })); for (auto& t : th) t.join();
    CHECK_EQ(bo.s, wo, "output once all threads are done"); CHECK_EQ(be.s, we, "error output once all threads are done"); }, "an output collector");
  s.nontrivial(n >= 6);
}
// As the programs use them: tasks in a pool writing through a collector.
PROP(pool_and_collector, 4000, 40000) {
  int nthr = s.range(1, 6), limit = s.coin() ? nthr * 5 : (int)s.range(0, 3), n = s.size(0, 50); vector<int> us; vector<Out> v(n); for (int i = 0; i < n; i++) { us.push_back(s.coin(1, 3) ? (int)s.range(1, 300) : -1); v[i].skip = s.coin(1, 8); if (!v[i].skip) { v[i].out = to_string(i) + " ||| " + chunk(s); v[i].err = "." + to_string(i); } }
  s.log << nthr << " threads, queue limit " << limit << ", " << n << " tasks, delays " << pbt::show(us) << "\n"; s.sync();
  limited([=]() { unique_ptr<Rec[]> rec(new Rec[n ? n : 1]); Buf bo, be; ostream so(&bo), se(&be); OutputCollector oc(&so, &se, true); ThreadPool pool(nthr, limit);
    for (int i = 0; i < n; i++) { JobBase* j = new JobBase(rec[i], us[i]); j->oc = &oc; j->id = i; j->skip = v[i].skip; j->out = v[i].out; j->err = v[i].err; pool.Submit(j); } pool.Stop(true); oc.Flush();
    string wo, we; for (auto& x : v) wo += x.out, we += x.err; CHECK_EQ(bo.s, wo, "collected output"); CHECK_EQ(be.s, we, "collected error output"); }, "a pool with a collector");
  s.nontrivial(n >= 5 && nthr >= 2);
}
PBT_MAIN("h_pool")
