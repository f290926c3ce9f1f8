// A small property-based testing engine: choice-sequence generation, forked
// execution (a crash or hang of the code under test is a failing case, not the
// end of the run), internal shrinking and replay files.
//
// A property is a function of a choice source `S`. Every random decision is a
// draw from S; smaller draws are meant to be simpler, so shrinking the sequence
// of draws shrinks the case, whatever the generator builds out of it.
#ifndef VERIF_PBT_H
#define VERIF_PBT_H

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <algorithm>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <dirent.h>

namespace pbt {

struct Failure { std::string msg; Failure(const std::string& m) : msg(m) {} };
struct Discard {};

enum { MAXCH = 1 << 16, MSGLEN = 1 << 14 };
// Shared between a worker and its parent: survives a crash of the worker.
struct Shared {
  volatile long cur;           // case being run
  volatile uint32_t n;         // choices drawn so far in it
  volatile uint32_t failed;    // assertion failure recorded
  uint64_t ch[MAXCH];
  char msg[MSGLEN];
  char desc[MSGLEN];
};

inline uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline uint64_t hstr(const std::string& s, uint64_t h = 1469598103934665603ULL) {
  for (size_t i = 0; i < s.size(); i++) { h ^= (unsigned char)s[i]; h *= 1099511628211ULL; }
  return h;
}

class S {
 public:
  uint64_t st; Shared* sh; const std::vector<uint64_t>* rep; size_t pos;
  bool nt; std::vector<std::string> labels; std::ostringstream log; uint64_t h;
  const std::set<std::string>* known; std::vector<std::string> hit_known;
  bool thorough;
  S() : st(0), sh(0), rep(0), pos(0), nt(false), h(0), known(0), thorough(false) {}
  // uniform in [0, n)
  uint64_t below(uint64_t n) {
    if (n <= 1) return 0;
    uint64_t v;
    if (rep) { v = pos < rep->size() ? (*rep)[pos] : 0; if (v >= n) v %= n; }
    else { st += 0x9e3779b97f4a7c15ULL; v = mix(st) % n; }
    pos++;
    h = mix(h ^ (v + 0x1234567));
    if (sh) { uint32_t k = sh->n; if (k < MAXCH) { sh->ch[k] = v; } else throw Discard(); sh->n = k + 1; }
    return v;
  }
  long range(long lo, long hi) { return lo + (long)below((uint64_t)(hi - lo + 1)); }   // inclusive
  bool coin(int num = 1, int den = 2) { return below(den) >= (uint64_t)(den - num); }  // 0 -> false
  // a size, biased to small values but reaching hi
  int size(int lo, int hi) {
    if (hi <= lo) return lo;
    if (coin(1, 2)) return (int)range(lo, hi);
    return (int)range(lo, std::min(hi, lo + 3));
  }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  // quarter-integer in [-r, r]; 0 is simplest
  double quarter(int r) { long k = (long)below(8 * r + 1); long m = (k + 1) / 2; return k == 0 ? 0.0 : (k % 2 ? m : -m) / 4.0; }
  double real(double r) {  // irregular reals in [-r, r]
    uint64_t k = below(2000001); double m = ((k + 1) / 2) / 1000000.0 * r; return k == 0 ? 0.0 : k % 2 ? m : -m;
  }
  void label(const std::string& l) { labels.push_back(l); }
  // Publish the description so far: it survives a crash of the code under test.
  void sync();
  void nontrivial(bool b = true) { if (b) nt = true; }
  // A listed known finding was hit: counted and excluded. Not listed: a failure.
  void finding(const std::string& id, const std::string& what) {
    if (known && known->count(id)) { hit_known.push_back(id); throw Discard(); }
    throw Failure("[" + id + "] " + what);
  }
};

struct Prop { const char* name; void (*fn)(S&); long quick, thorough; };
inline std::vector<Prop>& props() { static std::vector<Prop> p; return p; }
struct Reg { Reg(const char* n, void (*f)(S&), long q, long t) { Prop p = {n, f, q, t}; props().push_back(p); } };
#define PROP(name, quick, thorough) \
  static void prop_##name(pbt::S& s); static pbt::Reg reg_##name(#name, prop_##name, quick, thorough); \
  static void prop_##name(pbt::S& s)

#define FAIL(x) do { std::ostringstream os_; os_ << x; throw pbt::Failure(os_.str()); } while (0)
#define CHECK(c, x) do { if (!(c)) { std::ostringstream os_; os_ << #c << ": " << x; throw pbt::Failure(os_.str()); } } while (0)
#define CHECK_EQ(a, b, x) do { auto a_ = (a); auto b_ = (b); if (!(a_ == b_)) { std::ostringstream os_; \
  os_ << #a << " = " << pbt::show(a_) << ", expected " << pbt::show(b_) << " " << x; throw pbt::Failure(os_.str()); } } while (0)
#define CHECK_NEAR(a, b, t, x) do { double a_ = (a), b_ = (b); if (!pbt::near(a_, b_, t)) { std::ostringstream os_; os_.precision(12); \
  os_ << #a << " = " << a_ << ", expected " << b_ << " " << x; throw pbt::Failure(os_.str()); } } while (0)

inline bool near(double a, double b, double t) {
  if (a == b) return true;
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return false;
  return std::fabs(a - b) <= t * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
}

template <class T> std::string show(const T& t);
template <class T> std::string show(const std::vector<T>& v);
template <class T> std::string show(const std::set<T>& v);
template <class A, class B> std::string show(const std::map<A, B>& v);
template <class A, class B> std::string show(const std::pair<A, B>& p) { return "(" + show(p.first) + "," + show(p.second) + ")"; }
template <class T> std::string show(const T& t) { std::ostringstream o; o.precision(12); o << t; return o.str(); }
template <class T> std::string show(const std::vector<T>& v) { std::string r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? " " : "") + show(v[i]); return r + "]"; }
template <class T> std::string show(const std::set<T>& v) { std::string r = "{"; for (typename std::set<T>::const_iterator i = v.begin(); i != v.end(); ++i) r += (i == v.begin() ? "" : " ") + show(*i); return r + "}"; }
template <class A, class B> std::string show(const std::map<A, B>& v) { std::string r = "{"; for (typename std::map<A, B>::const_iterator i = v.begin(); i != v.end(); ++i) r += (i == v.begin() ? "" : " ") + show(i->first) + ":" + show(i->second); return r + "}"; }

inline std::string jesc(const std::string& s) {
  std::string r; char b[8];
  for (size_t i = 0; i < s.size(); i++) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}

struct Opts {
  uint64_t seed; bool thorough; std::string out, replay_dir, only, scratch; int jobs; double max_s; long scale_num, scale_den;
  std::set<std::string> known;
  int cpu_s, wall_s;
};

enum Res { OK = 0, FAILED = 1, DISCARDED = 2 };

inline void copy_str(char* dst, const std::string& s) { size_t n = std::min(s.size(), (size_t)MSGLEN - 1); memcpy(dst, s.data(), n); dst[n] = 0; }

inline void S::sync() { if (sh) copy_str(sh->desc, log.str()); }

inline void cpu_limit(int s) { struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = s; setitimer(ITIMER_PROF, &t, 0); }

// The scratch directory of the running case; created on demand, removed by the parent.
inline std::string& scratch_base() { static std::string s; return s; }
inline std::string scratch() { std::string d = scratch_base() + "/w" + std::to_string((long)getpid()); mkdir(d.c_str(), 0700); return d; }
inline void rm_tree(const std::string& d) {
  DIR* p = opendir(d.c_str()); if (!p) return;
  while (struct dirent* e = readdir(p)) { std::string n = e->d_name; if (n == "." || n == "..") continue; unlink((d + "/" + n).c_str()); }
  closedir(p); rmdir(d.c_str());
}
inline void rm_scratch(pid_t pid) { rm_tree(scratch_base() + "/w" + std::to_string((long)pid)); }
inline void spew(const std::string& path, const std::string& data) { std::ofstream o(path.c_str(), std::ios::binary); o << data; }

inline Res run_case(const Prop& p, S& s, Shared* sh, const Opts& o) {
  s.sh = sh; sh->n = 0; sh->failed = 0; sh->msg[0] = 0; sh->desc[0] = 0;
  s.known = &o.known; s.thorough = o.thorough;
  cpu_limit(o.cpu_s);
  Res r = OK; std::string msg;
  try { p.fn(s); }
  catch (Discard&) { r = DISCARDED; }
  catch (Failure& f) { r = FAILED; msg = f.msg; }
  catch (std::exception& e) { r = FAILED; msg = std::string("unexpected exception: ") + e.what(); }
  catch (...) { r = FAILED; msg = "unexpected exception (not a std::exception)"; }
  cpu_limit(0);
  if (r == FAILED) { copy_str(sh->msg, msg); copy_str(sh->desc, s.log.str()); sh->failed = 1; }
  return r;
}

inline uint64_t case_seed(const Opts& o, const Prop& p, long i) { return mix(mix(o.seed * 2654435761ULL ^ hstr(p.name)) ^ mix((uint64_t)i + 77)); }

inline void quiet() { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2); close(fd); int r = open("/dev/null", O_RDONLY); dup2(r, 0); close(r); }

inline Shared* new_shared() {
  void* m = mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED) { perror("mmap"); exit(3); }
  return (Shared*)m;
}

struct Stat { long evals, nontriv, discards; std::set<uint64_t> distinct; std::map<std::string, long> labels; std::map<std::string, long> known; std::vector<std::string> samples;
  Stat() : evals(0), nontriv(0), discards(0) {} };

inline std::string status_text(int st) {
  if (WIFSIGNALED(st)) { int g = WTERMSIG(st); if (g == SIGPROF) return "did not terminate within the CPU limit"; if (g == SIGKILL) return "stopped making progress (hang)"; return std::string("crash: signal ") + strsignal(g); }
  return "process ended with status " + std::to_string(WEXITSTATUS(st)) + " (sanitizer report, abort or exit() in the code under test)";
}

// Wait for pid, killing it when the shared progress counter stands still for o.wall_s seconds.
inline int wait_progress(pid_t pid, Shared* sh, const Opts& o) {
  int st; long last = -1; uint32_t lastn = 0; double idle = 0; useconds_t nap = 200;
  for (;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) return st;
    usleep(nap); idle += nap / 1e6; if (nap < 20000) nap *= 2;
    if (sh->cur != last || sh->n != lastn) { last = sh->cur; lastn = sh->n; idle = 0; }
    if (idle > o.wall_s) { kill(pid, SIGKILL); waitpid(pid, &st, 0); return st; }
  }
}

// Run one choice sequence (after the given prefix of seeded cases) in a fresh process.
// Returns FAILED/OK; fills msg, desc and the choices actually drawn.
inline Res run_forked(const Prop& p, const std::vector<long>& prefix, const std::vector<uint64_t>& ch, const Opts& o, std::string* msg, std::string* desc,
                      std::vector<uint64_t>* used, bool loud = false) {
  static Shared* sh = new_shared();
  sh->cur = 0; sh->n = 0; sh->failed = 0; sh->msg[0] = sh->desc[0] = 0;
  pid_t pid = fork();
  if (pid == 0) {
    if (!loud) quiet();
    for (size_t i = 0; i < prefix.size(); i++) { S s; s.st = case_seed(o, p, prefix[i]); Shared* tmp = sh; run_case(p, s, tmp, o); }
    S s; s.rep = &ch;
    Res r = run_case(p, s, sh, o);
    _exit(r == FAILED ? 1 : 0);
  }
  int st = wait_progress(pid, sh, o);
  rm_scratch(pid);
  if (used) used->assign(sh->ch, sh->ch + std::min((uint32_t)MAXCH, (uint32_t)sh->n));
  if (desc) *desc = sh->desc;
  if (sh->failed) { if (msg) *msg = sh->msg; return FAILED; }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return OK;
  if (msg) *msg = status_text(st);
  return FAILED;
}

inline void write_replay(const std::string& path, const char* harness, const Prop& p, const Opts& o, const std::vector<long>& prefix, const std::vector<uint64_t>& ch,
                         const std::string& msg, const std::string& desc) {
  std::ofstream f(path.c_str());
  f << "pbt-replay 1\nharness " << harness << "\nprop " << p.name << "\nseed " << o.seed << "\nprefix " << prefix.size();
  for (size_t i = 0; i < prefix.size(); i++) f << " " << prefix[i];
  f << "\nchoices " << ch.size();
  for (size_t i = 0; i < ch.size(); i++) f << " " << ch[i];
  f << "\n--- what fails\n" << msg << "\n--- case\n" << desc << "\n";
}

inline double now() { struct timeval t; gettimeofday(&t, 0); return t.tv_sec + t.tv_usec / 1e6; }

inline std::vector<uint64_t> shrink(const Prop& p, const std::vector<long>& prefix, std::vector<uint64_t> best, const Opts& o, int budget, std::string* msg, std::string* desc) {
  double t0 = now();
  int used = 0;
  std::string m, d; std::vector<uint64_t> u;
  auto better = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) { if (a.size() != b.size()) return a.size() < b.size(); return a < b; };
  auto attempt = [&](const std::vector<uint64_t>& c) -> bool {
    if (used >= budget || now() - t0 > 40) return false;
    used++;
    if (run_forked(p, prefix, c, o, &m, &d, &u) != FAILED) return false;
    std::vector<uint64_t> nb = u.size() <= c.size() ? u : c;
    if (!better(nb, best)) return false;
    best = nb; *msg = m; *desc = d; return true;
  };
  bool progress = true;
  while (progress && used < budget) {
    progress = false;
    for (size_t k = 64; k >= 1; k /= 2)
      for (size_t i = best.size(); i-- > 0;) {
        if (i + k > best.size()) continue;
        std::vector<uint64_t> c = best; c.erase(c.begin() + i, c.begin() + i + k);
        if (attempt(c)) { progress = true; if (i > best.size()) i = best.size(); }
        else if (i > 0 && best[i - 1] > 0) {   // deleting while lowering a count just before
          c[i - 1]--; if (attempt(c)) { progress = true; if (i > best.size()) i = best.size(); }
        }
      }
    for (size_t k = 8; k >= 1; k /= 2)
      for (size_t i = 0; i + k <= best.size(); i++) {
        bool z = true; for (size_t j = 0; j < k; j++) if (best[i + j]) z = false;
        if (z) continue;
        std::vector<uint64_t> c = best; for (size_t j = 0; j < k; j++) c[i + j] = 0;
        if (attempt(c)) progress = true;
      }
    for (size_t i = 0; i < best.size(); i++) {
      uint64_t lo = 0;
      while (i < best.size() && best[i] > lo) {
        std::vector<uint64_t> c = best; uint64_t mid = lo + (best[i] - lo) / 2; c[i] = mid;
        uint64_t before = best[i];
        if (attempt(c)) { progress = true; if (i >= best.size() || best[i] >= before) break; }
        else lo = mid + 1;
        if (used >= budget) break;
      }
    }
  }
  return best;
}

inline int main_impl(int argc, char** argv, const char* harness) {
  Opts o; o.seed = 1; o.thorough = false; o.jobs = 8; o.max_s = 560; o.cpu_s = 30; o.wall_s = 90; o.scale_num = o.scale_den = 1;
  std::string replay; bool loud = false; long repeat = 1;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i], v = i + 1 < argc ? argv[i + 1] : "";
    if (a == "--seed") o.seed = strtoull(v.c_str(), 0, 10), i++;
    else if (a == "--tier") o.thorough = v == "thorough", i++;
    else if (a == "--out") o.out = v, i++;
    else if (a == "--replay-dir") o.replay_dir = v, i++;
    else if (a == "--scratch") o.scratch = v, i++;
    else if (a == "--only") o.only = v, i++;
    else if (a == "--jobs") o.jobs = atoi(v.c_str()), i++;
    else if (a == "--max-s") o.max_s = atof(v.c_str()), i++;
    else if (a == "--scale") { o.scale_num = atol(v.c_str()); size_t k = v.find('/'); if (k != std::string::npos) o.scale_den = atol(v.c_str() + k + 1); i++; }
    else if (a == "--known") { std::istringstream is(v); std::string k; while (getline(is, k, ',')) if (k != "") o.known.insert(k); i++; }
    else if (a == "--replay") replay = v, i++;
    else if (a == "--repeat") repeat = atol(v.c_str()), i++;   // replay until it fails, for failures that depend on the schedule
    else if (a == "--loud") loud = true;
    else { std::cerr << "unknown option " << a << "\n"; return 2; }
  }
  if (o.scratch == "") o.scratch = "/tmp/pbt-" + std::to_string((long)getpid());
  mkdir(o.scratch.c_str(), 0700);
  scratch_base() = o.scratch;
  if (replay != "") {
    std::ifstream f(replay.c_str()); std::string line, w, name; std::vector<long> pre; std::vector<uint64_t> ch;
    while (getline(f, line)) {
      if (line.compare(0, 3, "---") == 0) break;
      std::istringstream is(line); is >> w;
      if (w == "prop") is >> name; else if (w == "seed") is >> o.seed;
      else if (w == "prefix") { size_t n; is >> n; pre.resize(n); for (size_t i = 0; i < n; i++) is >> pre[i]; }
      else if (w == "choices") { size_t n; is >> n; ch.resize(n); for (size_t i = 0; i < n; i++) is >> ch[i]; }
    }
    for (size_t k = 0; k < props().size(); k++) if (name == props()[k].name) {
      std::string m, d; Res r;
      do { m = d = ""; r = run_forked(props()[k], pre, ch, o, &m, &d, 0, loud); } while (r != FAILED && --repeat > 0);
      rmdir(o.scratch.c_str());
      std::cout << (r == FAILED ? "FAILS: " : "passes") << (r == FAILED ? m : "") << "\n" << d << std::endl;
      return r == FAILED ? 1 : 0;
    }
    std::cerr << "no property " << name << "\n"; return 2;
  }
  double t0 = now(); bool any_fail = false, truncated = false;
  std::ostringstream js; js << "{\"harness\": \"" << harness << "\", \"props\": [";
  bool first = true;
  struct Slot { pid_t pid; int fd; long batch; Shared* sh; std::string buf; long lastcur; uint32_t lastn; double since; };
  std::vector<Slot> slots(o.jobs);
  for (size_t k = 0; k < slots.size(); k++) { slots[k].pid = 0; slots[k].sh = new_shared(); }
  for (size_t pi = 0; pi < props().size(); pi++) {
    const Prop& p = props()[pi];
    if (o.only != "" && o.only != p.name) continue;
    long total = (o.thorough ? p.thorough : p.quick) * o.scale_num / o.scale_den; if (total < 1) total = 1;
    const long B = std::max(25L, std::min(500L, total / 2000));   // cases per forked worker
    long nb = (total + B - 1) / B, next = 0; Stat stt; long failcase = -1; std::string failmsg, faildesc; std::vector<uint64_t> failch; int running = 0; double pt0 = now();
    for (;;) {
      bool stop = failcase >= 0 || now() - t0 > o.max_s;
      if (now() - t0 > o.max_s && next < nb) truncated = true;
      for (size_t k = 0; k < slots.size() && !stop && next < nb; k++) if (slots[k].pid == 0) {
        Slot& sl = slots[k]; int fd[2]; if (pipe(fd)) { perror("pipe"); return 3; }
        sl.batch = next++; sl.sh->cur = -1; sl.sh->n = 0; sl.sh->failed = 0; sl.buf.clear(); sl.lastcur = -2; sl.lastn = 0; sl.since = now();
        pid_t pid = fork();
        if (pid == 0) {
          close(fd[0]); quiet(); Stat ls; std::ostringstream outp;
          for (long i = sl.batch * B; i < std::min(total, (sl.batch + 1) * B); i++) {
            S s; s.st = case_seed(o, p, i); sl.sh->cur = i;
            Res r = run_case(p, s, sl.sh, o);
            if (r == FAILED) _exit(1);
            ls.evals++;
            for (size_t j = 0; j < s.hit_known.size(); j++) ls.known[s.hit_known[j]]++;
            if (r == DISCARDED) { ls.discards++; continue; }
            std::sort(s.labels.begin(), s.labels.end());
            s.labels.erase(std::unique(s.labels.begin(), s.labels.end()), s.labels.end());
            for (size_t j = 0; j < s.labels.size(); j++) ls.labels[s.labels[j]]++;
            if (s.nt) { ls.nontriv++; ls.distinct.insert(s.h); if (ls.samples.size() < 1 && sl.batch < 3) ls.samples.push_back(s.log.str().substr(0, 700)); }
          }
          outp << "E " << ls.evals << " " << ls.nontriv << " " << ls.discards << "\n";
          for (std::set<uint64_t>::iterator it = ls.distinct.begin(); it != ls.distinct.end(); ++it) outp << "D " << *it << "\n";
          for (std::map<std::string, long>::iterator it = ls.labels.begin(); it != ls.labels.end(); ++it) outp << "L " << it->second << " " << it->first << "\n";
          for (std::map<std::string, long>::iterator it = ls.known.begin(); it != ls.known.end(); ++it) outp << "K " << it->second << " " << it->first << "\n";
          for (size_t j = 0; j < ls.samples.size(); j++) outp << "S " << jesc(ls.samples[j]) << "\n";
          outp << "OK\n";
          std::string t = outp.str(); size_t w = 0; while (w < t.size()) { ssize_t r = write(fd[1], t.data() + w, t.size() - w); if (r <= 0) _exit(4); w += r; }
          _exit(0);
        }
        close(fd[1]); sl.pid = pid; sl.fd = fd[0]; running++;
      }
      if (!running) break;
      std::vector<struct pollfd> pf; std::vector<size_t> who;
      for (size_t k = 0; k < slots.size(); k++) if (slots[k].pid) { struct pollfd q = {slots[k].fd, POLLIN, 0}; pf.push_back(q); who.push_back(k); }
      poll(pf.data(), pf.size(), 500);
      for (size_t j = 0; j < pf.size(); j++) {
        Slot& sl = slots[who[j]];
        if (!pf[j].revents) {
          if (sl.sh->cur != sl.lastcur || sl.sh->n != sl.lastn) { sl.lastcur = sl.sh->cur; sl.lastn = sl.sh->n; sl.since = now(); }
          else if (now() - sl.since > o.wall_s) kill(sl.pid, SIGKILL);
          continue;
        }
        char b[65536]; ssize_t r = read(sl.fd, b, sizeof b);
        if (r > 0) { sl.buf.append(b, r); continue; }
        close(sl.fd); int st; waitpid(sl.pid, &st, 0); rm_scratch(sl.pid); sl.pid = 0; running--;
        bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0 && sl.buf.size() >= 3 && sl.buf.compare(sl.buf.size() - 3, 3, "OK\n") == 0;
        if (!ok) {
          long ci = sl.sh->cur;
          if (failcase < 0 || ci < failcase) {
            failcase = ci; failmsg = sl.sh->failed ? sl.sh->msg : status_text(st); faildesc = sl.sh->desc;
            failch.assign(sl.sh->ch, sl.sh->ch + std::min((uint32_t)MAXCH, (uint32_t)sl.sh->n));
          }
          continue;
        }
        std::istringstream is(sl.buf); std::string line;
        while (getline(is, line)) {
          if (line[0] == 'E') { long a, c, d; sscanf(line.c_str() + 2, "%ld %ld %ld", &a, &c, &d); stt.evals += a; stt.nontriv += c; stt.discards += d; }
          else if (line[0] == 'D') stt.distinct.insert(strtoull(line.c_str() + 2, 0, 10));
          else if (line[0] == 'L' || line[0] == 'K') { char* e; long n = strtol(line.c_str() + 2, &e, 10); (line[0] == 'L' ? stt.labels : stt.known)[e + 1] += n; }
          else if (line[0] == 'S' && stt.samples.size() < 2) stt.samples.push_back(line.substr(2));
        }
      }
    }
    std::string replay_path;
    if (failcase >= 0) {
      any_fail = true;
      std::vector<long> pre; std::string m, d;
      std::vector<uint64_t> used; bool rep = run_forked(p, pre, failch, o, &m, &d, &used) == FAILED;
      if (!rep) { for (long i = failcase / B * B; i < failcase; i++) pre.push_back(i); rep = run_forked(p, pre, failch, o, &m, &d, &used) == FAILED; }
      if (rep) { failmsg = m; faildesc = d; failch = used.size() ? used : failch;
        bool hang = failmsg.find("terminate") != std::string::npos || failmsg.find("hang") != std::string::npos;
        failch = shrink(p, pre, failch, o, hang ? 3 : pre.size() ? 200 : 1500, &failmsg, &faildesc); }
      replay_path = o.replay_dir + "/" + harness + "-" + p.name + ".replay";
      write_replay(replay_path, harness, p, o, pre, failch, failmsg, faildesc);
    }
    js << (first ? "" : ",") << "\n {\"prop\": \"" << p.name << "\", \"evals\": " << stt.evals << ", \"nontrivial\": " << stt.nontriv << ", \"distinct\": " << stt.distinct.size()
       << ", \"discards\": " << stt.discards << ", \"wall\": " << now() - pt0 << ", \"labels\": {"; first = false;
    bool f2 = true; for (std::map<std::string, long>::iterator it = stt.labels.begin(); it != stt.labels.end(); ++it) { js << (f2 ? "" : ", ") << "\"" << jesc(it->first) << "\": " << it->second; f2 = false; }
    js << "}, \"known\": {"; f2 = true; for (std::map<std::string, long>::iterator it = stt.known.begin(); it != stt.known.end(); ++it) { js << (f2 ? "" : ", ") << "\"" << jesc(it->first) << "\": " << it->second; f2 = false; }
    js << "}, \"samples\": ["; for (size_t j = 0; j < stt.samples.size(); j++) js << (j ? ", " : "") << "\"" << stt.samples[j] << "\"";
    js << "], \"failed\": " << (failcase >= 0 ? "true" : "false") << ", \"msg\": \"" << jesc(failmsg) << "\", \"replay\": \"" << jesc(replay_path) << "\"}";
    if (any_fail) break;
  }
  js << "\n], \"truncated\": " << (truncated ? "true" : "false") << ", \"wall\": " << now() - t0 << "}\n";
  if (o.out != "") { std::ofstream f(o.out.c_str()); f << js.str(); } else std::cout << js.str();
  rmdir(o.scratch.c_str());
  return any_fail ? 1 : 0;
}

}  // namespace pbt

#define PBT_MAIN(name) int main(int argc, char** argv) { return pbt::main_impl(argc, argv, name); }
#endif
