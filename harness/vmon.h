// Monitoring framework shared by every harness.
//
// A harness defines
//     const char*  vmon_property();                      e.g. "C01"
//     uint64_t     vmon_cases(bool thorough);            number of cases of the tier
//     void         vmon_case(uint64_t idx, vmon::Rng&);  runs one case: drives the real code, checks it with an oracle
// and this header provides main(), the case loop, the watchdogs and the result log.
//
// Every case is a function of (VERIF_SEED, property, case index) only.
#ifndef VMON_H_
#define VMON_H_
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <exception>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

const char* vmon_property();
uint64_t vmon_cases(bool thorough);

namespace vmon {

inline uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline uint64_t hashStr(const std::string& s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
  return mix(h);
}
inline uint64_t comb(uint64_t a, uint64_t b) { return mix(a ^ (b + 0x9e3779b97f4a7c15ULL + (a << 6) + (a >> 2))); }

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 0) : s(mix(seed)) {}
  uint64_t next() {
    s += 0x9e3779b97f4a7c15ULL;
    return mix(s);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }  // inclusive
  double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * unit(); }
  bool chance(double p) { return unit() < p; }
  double gauss() {
    double u = unit(), v = unit();
    if (u < 1e-300) u = 1e-300;
    return std::sqrt(-2.0 * std::log(u)) * std::cos(6.283185307179586 * v);
  }
  template <typename V>
  void shuffle(V& v) {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]);
  }
  template <typename V>
  typename V::const_reference pick(const V& v) {
    return v[below(v.size())];
  }
};

// Thrown by check() out of the case (never through the code under test unless it calls back into the harness).
struct Violation : std::exception {
  std::string key, msg;
  Violation(std::string k, std::string m) : key(std::move(k)), msg(std::move(m)) {}
  const char* what() const noexcept override { return msg.c_str(); }
};
// The harness itself is broken or the oracle could not decide: never counted as a violation.
struct HarnessError : std::exception {
  std::string msg;
  explicit HarnessError(std::string m) : msg(std::move(m)) {}
  const char* what() const noexcept override { return msg.c_str(); }
};

struct Shared {  // survives an abort of the process: lets the runner name the case and the operation
  volatile uint64_t caseIdx;
  volatile uint64_t ops;
  volatile int state;  // 0 idle, 1 in case, 2 done, 3 hang
  char op[200];
};

struct Ctx {
  uint64_t seed = 1;
  bool thorough = false;
  bool replay = false;
  std::map<std::string, uint64_t> counters;
  std::map<std::string, double> maxima;
  std::map<std::string, uint64_t> required;
  std::unordered_set<uint64_t> sigs;
  std::vector<std::string> samples;
  uint64_t casesRun = 0;
  uint64_t checks = 0;
  uint64_t nontrivial = 0;
  Shared* sh = nullptr;
  Shared local;
};
inline Ctx& ctx() {
  static Ctx c;
  return c;
}

inline void count(const std::string& k, uint64_t n = 1) { ctx().counters[k] += n; }
inline void maximum(const std::string& k, double v) {
  auto it = ctx().maxima.find(k);
  if (it == ctx().maxima.end())
    ctx().maxima[k] = v;
  else if (v > it->second)
    it->second = v;
}
// total over the run below which the run is inconclusive (nothing was observed)
inline void require(const std::string& k, uint64_t n) { ctx().required[k] = n; }
inline void sig(uint64_t h) {  // one distinct, non-trivial case
  ctx().nontrivial++;
  if (ctx().sigs.size() < 400000) ctx().sigs.insert(h);
}
inline void sig(const std::string& s) { sig(hashStr(s)); }
inline void sample(const std::string& s) {
  if (ctx().samples.size() < 2) ctx().samples.push_back(s.substr(0, 400));
}
inline bool wantSample() { return ctx().samples.size() < 2; }
inline void op(const char* name) {  // names the operation under way, for reports on aborts
  Shared* s = ctx().sh;
  strncpy(s->op, name, sizeof(s->op) - 1);
  s->ops = s->ops + 1;
}
inline void op(const std::string& name) { op(name.c_str()); }

template <typename... A>
std::string cat(const A&... a) {
  std::ostringstream o;
  o << std::setprecision(17);
  using expand = int[];
  (void)expand{0, ((void)(o << a), 0)...};
  return o.str();
}
template <typename V>
std::string show(const V& v, size_t maxn = 40) {
  std::ostringstream o;
  o << std::setprecision(9) << "[";
  size_t i = 0;
  for (auto& x : v) {
    if (i) o << ",";
    if (i >= maxn) {
      o << "...(" << v.size() << ")";
      break;
    }
    o << +x;
    ++i;
  }
  o << "]";
  return o.str();
}

template <typename... A>
[[noreturn]] void fail(const std::string& key, const A&... a) {
  throw Violation(key, cat(a...));
}
#define CHECK(cond, key, ...)                      \
  do {                                             \
    ::vmon::ctx().checks++;                        \
    if (!(cond)) ::vmon::fail(key, __VA_ARGS__);   \
  } while (0)

inline void onHang(int) {
  Ctx& c = ctx();
  c.sh->state = 3;
  _exit(97);
}

// Runs fn in a forked child (for calls that are expected to terminate the process); returns the wait status.
// The child's exit code is fn's return value (0..100) when it returns.
inline int inChild(const std::function<int()>& fn) {
  fflush(nullptr);
  pid_t p = fork();
  if (p < 0) throw HarnessError("fork failed");
  if (p == 0) {
    ctx().sh = &ctx().local;  // the child must not overwrite the progress record of its parent
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1);
    dup2(fd, 2);
    struct itimerval tv;
    memset(&tv, 0, sizeof tv);
    setitimer(ITIMER_PROF, &tv, nullptr);
    int rc = 101;
    try {
      rc = fn();
    } catch (const std::exception&) {
      rc = 102;
    } catch (...) {
      rc = 103;
    }
    _exit(rc);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0) {
  }
  return st;
}

struct NullBuf : std::streambuf {
  int overflow(int c) override { return c; }
  std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};
}  // namespace vmon

void vmon_case(uint64_t idx, vmon::Rng& rng);

#ifndef VMON_NO_MAIN
#ifndef VMON_CASE_CPU_LIMIT
#define VMON_CASE_CPU_LIMIT 60
#endif

int main(int argc, char** argv) {
  using namespace vmon;
  Ctx& c = ctx();
  std::string out, prog;
  uint64_t shard = 0, nshards = 1, start = 0, limit = 0;
  long long only = -1;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed") c.seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--tier") c.thorough = val() == "thorough";
    else if (a == "--shard") shard = strtoull(val().c_str(), 0, 10);
    else if (a == "--nshards") nshards = strtoull(val().c_str(), 0, 10);
    else if (a == "--start") start = strtoull(val().c_str(), 0, 10);
    else if (a == "--limit") limit = strtoull(val().c_str(), 0, 10);
    else if (a == "--out") out = val();
    else if (a == "--progress") prog = val();
    else if (a == "--only-case") only = atoll(val().c_str());
  }
  c.replay = only >= 0;
  if (out.empty() || prog.empty()) return 98;
  int fd = open(prog.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) return 98;
  void* m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (m == MAP_FAILED) return 98;
  c.sh = (Shared*)m;
  NullBuf nb;
  auto* ob = std::cout.rdbuf(&nb);
  auto* eb = std::cerr.rdbuf(&nb);
  signal(SIGPROF, onHang);

  uint64_t total = vmon_cases(c.thorough);
  if (limit) total = std::min(total, limit);
  std::vector<std::string> viol;
  std::string harnessErr;
  for (uint64_t idx = 0; idx < total; ++idx) {
    if (only >= 0) {
      if (idx != (uint64_t)only) continue;
    } else if (idx % nshards != shard || idx < start) {
      continue;
    }
    c.sh->caseIdx = idx;
    c.sh->state = 1;
    op("case");
    struct itimerval tv;
    memset(&tv, 0, sizeof tv);
    tv.it_value.tv_sec = VMON_CASE_CPU_LIMIT;
    setitimer(ITIMER_PROF, &tv, nullptr);
    const clock_t cpu0 = clock();
    Rng rng(comb(comb(c.seed, hashStr(vmon_property())), idx));
    try {
      vmon_case(idx, rng);
    } catch (const Violation& v) {
      viol.push_back(cat(idx, "\t", v.key, "\t", v.msg));
    } catch (const HarnessError& e) {
      harnessErr = cat("case ", idx, ": ", e.msg);
      break;
    } catch (const std::exception& e) {
      viol.push_back(cat(idx, "\t", "exception\t", "unexpected exception during ", c.sh->op, ": ", e.what()));
    } catch (...) {
      viol.push_back(cat(idx, "\t", "exception\t", "unexpected non-std exception during ", c.sh->op));
    }
    maximum("case_cpu_s", (double)(clock() - cpu0) / CLOCKS_PER_SEC);  // margin to the hang limit
    c.casesRun++;
    c.sh->state = 0;
    if (viol.size() >= 20) break;
  }
  struct itimerval tv;
  memset(&tv, 0, sizeof tv);
  setitimer(ITIMER_PROF, &tv, nullptr);
  std::cout.rdbuf(ob);
  std::cerr.rdbuf(eb);
  FILE* f = fopen(out.c_str(), "w");
  if (!f) return 98;
  auto clean = [](std::string s) {
    for (auto& ch : s)
      if (ch == '\n' || ch == '\r') ch = ' ';
    return s.substr(0, 3000);
  };
  c.counters["checks"] = c.checks;
  for (auto& v : viol) fprintf(f, "V\t%s\n", clean(v).c_str());
  if (!harnessErr.empty()) fprintf(f, "E\t%s\n", clean(harnessErr).c_str());
  for (auto& k : c.counters) fprintf(f, "C\t%s\t%llu\n", k.first.c_str(), (unsigned long long)k.second);
  for (auto& k : c.maxima) fprintf(f, "M\t%s\t%.9g\n", k.first.c_str(), k.second);
  for (auto& k : c.required) fprintf(f, "R\t%s\t%llu\n", k.first.c_str(), (unsigned long long)k.second);
  for (auto& s : c.samples) fprintf(f, "S\t%s\n", clean(s).c_str());
  for (auto& s : c.sigs) fprintf(f, "G\t%llx\n", (unsigned long long)s);
  fprintf(f, "N\t%llu\t%llu\n", (unsigned long long)c.casesRun, (unsigned long long)c.nontrivial);
  fprintf(f, "DONE\n");
  fclose(f);
  c.sh->state = 2;
  fflush(nullptr);
  _exit(0);
}
#endif  // VMON_NO_MAIN
#endif
