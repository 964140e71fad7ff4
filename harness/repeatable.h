// Driver of C29, included by C28_threads.cpp (part 0) after its jobs.
// Compiled with -finstrument-functions: every entry and exit of a function overwrites the dead stack below it; every
// allocation is overwritten as well. What they are overwritten with must not show in any result.
#include <fenv.h>
#include <locale.h>
#include <sys/wait.h>

#define NOHOOK __attribute__((no_instrument_function, noinline))
static volatile unsigned char gPattern = 0;
static volatile int gVary = 0;  // another byte at every call and allocation
static volatile uint32_t gState = 1;
static volatile int gNoise = 0;
static volatile uint64_t gStackFills = 0, gHeapFills = 0;

extern "C" {
NOHOOK static void vary() {
  gState = gState * 1664525u + 1013904223u;
  gPattern = (unsigned char)(gState >> 24);
}
NOHOOK static void fillStack() {
  if (gVary) vary();
  char dead[3072];
  memset(dead, gPattern, sizeof dead);
  asm volatile("" : : "r"(dead) : "memory");
}
NOHOOK void __cyg_profile_func_enter(void*, void*) {
  if (gNoise) {
    fillStack();
    gStackFills = gStackFills + 1;
  }
}
NOHOOK void __cyg_profile_func_exit(void*, void*) {
  if (gNoise) fillStack();
}
void* __real_malloc(size_t n);
NOHOOK void* __wrap_malloc(size_t n) {
  void* p = __real_malloc(n);
  if (gNoise && p && n <= (1u << 20)) {
    if (gVary) vary();
    memset(p, gPattern, n);
    gHeapFills = gHeapFills + 1;
  }
  return p;
}
}
NOHOOK void* operator new(size_t n) {
  void* p = __wrap_malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
NOHOOK void* operator new[](size_t n) { return operator new(n); }
NOHOOK void operator delete(void* p) noexcept { free(p); }
NOHOOK void operator delete[](void* p) noexcept { free(p); }
NOHOOK void operator delete(void* p, size_t) noexcept { free(p); }
NOHOOK void operator delete[](void* p, size_t) noexcept { free(p); }

NOHOOK static void fillDeep() {
  char dead[200000];
  memset(dead, gPattern, sizeof dead);
  asm volatile("" : : "r"(dead) : "memory");
}
static uint64_t runJob(int j, uint64_t seed, int pattern) {
  if (pattern >= 0) {
    gPattern = (unsigned char)pattern;
    gVary = pattern > 255;
    if (gVary) gState = (uint32_t)seed ^ (uint32_t)(gStackFills * 2654435761u);
    gNoise = 1;
    fillDeep();
  }
  uint64_t h;
  try {
    h = jobs()[j].run(seed);
  } catch (...) {
    gNoise = 0;
    throw;
  }
  gNoise = 0;
  return h;
}

static void ready() {
  if (!jobs().empty()) return;
  tzset();
  registerCommon();
  registerGeometry();
  registerBoxes();
  registerAligner();
  Rng r(99);
  buildShared(r);
}

// A process that has done nothing else but forking: every request is answered by a child of its own.
struct Pristine {
  int to[2], from[2];
  pid_t pid;
  Pristine() {
    if (pipe(to) || pipe(from)) throw HarnessError("pipe failed");
    fflush(nullptr);
    pid = fork();
    if (pid < 0) throw HarnessError("fork failed");
    if (pid == 0) {
      ctx().sh = &ctx().local;
      struct itimerval tv;
      memset(&tv, 0, sizeof tv);
      setitimer(ITIMER_PROF, &tv, nullptr);
      close(to[1]);
      close(from[0]);
      uint64_t q[2];
      while (read(to[0], q, sizeof q) == (ssize_t)sizeof q) {
        pid_t c = fork();
        if (c == 0) {
          uint64_t a[2] = {1, 0};
          try {
            a[1] = runJob((int)q[0], q[1], -1);
            a[0] = 0;
          } catch (...) {
          }
          if (write(from[1], a, sizeof a) != (ssize_t)sizeof a) _exit(2);
          _exit(0);
        }
        int st = 0;
        waitpid(c, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) {
          uint64_t a[2] = {2, 0};
          if (write(from[1], a, sizeof a) != (ssize_t)sizeof a) _exit(2);
        }
      }
      _exit(0);
    }
    close(to[0]);
    close(from[1]);
  }
  uint64_t ask(int j, uint64_t seed) {
    uint64_t q[2] = {(uint64_t)j, seed}, a[2];
    if (write(to[1], q, sizeof q) != (ssize_t)sizeof q || read(from[0], a, sizeof a) != (ssize_t)sizeof a) throw HarnessError("no answer of the reference process");
    CHECK(a[0] == 0, "first", "'", jobs()[j].name, "' ", a[0] == 1 ? "throws" : "ends the process", " as the first operation of a process");
    return a[1];
  }
  ~Pristine() {
    close(to[1]);
    close(from[0]);
    int st;
    waitpid(pid, &st, 0);
  }
};

static std::string processState() {
  std::ostringstream o;
  char cwd[4096];
  const char* d = getcwd(cwd, sizeof cwd);
  for (std::ostream* s : {&std::cout, &std::cerr}) o << (int)s->flags() << "," << s->precision() << "," << (int)s->fill() << "," << s->width() << "," << s->getloc().name() << ";";
  o << "locale " << setlocale(LC_ALL, nullptr) << " " << std::locale().name() << " rounding " << fegetround() << " directory " << (d ? d : "?") << " environment ";
  uint64_t h = 0;
  for (char** e = environ; *e; ++e) h = comb(h, hashStr(*e));
  o << h;
  return o.str();
}

const char* vmon_property() { return "C29"; }
static bool memcheck() { return getenv("VMON_MEMCHECK") != nullptr; }  // run by run.py under valgrind
uint64_t vmon_cases(bool thorough) { return memcheck() ? (thorough ? 3200 : 640) : thorough ? 60000 : 3200; }

void vmon_case(uint64_t idx, Rng& r) {
  static const bool once = (ready(), true);
  (void)once;
  const int N = (int)jobs().size();
  int j = (int)((idx / 8) % N);  // shards take consecutive indices
  if (memcheck()) {
    op(jobs()[j].name);
    uint64_t h = runJob(j, r.next(), -1);
    CHECK(h != 0x1234567890abcdefULL, "digest", "an impossible digest");  // a branch on the digest: memcheck follows uninitialised values into it
    count("operations under memcheck");
    sig(comb(0x29c, comb((uint64_t)j, idx / 8 / N)));
    return;
  }
  static Pristine pristine;
  require("results compared", 4000);
  require("operations under memcheck", 300);
  uint64_t seed = r.next();
  op(jobs()[j].name);
  uint64_t want = pristine.ask(j, seed);
  // the user's own formats are kept, too
  for (std::ostream* o : {&std::cout, &std::cerr}) {
    o->flags((o == &std::cerr ? std::ios::unitbuf : std::ios::fmtflags()) | (r.chance(0.5) ? std::ios::dec | std::ios::skipws : r.pick(std::vector<std::ios::fmtflags>{std::ios::hex | std::ios::showbase, std::ios::dec | std::ios::fixed, std::ios::dec | std::ios::scientific | std::ios::boolalpha})));
    o->precision(r.chance(0.5) ? 6 : r.range(1, 17));
    o->fill(r.chance(0.8) ? ' ' : '*');
  }
  std::string state = processState();
  std::string history;
  uint64_t fills = gStackFills + gHeapFills;
  for (int k = 0; k < 4; ++k) {
    int n = (int)r.below(4);
    for (int i = 0; i < n; ++i) {
      int o = r.chance(0.4) ? j : (int)r.below(N);  // often the same operation with other arguments
      op(jobs()[o].name);
      runJob(o, r.next(), r.chance(0.5) ? (int)r.below(256) : -1);
      history += cat(" '", jobs()[o].name, "'");
      count("operations before");
    }
    static const int patterns[] = {0x00, 0xff, 0x5a, 0x01, 0x7f, 0x80, 0x3f, 0xbf};
    int pat = r.chance(0.1) ? -1 : r.chance(0.3) ? 256 : patterns[r.below(8)];
    op(jobs()[j].name);
    uint64_t got = runJob(j, seed, pat);
    CHECK(got == want, "repeat", "'", jobs()[j].name, "' gives other results than as the only operation of a process, after", history.empty() ? std::string(" nothing else") : history, ", unused memory holding ", pat);
    count("results compared");
    sig(comb(comb(0xC29, (uint64_t)j), comb((uint64_t)(pat + 1), hashStr(history) % 97)));
  }
  CHECK(processState() == state, "process", "after '", jobs()[j].name, "' and", history, ": process state ", processState(), " was ", state);
  count("stack and heap overwrites", (gStackFills + gHeapFills - fills) / 1000);
  if (wantSample()) sample(cat("'", jobs()[j].name, "' after", history, ", ", N, " operations"));
}
