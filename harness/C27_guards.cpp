// C27: calls outside the checked preconditions stop the call (process termination or exception) without undefined behaviour;
// the neighbouring valid calls return normally.  Every call runs in a forked child.
#include "vmon.h"

#include <deque>

#if VPART == 0
#include <rofl/common/functions.h>
#include <rofl/common/interval_indices.h>
#include <rofl/common/min_max_heap.h>
#include <rofl/common/peak_finder_d.h>
#include <rofl/common/tls_scalar_consensus.h>
#else
#include <rofl/geometry/hough_line_detector.h>
#include <rofl/geometry/hough_plane_detector.h>
#endif

using namespace vmon;

#if VPART == 0
// A checked container access out of range is undefined behaviour found by instrumentation, not a refusal of the library.
namespace std {
void __glibcxx_assert_fail(const char*, int, const char*, const char*) noexcept { _exit(77); }
}
#endif

// outcome of fn in a child: 0 returned, 1 stopped (exit with a failure status, abort, exception), 2 undefined behaviour or crash
template <typename F>
static int outcome(F fn, std::string& how) {
  int st = inChild([&]() {
    fn();
    return 0;
  });
  if (WIFEXITED(st)) {
    int c = WEXITSTATUS(st);
    how = cat("exit status ", c);
    if (c == 0) {
      how = "it returned";
      return 0;
    }
    if (c == 77 || c == 66 || c == 101) return 2;  // sanitizer report
    return 1;
  }
  how = cat("signal ", WTERMSIG(st));
  return WTERMSIG(st) == SIGABRT ? 1 : 2;
}
template <typename F>
static void stops(const char* what, const std::string& args, F fn) {
  op(what);
  std::string how;
  int o = outcome(fn, how);
  CHECK(o == 1, o == 0 ? "returned" : "crash", what, " ", args, ": must be refused, but ", how);
  count(cat("refused: ", what));
  count("calls refused");
  sig(cat(what, args));
}
template <typename F>
static void works(const char* what, const std::string& args, F fn) {
  op(what);
  std::string how;
  int o = outcome(fn, how);
  CHECK(o == 0, "refused", what, " ", args, ": is a valid call, but ", how);
  count("valid neighbours accepted");
}
void geometryCase(uint64_t k, Rng& r);

#if VPART == 0
static volatile double sink;

template <typename H>
static void heapCase(Rng& r, const char* kind) {
  // emptied by a history, so that stale items may lie around
  int n = (int)r.range(0, 12);
  std::vector<int> v(n);
  for (auto& x : v) x = (int)r.range(-50, 50);
  uint64_t bits = r.next();
  int which = (int)r.below(6);
  auto fill = [&](H& h) {
    for (int x : v) h.push(x);
    for (int i = 0; i < n; ++i) (bits >> i & 1) ? h.popTop() : h.popBottom();
    if (!h.empty() || h.size() != 0) _exit(0);
  };
  auto act = [&](H& h) {
    switch (which) {
      case 0: sink = h.top(); break;
      case 1: sink = h.bottom(); break;
      case 2: h.popTop(); break;
      case 3: h.popBottom(); break;
      case 4: sink = h.nextTop(); break;
      default: sink = h.nextBottom(); break;
    }
  };
  static const char* names[] = {"top of an empty heap", "bottom of an empty heap", "popTop of an empty heap", "popBottom of an empty heap", "nextTop of an empty heap", "nextBottom of an empty heap"};
  std::string args = cat("(", kind, " emptied after ", n, " items ", show(v), ")");
  stops(names[which], args, [&] { H h; fill(h); act(h); });
  works(names[which], "with one item", [&] { H h; fill(h); h.push(3); act(h); });
}

template <size_t D>
static void peakCase(Rng& r) {
  typedef rofl::PeakFinderD<D, int, int, std::greater<int>> PF;
  typename PF::Indices dims, win;
  for (size_t d = 0; d < D; ++d) dims[d] = (int)r.range(1, 4), win[d] = (int)r.range(0, 3);
  auto good = dims;
  dims[r.below(D)] = r.chance(0.7) ? 0 : -(int)r.range(1, 3);
  auto go = [&](const typename PF::Indices& dd) {
    PF pf;
    pf.setDomain(dd);
    pf.setPeakWindow(win);
    std::vector<typename PF::Indices> out;
    pf.detect([](const typename PF::Indices& i) { return i[0] * 3 % 7; }, std::back_inserter(out));
  };
  stops("peaks of an empty domain", cat("(sides ", show(dims), ")"), [&] { go(dims); });
  works("peaks of a domain", cat("(sides ", show(good), ")"), [&] { go(good); });
}

const char* vmon_property() { return "C27"; }
uint64_t vmon_cases(bool thorough) { return thorough ? 12000 : 1600; }

void vmon_case(uint64_t idx, Rng& r) {
  require("calls refused", 200);
  require("valid neighbours accepted", 200);
  switch (idx % 8) {
    case 0: heapCase<rofl::MinMaxHeap<int>>(r, "vector heap"); break;
    case 1: heapCase<rofl::MinMaxHeap<int, std::greater<int>, std::deque>>(r, "deque heap"); break;
    case 2:
      if (r.chance(0.5)) peakCase<2>(r);
      else r.chance(0.5) ? peakCase<1>(r) : peakCase<3>(r);
      break;
    case 3: {
      typedef rofl::IntervalIndices<3, int> I;
      size_t d = r.chance(0.5) ? 3 : (size_t)r.range(4, 40);
      int inc = (int)r.range(-3, 3);
      typename I::Indices mn = {{1, 2, 3}}, dm = {{2, 3, 4}};
      bool st = r.chance(0.5);
      stops(st ? "stacked along a dimension that does not exist" : "translate along a dimension that does not exist", cat("(", d, ",", inc, ")"), [&] {
        I i(mn, dm);
        if (st) sink = (double)i.stacked(d, inc).size();
        else i.translate(d, inc);
      });
      works("last dimension", cat("(", inc, ")"), [&] {
        I i(mn, dm);
        if (st) sink = (double)i.stacked(2, inc).size();
        else i.translate((size_t)2, inc);
      });
      break;
    }
    case 4: {
      int n = (int)r.range(0, 8), m = (int)r.range(0, 8);
      if (n == m) m = n + 1;
      std::vector<double> v(n), g(m);
      for (auto& x : v) x = r.uni(-2, 2);
      for (auto& x : g) x = r.uni(0.1, 1);
      stops("consensus of values and ranges of different number", cat("(", n, ",", m, ")"), [&] {
        double e = 0;
        std::vector<bool> in;
        rofl::estimateTranslationTls(v, g, e, in);
      });
      if (n > 0) works("consensus", cat("(", n, ")"), [&] {
        double e = 0;
        std::vector<bool> in;
        std::vector<double> gg(n, 0.5);
        rofl::estimateTranslationTls(v, gg, e, in);
      });
      break;
    }
    case 5: {
      int n = (int)r.range(0, 12), k = r.chance(0.5) ? n + (r.chance(0.6) ? 1 : (int)r.range(2, 30)) : -(int)r.range(1, 20);
      int n0 = r.chance(0.5) ? (int)r.range(0, 30) : -1;  // an earlier initialisation
      double x = r.uni(-20, 20);
      stops("look-up table order out of range", cat("(order ", k, " of ", n, ", argument ", x, ")"), [&] {
        rofl::PnebiLUT t;
        if (n0 >= 0) t.init(n0, 0.05);
        t.init(n, 0.05);
        sink = t.eval(k, x);
      });
      works("look-up table order", cat("(order ", n, ")"), [&] {
        rofl::PnebiLUT t;
        t.init(n, 0.05);
        sink = t.eval(n, x) + t.eval(0, x);
      });
      break;
    }
    default: geometryCase(idx / 8 * 2 + idx % 8 - 6, r);
  }
  if (wantSample()) sample(cat("case ", idx, " last call ", ctx().sh->op));
}
#else
static volatile double gsink;
static int outOf(Rng& r, int n) { return r.chance(0.5) ? n + (r.chance(0.6) ? 0 : (int)r.range(1, 20)) : -(int)r.range(1, 10); }

void geometryCase(uint64_t k, Rng& r) {
  if (k % 2 == 0) {
    int nt = (int)r.range(1, 5), nr = (int)r.range(1, 6);
    const bool again = r.chance(0.5);
    int nt0 = (int)r.range(1, 12), nr0 = (int)r.range(1, 14);
    int t = (int)r.below(nt), q = (int)r.below(nr), which = (int)r.below(3), gt = t, gq = q;
    if (which == 2 || r.chance(0.5)) t = outOf(r, nt);
    else q = outOf(r, nr);
    auto go = [&](int t, int q) {
      rofl::HoughLineDetector h;
      if (again) h.init(nt0, nr0, 0.25f);  // an earlier, larger or smaller, use
      h.init(nt, nr, 0.5f);
      if (which == 0) gsink = (double)h.getHoughTransform(t, q);
      else if (which == 1) gsink = (double)h.getHoughTransform({t, q});
      else gsink = (double)h.getHoughSpectrum(t);
    };
    stops("line detector cell out of range", cat("(", which, ": ", t, ",", q, " of ", nt, "x", nr, ")"), [&] { go(t, q); });
    works("line detector cell", cat("(", which, ": ", gt, ",", gq, " of ", nt, "x", nr, ")"), [&] { go(gt, gq); });
  } else {
    int s[3] = {(int)r.range(1, 4), (int)r.range(1, 5), (int)r.range(1, 6)}, i[3], g[3], which = (int)r.below(8);
    const bool again = r.chance(0.5), viaCtor = r.chance(0.5);
    int s0[3] = {(int)r.range(1, 9), (int)r.range(1, 11), (int)r.range(1, 13)};
    for (int d = 0; d < 3; ++d) g[d] = i[d] = (int)r.below(s[d]);
    bool two = which == 2 || which == 3 || which == 4 || which == 5;
    int d = (int)r.below(two ? 2 : 3);
    i[d] = outOf(r, s[d]);
    auto go = [&](const int* i) {
      rofl::HoughPlaneDetector h;
      if (again) h.init(s0[0], s0[1], s0[2], 0.25f);
      if (again && viaCtor) h = rofl::HoughPlaneDetector(s[0], s[1], s[2], 0.5f);
      else h.init(s[0], s[1], s[2], 0.5f);
      rofl::HoughPlaneDetector::Indices3 i3 = {{i[0], i[1], i[2]}};
      rofl::HoughPlaneDetector::Indices2 i2 = {{i[0], i[1]}};
      switch (which) {
        case 0: gsink = (double)h.getHoughTransform(i[0], i[1], i[2]); break;
        case 1: gsink = (double)h.getHoughTransform(i3); break;
        case 2: gsink = (double)h.getHoughSpectrum(i[0], i[1]); break;
        case 3: gsink = (double)h.getHoughSpectrum(i2); break;
        case 4: gsink = h.getNormal(i[0], i[1])(0); break;
        case 5: gsink = h.getNormal(i2)(0); break;
        case 6: gsink = h.getPlaneParam(i3)(0); break;
        default: gsink = h.getPlaneParam(i[0], i[1], i[2])(0); break;
      }
    };
    stops("plane detector cell out of range", cat("(", which, ": ", i[0], ",", i[1], ",", i[2], " of ", s[0], "x", s[1], "x", s[2], ")"), [&] { go(i); });
    works("plane detector cell", cat("(", which, ": ", g[0], ",", g[1], ",", g[2], " of ", s[0], "x", s[1], "x", s[2], ")"), [&] { go(g); });
  }
}
#endif
