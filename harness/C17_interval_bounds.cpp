// C17: interval bounds of cosine (exact) and of Fourier series (enclosing) against the values taken on the interval.
#include "vmon.h"

#include <rofl/common/functions.h>

using namespace vmon;
static const long double PI = 3.14159265358979323846264338327950288L;

// true extremes of cos on [a,b]
static void cosRange(long double a, long double b, long double& lo, long double& hi) {
  lo = std::min(cosl(a), cosl(b));
  hi = std::max(cosl(a), cosl(b));
  long double k = ceill(a / PI);
  for (long double m = k; m * PI <= b && m < k + 3; m += 1) {
    if (fmodl(fabsl(m), 2) == 0) hi = 1; else lo = -1;
  }
}
static double edge(Rng& r) {
  switch (r.below(5)) {
    case 0: return (double)(PI / 2 * r.range(-12, 12));
    case 1: return (double)(PI / 2 * r.range(-12, 12)) + r.uni(-1e-3, 1e-3);
    case 2: return r.uni(-10, 10);
    case 3: return r.chance(0.2) ? r.uni(-1, 1) * 1e5 : r.uni(-1000, 1000);
    default: return r.uni(-1, 1) * std::pow(10.0, r.uni(-6, 0));
  }
}

static void cosine(Rng& r) {
  for (int k = 0; k < 30; ++k) {
    double a = edge(r), b;
    switch (r.below(5)) {
      case 0: b = a + r.uni(0, 6.28); break;
      case 1: b = a; break;
      case 2: b = a + std::pow(10.0, r.uni(-9, 0)); break;
      case 3: b = edge(r); break;
      default: b = a + (double)(PI / 2 * r.range(0, 8)) + r.uni(-0.01, 0.01);
    }
    if (r.chance(0.1)) {  // a full turn, up to rounding
      b = a + (double)(2 * PI);
      for (int j = (int)r.below(3); j > 0; --j) b = std::nextafter(b, r.chance(0.5) ? 1e9 : -1e9);
      count("cos_full_turn");
    }
    double lo = 9, hi = 9;
    op("findLUCos");
    rofl::findLUCos(a, b, lo, hi);
    long double wl, wh;
    cosRange(std::min(a, b), std::max(a, b), wl, wh);
    // endpoints within rounding of an extreme may or may not count it: the value there equals the extreme to 1e-12 anyway
    CHECK(std::fabs(lo - (double)wl) <= 1e-9 && std::fabs(hi - (double)wh) <= 1e-9, "cosine", "findLUCos(", a, ",", b, ") = [", lo, ",", hi, "] expected [", (double)wl, ",", (double)wh, "]");
    count("cos_intervals");
    if (wl == -1) count("cos_with_min");
    if (wh == 1) count("cos_with_max");
    if (b < a) count("cos_swapped");
    if (b != a) sig(hashStr(cat(a, " ", b)));
    if (wantSample()) sample(cat("cos on [", a, ",", b, "] -> [", lo, ",", hi, "]"));
  }
}

static void fourier(Rng& r) {
  int n = (int)r.range(0, r.chance(0.03) ? 120 : 8);
  std::vector<double> c(2 * (n + 1));
  for (auto& x : c) x = r.chance(0.2) ? 0 : r.uni(-5, 5);
  bool single = n > 0 && r.chance(0.4);
  int only = 0;
  if (single) {
    only = (int)r.range(1, n);
    for (int i = 1; i <= n; ++i)
      if (i != only) c[2 * i] = c[2 * i + 1] = 0;
  }
  if (r.chance(0.3)) {  // coefficients of any common magnitude, and of mixed ones
    double s = std::pow(10.0, r.uni(-12, 12));
    for (auto& x : c) x *= s;
    count("fourier_scaled");
  } else if (r.chance(0.2)) for (auto& x : c) x *= std::pow(10.0, r.uni(-6, 0));
  double sum = 1e-300;
  for (auto x : c) sum += std::fabs(x);
  for (int q = 0; q < 6; ++q) {
    double a = edge(r) / (r.chance(0.5) ? 10 : 1), w = r.chance(0.2) ? 0 : r.chance(0.1) ? (double)PI / r.range(1, 8) : std::pow(10.0, r.uni(-4, 1)), b = a + w;
    double rnd = 1e-9 + 2e-15 * n * std::max(std::fabs(a), std::fabs(b));  // rounding of the harmonic's argument
    double lo = 9, hi = 9;
    op("findLUFourier");
    if (r.chance(0.15)) rofl::findLUFourier(c, b, a, lo, hi); else rofl::findLUFourier(c, a, b, lo, hi);
    auto S = [&](long double x) {
      long double v = 0;
      for (int i = 0; i <= n; ++i) v += c[2 * i] * cosl(2 * i * x) + c[2 * i + 1] * sinl(2 * i * x);
      return v;
    };
    long double mn = 1e300L, mx = -1e300L;
    const int N = 200;
    for (int k = 0; k <= N; ++k) {
      long double v = S(k == N ? (long double)b : a + (long double)w * k / N);
      mn = std::min(mn, v);
      mx = std::max(mx, v);
    }
    std::string what = cat("order ", n, " on [", a, ",", b, "]: [", lo, ",", hi, "], the series takes [", (double)mn, ",", (double)mx, "] coefficients ", show(c, 18));
    CHECK(lo <= (double)mn + rnd * sum && hi >= (double)mx - rnd * sum, "enclose", what);
    CHECK(lo <= hi + 1e-12 * sum, "enclose", "lower bound above the upper bound: ", what);
    // never looser than adding the exact range of each harmonic
    long double sl = c[0], sh = c[0];
    for (int i = 1; i <= n; ++i) {
      long double amp = hypotl(c[2 * i], c[2 * i + 1]), ph = atan2l(c[2 * i + 1], c[2 * i]), l, h;
      cosRange(2 * i * (long double)a - ph, 2 * i * (long double)b - ph, l, h);
      sl += amp * l;
      sh += amp * h;
    }
    CHECK(std::fabs(lo - (double)sl) <= 10 * rnd * sum && std::fabs(hi - (double)sh) <= 10 * rnd * sum, "tight", "expected the sum of the exact ranges of the harmonics [", (double)sl, ",", (double)sh, "]: ", what);
    count("fourier_intervals");
    if (single) count("fourier_single_harmonic");
    sig(hashStr(what));
  }
}

const char* vmon_property() { return "C17"; }
uint64_t vmon_cases(bool thorough) { return thorough ? 400000 : 12000; }
void vmon_case(uint64_t idx, Rng& r) {
  require("cos_intervals", 10000);
  require("cos_with_min", 1000);
  require("cos_with_max", 1000);
  require("cos_full_turn", 1000);
  require("fourier_intervals", 1000);
  require("fourier_scaled", 1000);
  if (idx % 3) fourier(r); else cosine(r);
}
