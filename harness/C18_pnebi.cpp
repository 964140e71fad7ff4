// C18: scaled Bessel functions: polynomial, recurrence and look-up table against Miller's recurrence normalised by the generating function.
#include "vmon.h"

#include <rofl/common/functions.h>

using namespace vmon;

// 2 exp(-x) I_k(x), k = 0..n, in long double: f_k proportional to I_k by downward recurrence, and exp(x) = I_0 + 2 sum I_k
static std::vector<double> reference(int n, double x) {
  x = std::fabs(x);
  std::vector<double> out(n + 1, 0.0);
  if (x == 0) {
    out[0] = 2;
    return out;
  }
  if (x > 1e6) {  // Hankel's expansion
    for (int k = 0; k <= n; ++k) {
      long double term = 1, sum = 1, mu = 4.0L * k * k;
      for (int j = 1; j <= 12; ++j) {
        term *= -(mu - (2 * j - 1.0L) * (2 * j - 1.0L)) / (j * 8.0L * x);
        sum += term;
      }
      out[k] = (double)(2 * sum / sqrtl(2 * 3.14159265358979323846264338327950288L * (long double)x));
    }
    return out;
  }
  long m = (long)(2 * n + 60 + 12 * std::sqrt(x) + (x < 50 ? x : 0));
  std::vector<long double> keep(n + 1, 0);
  long double prev = 0, cur = 1e-300L, sum = 0;
  for (long k = m; k >= 0; --k) {
    // cur = f_k
    if (k <= n) keep[k] = cur;
    sum += (k == 0 ? 1 : 2) * cur;
    long double next = prev + 2 * k / (long double)x * cur;
    prev = cur;
    cur = next;
    if (cur > 1e3000L) {
      const long double s = 1e-3000L;
      prev *= s;
      cur *= s;
      sum *= s;
      for (auto& v : keep) v *= s;
    }
  }
  for (int k = 0; k <= n; ++k) out[k] = (double)(2 * keep[k] / sum);
  return out;
}

static double argument(Rng& r, double maxExp) {
  double x;
  switch (r.below(6)) {
    case 0: x = r.uni(0, 10); break;
    case 1: x = r.pick(std::vector<double>{0, 1e-7, 9.99e-7, 1e-6, 1.01e-6, 3.75, 3.7499999, 3.7500001, 600, 1, 0.5}); break;
    case 2: x = r.uni(0, 600); break;
    case 3: x = std::pow(10.0, r.uni(-8, maxExp)); break;
    case 4: x = r.uni(3, 5); break;
    default: x = r.uni(0, 60);
  }
  return r.chance(0.2) ? -x : x;
}

static void vectors(Rng& r) {
  for (int q = 0; q < 6; ++q) {
    double x = argument(r, r.chance(0.02) ? 6 : r.chance(0.1) ? 5 : 3.5);
    if (r.chance(0.05)) x = std::pow(10.0, r.uni(6, 15));
    int n = (int)(r.chance(0.2) ? r.range(0, 2) : r.chance(0.05) ? r.range(60, 400) : r.range(0, 60));
    auto ref = reference(n, x);
    op("evaluatePnebi0Polynom");
    double p0 = rofl::evaluatePnebi0Polynom(x);
    double e0 = std::fabs(p0 - ref[0]) / ref[0];
    CHECK(e0 <= 1e-6, "polynom", "PNEBI(0,", x, ") = ", p0, " expected ", ref[0]);
    maximum("relerr_polynom", e0);
    std::vector<double> y;
    if (r.chance(0.5)) y.assign(r.below(n + 2), r.uni(-1e3, 1e3));
    op("evaluatePnebiVector");
    rofl::evaluatePnebiVector(n, x, y);
    CHECK((int)y.size() == n + 1, "vector", "vector of ", y.size(), " entries for order ", n);
    for (int k = 0; k <= n; ++k) {
      double e = std::fabs(y[k] - ref[k]);
      CHECK(e <= 4e-6 * std::max(ref[0], std::fabs(x) < 2e-6 ? 1.0 : 0.0), "vector", "PNEBI(", k, ",", x, ") = ", y[k], " expected ", ref[k], " (orders up to ", n, ")");
      maximum("relerr_vector", e / ref[0]);
    }
    count("vectors");
    if (std::fabs(x) > 4.0 * n + 40) count("vectors_large_argument");
    if (std::fabs(x) > 1e6) count("vectors_huge_argument");
    sig(hashStr(cat(n, " ", x)));
    if (wantSample()) sample(cat("orders up to ", n, " at x=", x, ": ", show(y, 6)));
  }
}

static void lut(Rng& r) {
  int n = (int)(r.chance(0.2) ? r.range(0, 1) : r.range(1, 25));
  double tol = r.pick(std::vector<double>{0.2, 0.1, 0.05, 0.02, 0.01, 0.003, 0.001});
  if (r.chance(0.2)) n = (int)r.range(26, 90);
  rofl::PnebiLUT t;
  bool re = r.chance(0.4);
  op("PnebiLUT::init");
  if (re) t.init(r.chance(0.4) ? n : (int)r.range(1, 30), r.pick(std::vector<double>{0.5, 0.1, 0.01}));
  if (r.chance(0.5)) t.init(n, tol); else t = rofl::PnebiLUT(n, tol);
  CHECK(t.getOrderMax() == n, "order", "getOrderMax() is ", t.getOrderMax(), " after initialisation with ", n);
  for (int q = 0; q < 40; ++q) {
    double x = argument(r, r.chance(0.1) ? 15 : 4);
    auto ref = reference(n, x);
    std::vector<double> y;
    if (r.chance(0.5)) y.assign(r.below(n + 4), 55.0);
    size_t sz = std::max(y.size(), (size_t)n + 1);
    op("PnebiLUT::eval");
    t.eval(x, y);
    CHECK(y.size() == sz, "lut", "vector of ", y.size(), " entries, expected ", sz);
    for (int k = 0; k <= n; ++k) {
      double e = std::fabs(y[k] - ref[k]);
      CHECK(e <= tol, "lut", "LUT with tolerance ", tol, " and order ", n, ": PNEBI(", k, ",", x, ") = ", y[k], " expected ", ref[k]);
      maximum("lut_error_over_tolerance", e / tol);
      double s = t.eval(k, x), neg = t.eval(k, -x);
      CHECK(std::fabs(s - y[k]) <= 1e-12, "lut", "order ", k, " at ", x, ": single evaluation ", s, " differs from the vector ", y[k]);
      CHECK(neg == s, "lut", "order ", k, ": not even in x at ", x);
    }
    count("lut_points");
  }
  if (r.chance(0.3)) {
    // the table as text: one line per shown row and the last row, never more columns than there are orders
    std::ostringstream o;
    int rows = (int)r.range(1, 50), k = (int)r.range(0, n + 5);
    op("PnebiLUT::printLUT");
    t.printLUT(o, rows, k);
    std::istringstream in(o.str());
    std::string line;
    double last = -1;
    size_t cols = (size_t)std::min(k, n) + 1;
    while (std::getline(in, line)) {
      std::istringstream ls(line);
      std::vector<double> v;
      double q;
      while (ls >> q) v.push_back(q);
      CHECK(v.size() == cols + 2, "print", "a printed row has ", v.size(), " entries, expected index, argument and ", cols, " values");
      CHECK(v[1] >= last, "print", "printed arguments are not sorted");
      last = v[1];
      count("printed_rows");
      if (v[1] > 1e5) continue;
      auto ref = reference(n, v[1]);
      for (size_t c = 0; c < cols; ++c) CHECK(std::fabs(v[2 + c] - ref[c]) <= tol + 1e-3, "print", "printed row ", v[0], ": order ", c, " at ", v[1], " is ", v[2 + c], " expected ", ref[c]);
    }
  }
  count("luts");
  if (n == 0) count("luts_order0");
  sig(comb(hashStr(cat(n, " ", tol)), r.next()));
}

const char* vmon_property() { return "C18"; }
uint64_t vmon_cases(bool thorough) { return thorough ? 60000 : 4000; }
void vmon_case(uint64_t idx, Rng& r) {
  require("vectors", 1000);
  require("vectors_large_argument", 100);
  require("vectors_huge_argument", 100);
  require("lut_points", 1000);
  require("luts_order0", 5);
  if (idx % 8 == 0) lut(r); else vectors(r);
}
