// C16: fast trigonometry, angle normalisation and Fourier evaluation against the C library in long double.
#include "vmon.h"

#include <rofl/common/functions.h>

using namespace vmon;
static const long double PI = 3.14159265358979323846264338327950288L;

// angles from tiny to as large as lim, dense around the multiples of pi/4
static double angle(Rng& r, double lim) {
  switch (r.below(8)) {
    case 7: return (r.chance(0.5) ? 1 : -1) * std::pow(10.0, r.uni(0, std::log10(lim)));
    case 0: return r.uni(-7, 7);
    case 1: return (double)(PI / 4 * r.range(-40, 40));
    case 2: return (double)(PI / 4 * r.range(-40, 40)) + r.pick(std::vector<double>{1e-12, -1e-12, 1e-9, -1e-9, 1e-6, -1e-6, 1e-4, -1e-4});
    case 3: return r.uni(-lim, lim);
    case 4: return std::ldexp(r.uni(-1, 1), -(int)r.range(0, 60));
    case 5: return 0;
    default: return std::nextafter((double)(PI / 4 * r.range(-16, 16)), r.chance(0.5) ? 1e9 : -1e9);
  }
}

// the branch cut may be seen from either side; elsewhere the angle itself counts
static double turnError(double got, long double want) {
  double e = std::fabs(got - (double)want);
  if (std::fabs((double)want) > (double)PI - 1e-4) e = std::min(e, std::fabs(e - 2 * (double)PI));
  return e;
}
static void trig(Rng& r) {
  for (int k = 0; k < 40; ++k) {
    double x = angle(r, 1e12), c = 9, s = 9;
    op("fastCosSin");
    rofl::fastCosSin(x, c, s);
    double ec = std::fabs(c - (double)cosl(x)), es = std::fabs(s - (double)sinl(x));
    double tolx = 0.0012 + 4e-16 * std::fabs(x);  // rounding of the argument in turns
    CHECK(ec <= tolx && es <= tolx, "cossin", "fastCosSin(", x, ") = ", c, ",", s, " errors ", ec, " ", es);
    if (std::fabs(x) < 1e6) maximum("err_cossin", std::max(ec, es));
    else count("cossin_large");
    float xf = (float)angle(r, 1000), cf = 9, sf = 9;
    rofl::fastCosSinf(xf, cf, sf);
    ec = std::fabs(cf - (double)cosl(xf));
    es = std::fabs(sf - (double)sinl(xf));
    double tol = 0.0012 + 1e-6 * (1 + std::fabs(xf));
    CHECK(ec <= tol && es <= tol, "cossinf", "fastCosSinf(", xf, ") = ", cf, ",", sf, " errors ", ec, " ", es);
    maximum("err_cossinf", std::max(ec, es));
    count("cossin", 2);

    double t = r.chance(0.1) ? (double)r.range(-1, 1) : (r.chance(0.3) ? std::ldexp(r.uni(-1, 1), -(int)r.range(0, 40)) : r.uni(-1, 1));
    double ea = std::fabs(rofl::fastAtan(t) - (double)atanl(t));
    CHECK(ea <= 1.5e-5, "atan", "fastAtan(", t, ") = ", rofl::fastAtan(t), " error ", ea);
    float tf = (float)t;
    double ef = std::fabs((double)rofl::fastAtanf(tf) - (double)atanl(tf));
    CHECK(ef <= 1.6e-5, "atanf", "fastAtanf(", tf, ") = ", rofl::fastAtanf(tf), " error ", ef);
    maximum("err_atan", std::max(ea, ef));
    count("atan", 2);

    double ang = r.uni(-3.2, 3.2), rad = std::pow(10.0, r.uni(-6, 6)), px, py;
    switch (r.below(7)) {
      case 6: rad = std::pow(10.0, r.uni(-36, 36)); px = rad * std::cos(ang); py = rad * std::sin(ang) * (r.chance(0.3) ? 1e-9 : 1); break;
      case 0: px = (double)r.range(-3, 3); py = (double)r.range(-3, 3); break;
      case 1: px = 0; py = r.uni(-2, 2); break;
      case 2: px = r.uni(-2, 2); py = r.chance(0.5) ? 0.0 : -0.0; break;
      case 3: px = r.uni(-1, 1); py = (r.chance(0.5) ? 1 : -1) * px; break;
      default: px = rad * std::cos(ang); py = rad * std::sin(ang);
    }
    if (px == 0 && py == 0) px = 1;
    op("fastAtan2");
    double g = rofl::fastAtan2(px, py), e2 = turnError(g, atan2l(py, px));
    CHECK(e2 <= 2e-5, "atan2", "fastAtan2(", px, ",", py, ") = ", g, " error ", e2);
    float fx = (float)px, fy = (float)py;
    if (fx != 0 || fy != 0) {
      double gf = rofl::fastAtan2f(fx, fy), e3 = turnError(gf, atan2l(fy, fx));
      CHECK(e3 <= 2e-5, "atan2f", "fastAtan2f(", fx, ",", fy, ") = ", gf, " error ", e3);
      maximum("err_atan2", std::max(e2, e3));
    }
    count(cat("atan2_quadrant_", px < 0, py < 0));
    if (k == 0) sig(comb(hashStr(cat(x)), hashStr(cat(px, py))));
    if (wantSample()) sample(cat("angle ", x, " point ", px, ",", py));
  }
}

static void norm(Rng& r) {
  for (int k = 0; k < 60; ++k) {
    double a = angle(r, 1e6), tola = 1e-9 + 1e-12 * std::fabs(a);  // the library's 2*pi has 12 digits
    op("normalize");
    double n2 = rofl::normalize360(a), n1 = rofl::normalize180(a);
    long double t2 = 2 * PI;
    CHECK(n2 >= -tola && n2 <= (double)t2 + tola, "range360", "normalize360(", a, ") = ", n2);
    CHECK(n1 >= -tola && n1 <= (double)PI + tola, "range180", "normalize180(", a, ") = ", n1);
    long double d2 = ((long double)n2 - a) / t2, d1 = ((long double)n1 - a) / PI;
    CHECK(std::fabs(d2 - roundl(d2)) * t2 <= tola, "congruent360", "normalize360(", a, ") = ", n2, " is not the same direction");
    CHECK(std::fabs(d1 - roundl(d1)) * PI <= tola, "congruent180", "normalize180(", a, ") = ", n1, " is not congruent modulo pi");
    count("normalized");
    if (a < 0) count("normalized_negative");
    if (k == 0) sig(hashStr(cat("n", a)));
  }
}

static void fourier(Rng& r) {
  int n = (int)r.range(0, r.chance(0.1) ? 300 : 12);
  std::vector<double> c(2 * (n + 1));
  for (auto& x : c) x = r.chance(0.2) ? 0 : r.uni(-5, 5);
  if (r.chance(0.2)) {
    std::fill(c.begin(), c.end(), 0.0);
    c[r.below(c.size())] = 1;
  }
  if (r.chance(0.3)) {
    double s = std::pow(10.0, r.uni(-12, 12));
    for (auto& x : c) x *= s;
    count("fourier_scaled");
  } else if (r.chance(0.2)) for (auto& x : c) x *= std::pow(10.0, r.uni(-6, 0));
  double sum = 1e-300;
  for (auto x : c) sum += std::fabs(x);
  for (int k = 0; k < 10; ++k) {
    double th = angle(r, 100);
    long double want = 0;
    for (int i = 0; i <= n; ++i) want += c[2 * i] * cosl((long double)i * th) + c[2 * i + 1] * sinl((long double)i * th);
    op("evaluateFourier");
    double got = rofl::evaluateFourier(c, th);
    CHECK(std::fabs(got - (double)want) <= (1e-10 + 1e-14 * n * n) * sum, "fourier", "order ", n, " at ", th, ": ", got, " expected ", (double)want, " coefficients ", show(c, 12));
    count("fourier");
  }
  sig(hashStr(show(c)));
}

const char* vmon_property() { return "C16"; }
uint64_t vmon_cases(bool thorough) { return thorough ? 1000000 : 30000; }
void vmon_case(uint64_t idx, Rng& r) {
  require("cossin", 10000);
  require("cossin_large", 1000);
  require("atan2_quadrant_11", 1000);
  require("atan2_quadrant_10", 1000);
  require("normalized_negative", 1000);
  require("fourier", 1000);
  require("fourier_scaled", 500);
  switch (idx % 3) {
    case 0: trig(r); break;
    case 1: norm(r); break;
    case 2: fourier(r); break;
  }
}
