// C19: planar primitives (poses, angles, orientation) against long double formulas.
#include "vmon.h"

#include <rofl/geometry/base_geometry2.h>

namespace rofl {
// defined by the library without a declaration in its headers; absent from a library that drops it
bool insideAngleInterval(Scalar x, Scalar y, Vector2 pBeg, Vector2 pEnd) __attribute__((weak));
}  // namespace rofl

using namespace vmon;
using rofl::Scalar;
static const long double PI = 3.14159265358979323846264338327950288L;
static const long double TWO_PI = 2 * PI;

static float angle(Rng& r, double lim) {
  switch (r.below(5)) {
    case 0: return (float)(PI / 4 * r.range(-24, 24));
    case 1: return (float)r.uni(-7, 7);
    case 2: return (float)r.uni(-lim, lim);
    case 3: return (float)(r.uni(-1, 1) * std::pow(10.0, r.uni(-6, 0)));
    default: return (float)(PI / 4 * r.range(-24, 24) + r.uni(-0.01, 0.01));
  }
}
static float coord(Rng& r) {
  switch (r.below(5)) {
    case 0: return (float)r.range(-10, 10);
    case 1: return (float)r.uni(-1000, 1000);
    case 2: return (float)(r.gauss() * 0.01);
    case 3: if (r.chance(0.3)) return (float)(r.uni(-1, 1) * std::pow(10.0, r.uni(-8, 8)));
    default: return (float)r.uni(-5, 5);
  }
}
static long double mod(long double a) {
  a = fmodl(a, TWO_PI);
  return a < 0 ? a + TWO_PI : a;
}

static void pose(Rng& r) {
  float x = coord(r), y = coord(r), th = angle(r, 100);
  rofl::Transform2 t;
  if (r.chance(0.5)) t.matrix().setRandom(); else t.setIdentity();
  op("poseToIsometry2");
  if (r.chance(0.5)) rofl::poseToIsometry2(x, y, th, t); else rofl::poseToIsometry2(rofl::Vector3(x, y, th), t);
  std::string what = cat("pose (", x, ",", y, ",", th, ")");
  double R[2][2] = {{(double)cosl(th), (double)-sinl(th)}, {(double)sinl(th), (double)cosl(th)}};
  for (int i = 0; i < 2; ++i)
    for (int j = 0; j < 2; ++j) CHECK(std::fabs(t.linear()(i, j) - R[i][j]) <= 2e-6, "rotation", what, ": rotation entry ", i, ",", j, " is ", t.linear()(i, j), " expected ", R[i][j]);
  CHECK(std::fabs(t.translation()(0) - x) <= 1e-6 * (1 + std::fabs(x)) && std::fabs(t.translation()(1) - y) <= 1e-6 * (1 + std::fabs(y)), "translation", what, ": translation ", t.translation()(0), ",", t.translation()(1));
  CHECK(t.matrix()(2, 0) == 0 && t.matrix()(2, 1) == 0 && t.matrix()(2, 2) == 1, "affine", what, ": the last row is not 0 0 1");
  for (int k = 0; k < 3; ++k) {
    rofl::Vector2 p(coord(r), coord(r)), q = t * p;
    double wx = R[0][0] * p(0) + R[0][1] * p(1) + x, wy = R[1][0] * p(0) + R[1][1] * p(1) + y;
    double tol = 4e-6 * (1 + p.norm() + std::hypot(x, y));
    CHECK(std::fabs(q(0) - wx) <= tol && std::fabs(q(1) - wy) <= tol, "apply", what, " maps (", p(0), ",", p(1), ") to (", q(0), ",", q(1), ") expected (", wx, ",", wy, ")");
  }
  count("poses");
  sig(hashStr(what));
  if (wantSample()) sample(what);
}

static void angles(Rng& r) {
  for (int k = 0; k < 10; ++k) {
    float a = angle(r, r.chance(0.2) ? 20000 : 100);
    op("normalizeAngle2Pi");
    float n = rofl::normalizeAngle2Pi(a);
    double tol = 1e-6 * (2 + std::fabs(a));
    CHECK(n >= -tol && n <= (double)TWO_PI + tol, "range", "normalizeAngle2Pi(", a, ") = ", n);
    long double d = ((long double)n - a) / TWO_PI;
    CHECK(std::fabs(d - roundl(d)) * TWO_PI <= tol, "congruent", "normalizeAngle2Pi(", a, ") = ", n, " is not the same direction");
    count("normalized");

    float b = angle(r, 20), e = angle(r, 20), x;
    switch (r.below(4)) {
      case 0: x = angle(r, 20); break;
      case 1: x = b + (float)r.uni(0, 1) * (float)mod((long double)e - b); break;
      case 2: x = e + (float)r.uni(-0.05, 0.05); break;
      default: x = b + (float)r.uni(-0.05, 0.05);
    }
    op("insideAngleInterval");
    bool in = rofl::insideAngleInterval(x, b, e), in2 = rofl::insideAngleInterval(x, rofl::AngleInterval(b, e)), inEq = rofl::insideAngleIntervalEq(x, b, e);
    long double dx = mod((long double)x - b), w = mod((long double)e - b);
    const double edge = 1e-4;
    bool border = dx < edge || TWO_PI - dx < edge || w < edge || TWO_PI - w < edge || std::fabs(dx - w) < edge;
    CHECK(in == in2, "interval", "the two forms disagree for ", x, " in [", b, ",", e, "]");
    if (!border) {
      bool want = dx < w;
      CHECK(in == want, "interval", "angle ", x, " in [", b, ",", e, "]: ", in, " expected ", want);
      CHECK(inEq == want, "interval", "angle ", x, " in [", b, ",", e, "] with equality: ", inEq, " expected ", want);
      count(want ? "inside" : "outside");
      if (e < b) count("intervals_wrapping");
      sig(hashStr(cat(x, " ", b, " ", e)));
    }
    if (w > edge && TWO_PI - w > edge) {
      CHECK(rofl::insideAngleIntervalEq(e, b, e), "endpoint", "the interval with equality [", b, ",", e, "] does not contain its end");
      CHECK(!rofl::insideAngleInterval(e, b, e), "endpoint", "the interval without equality [", b, ",", e, "] contains its end");
      CHECK(rofl::insideAngleInterval(b, b, e) && rofl::insideAngleIntervalEq(b, b, e), "endpoint", "the interval [", b, ",", e, "] does not contain its begin");
      count("endpoints");
    }
  }
}

static void orientation(Rng& r) {
  for (int k = 0; k < 20; ++k) {
    rofl::Vector2 a(coord(r), coord(r)), b(coord(r), coord(r)), c(coord(r), coord(r));
    if (r.chance(0.2)) c = a + (b - a) * (float)r.uni(-2, 2);
    if (r.chance(0.1)) c = b;
    double want = ((double)b(0) - a(0)) * ((double)c(1) - a(1)) - ((double)b(1) - a(1)) * ((double)c(0) - a(0));
    double scale = ((b - a).cast<double>().norm() + 1e-30) * ((c - a).cast<double>().norm() + 1e-30) + 1e-30;
    double tol = 1e-6 * scale;
    op("ccw");
    double g = rofl::ccw(a, b, c);
    CHECK(std::fabs(g - want) <= tol, "ccw", "ccw((", a(0), ",", a(1), "),(", b(0), ",", b(1), "),(", c(0), ",", c(1), ")) = ", g, " expected ", want);
    count(want > tol ? "ccw_left" : want < -tol ? "ccw_right" : "ccw_collinear");
    if (k == 0) sig(hashStr(cat(a(0), a(1), b(0), b(1), c(0), c(1))));
  }
}

// the sector swept counterclockwise from pBeg to pEnd, in its vector form
static void cones(Rng& r) {
  bool (*f)(Scalar, Scalar, rofl::Vector2, rofl::Vector2) = &rofl::insideAngleInterval;
  if (!f) {
    count("cones_absent");
    return;
  }
  for (int k = 0; k < 20; ++k) {
    double b = r.uni(-3.2, 3.2), e = r.uni(-3.2, 3.2), a = r.chance(0.3) ? (r.chance(0.5) ? b : e) + r.uni(-0.1, 0.1) : r.uni(-3.2, 3.2);
    double lb = std::pow(10.0, r.uni(-2, 2)), le = std::pow(10.0, r.uni(-2, 2)), la = std::pow(10.0, r.uni(-2, 2));
    rofl::Vector2 pb(lb * std::cos(b), lb * std::sin(b)), pe(le * std::cos(e), le * std::sin(e));
    float x = la * std::cos(a), y = la * std::sin(a);
    long double w = mod((long double)e - b), d = mod((long double)a - b);
    const long double edge = 1e-3L;
    auto near = [&](long double u, long double v) { long double q = mod(u - v); return q < edge || TWO_PI - q < edge; };
    // the half planes of the two directions must separate the sector: borders, opposite rays and straight or empty sectors are left out
    if (near(w, 0) || near(w, PI) || near(d, 0) || near(d, w)) continue;
    op("insideAngleInterval(vector)");
    bool got = f(x, y, pb, pe), want = d < w;
    CHECK(got == want, "cone", "point (", x, ",", y, ") in the sector from (", pb(0), ",", pb(1), ") to (", pe(0), ",", pe(1), "): ", got, " expected ", want);
    count(w > PI ? "cones_reflex" : "cones_convex");
  }
}

const char* vmon_property() { return "C19"; }
uint64_t vmon_cases(bool thorough) { return thorough ? 2000000 : 60000; }
void vmon_case(uint64_t idx, Rng& r) {
  require("poses", 1000);
  require("inside", 1000);
  require("outside", 1000);
  require("endpoints", 1000);
  require("ccw_left", 1000);
  require("ccw_right", 1000);
  switch (idx % 3) {
    case 0: pose(r); break;
    case 1: angles(r); break;
    case 2: orientation(r); if (idx % 2) cones(r); break;
  }
}
