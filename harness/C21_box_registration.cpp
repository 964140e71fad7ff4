// C21: box registration: nearest surface point, optimal rigid update, principal-axis initialisation.
// Compiled once per instantiation (VPART 1..4) to keep the build short.
#include "vmon.h"

#if VPART == 0
namespace box {
void f2(vmon::Rng&);
void d2(vmon::Rng&);
void f3(vmon::Rng&);
void d3(vmon::Rng&);
}
const char* vmon_property() { return "C21"; }
uint64_t vmon_cases(bool thorough) { return thorough ? 100000 : 4000; }
void vmon_case(uint64_t idx, vmon::Rng& r) {
  vmon::require("associations", 1000);
  vmon::require("updates", 300);
  vmon::require("updates_flat_cloud", 50);
  vmon::require("initialisations", 200);
  switch (idx % 4) {
    case 0: box::f2(r); break;
    case 1: box::d2(r); break;
    case 2: box::f3(r); break;
    case 3: box::d3(r); break;
  }
}
#else
#include <rofl/geometry/box_registration.h>
using namespace vmon;

// largest eigenvalue of a symmetric 4x4 matrix (Jacobi rotations)
static long double maxEig4(long double a[4][4]) {
  for (int sweep = 0; sweep < 60; ++sweep) {
    long double off = 0;
    for (int i = 0; i < 4; ++i)
      for (int j = i + 1; j < 4; ++j) off += a[i][j] * a[i][j];
    if (off < 1e-40L) break;
    for (int p = 0; p < 4; ++p)
      for (int q = p + 1; q < 4; ++q) {
        if (fabsl(a[p][q]) < 1e-300L) continue;
        long double th = (a[q][q] - a[p][p]) / (2 * a[p][q]), t = (th >= 0 ? 1 : -1) / (fabsl(th) + sqrtl(th * th + 1)), c = 1 / sqrtl(t * t + 1), s = t * c;
        for (int k = 0; k < 4; ++k) {
          long double x = a[k][p], y = a[k][q];
          a[k][p] = c * x - s * y;
          a[k][q] = s * x + c * y;
        }
        for (int k = 0; k < 4; ++k) {
          long double x = a[p][k], y = a[q][k];
          a[p][k] = c * x - s * y;
          a[q][k] = s * x + c * y;
        }
      }
  }
  long double m = a[0][0];
  for (int i = 1; i < 4; ++i) m = std::max(m, a[i][i]);
  return m;
}
// max over proper rotations R of sum dst . (R src), S[i][j] = sum src_i dst_j
template <int D>
static long double bestAlign(const long double S[D][D]) {
  if (D == 2) return hypotl(S[0][0] + S[1][1], S[0][1] - S[1][0]);
  const int Z = D - 1;
  long double N[4][4] = {{S[0][0] + S[1][1] + S[Z][Z], S[1][Z] - S[Z][1], S[Z][0] - S[0][Z], S[0][1] - S[1][0]},
                         {0, S[0][0] - S[1][1] - S[Z][Z], S[0][1] + S[1][0], S[Z][0] + S[0][Z]},
                         {0, 0, -S[0][0] + S[1][1] - S[Z][Z], S[1][Z] + S[Z][1]},
                         {0, 0, 0, -S[0][0] - S[1][1] + S[Z][Z]}};
  for (int i = 0; i < 4; ++i)
    for (int j = 0; j < i; ++j) N[i][j] = N[j][i];
  return maxEig4(N);
}

template <typename T, int D>
struct Mon {
  using B = rofl::BoxRegistration<T, D>;
  using P = typename B::Point;
  using X = typename B::Transform;
  using VP = typename B::VectorPoint;
  using A = std::array<long double, D>;
  static constexpr double EPS = sizeof(T) == 4 ? 2e-6 : 1e-14;

  static std::string str(const P& p) {
    std::string s = "(";
    for (int d = 0; d < D; ++d) s += cat(d ? "," : "", p(d));
    return s + ")";
  }
  // distance from a point to the surface of the box
  static long double surface(const A& q, const A& half) {
    long double out = 0, in = 1e300L;
    bool inside = true;
    for (int d = 0; d < D; ++d) {
      long double e = fabsl(q[d]) - half[d];
      if (e > 0) {
        out += e * e;
        inside = false;
      }
      in = std::min(in, -e);
    }
    return inside ? in : sqrtl(out);
  }
  static void rot(Rng& r, T R[D][D], double amount) {
    for (int i = 0; i < D; ++i)
      for (int j = 0; j < D; ++j) R[i][j] = i == j;
    for (int p = 0; p < D; ++p)
      for (int q = p + 1; q < D; ++q) {
        double a = r.uni(-amount, amount);
        T c = (T)std::cos(a), s = (T)std::sin(a);
        for (int k = 0; k < D; ++k) {
          T x = R[k][p], y = R[k][q];
          R[k][p] = c * x - s * y;
          R[k][q] = s * x + c * y;
        }
      }
  }
  static void rigid(const X& t, const char* when, const std::string& what) {
    double tol = sizeof(T) == 4 ? 5e-5 : 1e-10;
    for (int i = 0; i < D; ++i)
      for (int j = 0; j < D; ++j) {
        double s = 0;
        for (int k = 0; k < D; ++k) s += (double)t.matrix()(k, i) * (double)t.matrix()(k, j);
        CHECK(std::fabs(s - (i == j)) <= tol, "orthonormal", when, ": columns ", i, " and ", j, " have product ", s, ": ", what);
      }
    double m[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
    for (int i = 0; i < D; ++i)
      for (int j = 0; j < D; ++j) m[i][j] = t.matrix()(i, j);
    double det = D == 2 ? m[0][0] * m[1][1] - m[0][1] * m[1][0]
                        : m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
    CHECK(det > 0, "reflection", when, ": the transformation is a reflection (determinant ", det, "): ", what);
    for (int j = 0; j <= D; ++j) CHECK(t.matrix()(D, j) == (j == D ? 1 : 0), "affine", when, ": last row: ", what);
  }

  static void run(Rng& r, const char* ty) {
    B box;
    P dim;
    const double U = r.chance(0.3) ? r.pick(std::vector<double>{1e-3, 0.02, 30, 1e3}) : 1.0;  // unit of length
    for (int d = 0; d < D; ++d) dim(d) = (T)(U * r.uni(0.2, 6));
    if (r.chance(0.1)) dim((int)r.below(D)) = 0;
    if (r.chance(0.1)) dim(1) = dim(0);
    op("setDimension");
    box.setDimension(dim);
    A half;
    for (int d = 0; d < D; ++d) half[d] = (long double)dim(d) / 2;
    std::string what = cat(ty, " D=", D, " box ", str(dim));

    // associate
    for (int k = 0; k < 8; ++k) {
      P q, n;
      A qa;
      for (int d = 0; d < D; ++d) {
        double h = (double)half[d];
        switch (r.below(6)) {
          case 0: q(d) = (T)(r.chance(0.5) ? h : -h); break;
          case 1: q(d) = 0; break;
          case 2: q(d) = (T)r.uni(-3 * h - U, 3 * h + U); break;
          default: q(d) = (T)r.uni(-h, h);
        }
        qa[d] = q(d);
        n(d) = (T)77;
      }
      P q0 = q;
      op("associate");
      box.associate(q, n);
      long double dist = 0;
      bool on = false;
      for (int d = 0; d < D; ++d) {
        dist += ((long double)n(d) - qa[d]) * ((long double)n(d) - qa[d]);
        long double e = fabsl((long double)n(d)) - half[d];
        CHECK(e <= 10 * EPS * U, "surface", "nearest point ", str(n), " of ", str(q), " is outside the box: ", what);
        if (fabsl(e) <= 10 * EPS * U) on = true;
        CHECK(q(d) == q0(d), "argument", "the query changed: ", what);
      }
      CHECK(on, "surface", "nearest point ", str(n), " of ", str(q), " is not on the surface: ", what);
      long double want = surface(qa, half);
      CHECK(fabsl(sqrtl(dist) - want) <= 20 * EPS * U, "nearest", "point ", str(n), " is at ", (double)sqrtl(dist), " from ", str(q), " but the surface is at ", (double)want, ": ", what);
      count("associations");
    }

    // cloud: points of the surface (or only of one face or edge), moved and disturbed
    int n = r.chance(0.08) ? (int)(r.chance(0.1) ? r.range(501, 2000) : r.range(61, 500)) : (int)r.range(1, 60), flat = (int)r.below(4);
    T R[D][D];
    rot(r, R, r.chance(0.3) ? 3.1 : 0.5);
    P tr;
    for (int d = 0; d < D; ++d) tr(d) = (T)(U * r.uni(-5, 5));
    double noise = r.chance(0.4) ? 0 : U * r.uni(0, 0.3);
    VP cloud;
    for (int i = 0; i < n; ++i) {
      P p, m;
      for (int d = 0; d < D; ++d) p(d) = (T)r.uni(-(double)half[d], (double)half[d]);
      int face = (int)r.below(D);
      if (flat == 1) {
        face = D - 1;
        p(face) = (T)half[face];
      } else {
        p(face) = (T)(r.chance(0.5) ? half[face] : -half[face]);
      }
      if (flat == 2)
        for (int d = 1; d < D; ++d) p(d) = (T)half[d];
      for (int d = 0; d < D; ++d) {
        m(d) = tr(d) + (T)(flat == 1 || flat == 2 ? 0 : r.gauss() * noise);
        for (int k = 0; k < D; ++k) m(d) += R[d][k] * p(k);
      }
      cloud.push_back(m);
    }
    if (sizeof(T) == 8 && n > 3 && r.chance(0.08)) {  // a stray point far away
      P& p = cloud[r.below(n)];
      for (int d = 0; d < D; ++d) p(d) = (T)(U * r.uni(-1, 1) * std::pow(10.0, r.uni(1, 5)));
      count("clouds with a far point");
    }
    double reach = U;
    for (auto& p : cloud)
      for (int d = 0; d < D; ++d) reach = std::max(reach, (double)std::fabs(p(d)));
    what += cat(" cloud of ", n, " points, kind ", flat, " noise ", noise);
    // initial estimate
    X t = X::Identity();
    op("estimateInitTranform");
    box.estimateInitTranform(cloud, t);
    rigid(t, "initial estimate", what);
    A mean;
    long double C[D][D];
    for (int d = 0; d < D; ++d) {
      mean[d] = 0;
      for (auto& p : cloud) mean[d] += p(d);
      mean[d] /= n;
    }
    for (int i = 0; i < D; ++i)
      for (int j = 0; j < D; ++j) {
        C[i][j] = 0;
        for (auto& p : cloud) C[i][j] += (p(i) - mean[i]) * (p(j) - mean[j]);
        C[i][j] /= n;
      }
    if (n >= 2) {
      for (int d = 0; d < D; ++d) CHECK(fabsl(t.matrix()(d, D) - mean[d]) <= 20 * EPS * reach * (n > 500 ? n / 50 : n > 60 ? 5 : 1), "centroid", "initial translation component ", d, " is ", t.matrix()(d, D), " expected the centroid ", (double)mean[d], ": ", what);
      // the box axes are principal axes of the cloud, the longer the box side the larger the spread
      long double V[D][D], trace = 0;
      for (int i = 0; i < D; ++i) {
        trace += C[i][i];
        for (int j = 0; j < D; ++j) {
          V[i][j] = 0;
          for (int a = 0; a < D; ++a)
            for (int b = 0; b < D; ++b) V[i][j] += (long double)t.matrix()(a, i) * C[a][b] * t.matrix()(b, j);
        }
      }
      double tol = (sizeof(T) == 4 ? 2e-4 : 1e-9) * (U * U + (double)trace);
      for (int i = 0; i < D; ++i)
        for (int j = 0; j < D; ++j) {
          if (i == j) continue;
          CHECK(fabsl(V[i][j]) <= tol, "principal", "axes ", i, " and ", j, " of the initial estimate are correlated (", (double)V[i][j], "): ", what);
          if (dim(i) < dim(j)) CHECK(V[i][i] <= V[j][j] + tol, "ranking", "the longer side ", j, " lies along the smaller spread (", (double)V[i][i], " > ", (double)V[j][j], "): ", what);
        }
    } else {
      for (int i = 0; i <= D; ++i)
        for (int j = 0; j <= D; ++j) CHECK(t.matrix()(i, j) == (i == j), "identity", "initial estimate of a cloud of one point is not the identity: ", what);
    }
    count("initialisations");

    // registration steps from the initial estimate or from a displaced truth
    if (r.chance(0.5)) {
      T Q[D][D];
      rot(r, Q, 0.4);
      for (int i = 0; i < D; ++i) {
        t.matrix()(i, D) = tr(i) + (T)(U * r.uni(-0.5, 0.5));
        for (int j = 0; j < D; ++j) {
          t.matrix()(i, j) = 0;
          for (int k = 0; k < D; ++k) t.matrix()(i, j) += R[i][k] * Q[k][j];
        }
      }
    }
    auto toBox = [&](const X& x, const P& p) {
      A a;
      for (int i = 0; i < D; ++i) {
        a[i] = 0;
        for (int k = 0; k < D; ++k) a[i] += (long double)x.matrix()(k, i) * ((long double)p(k) - x.matrix()(k, D));
      }
      return a;
    };
    auto error = [&](const X& x) {
      long double e = 0;
      for (auto& p : cloud) {
        long double d = surface(toBox(x, p), half);
        e += d * d;
      }
      return e;
    };
    long double spread = U * U;
    for (auto& p : cloud)
      for (int d = 0; d < D; ++d) spread += p(d) * p(d);
    double tolE = (sizeof(T) == 4 ? 2e-4 : 1e-9) * (double)spread;
    int steps = (int)r.range(1, 4);
    for (int s = 0; s < steps; ++s) {
      X before = t;
      // correspondences of the current transformation (through associate, verified above)
      std::vector<A> model;
      for (auto& p : cloud) {
        A a = toBox(before, p);
        P q, nn;
        for (int d = 0; d < D; ++d) q(d) = (T)a[d];
        box.associate(q, nn);
        for (int d = 0; d < D; ++d) a[d] = nn(d);
        model.push_back(a);
      }
      VP copy = cloud;
      op("computeTransform");
      box.computeTransform(cloud, t);
      for (int i = 0; i < n; ++i)
        for (int d = 0; d < D; ++d) CHECK(cloud[i](d) == copy[i](d), "argument", "the cloud changed: ", what);
      rigid(t, "registration step", what);
      long double e0 = error(before), e1 = error(t);
      CHECK(e1 <= e0 + tolE, "descent", "registration step ", s, " raised the squared error from ", (double)e0, " to ", (double)e1, ": ", what);
      // optimality for these correspondences
      long double ms[D], md[D], S[D][D], q2 = 0, fit = 0;
      for (int d = 0; d < D; ++d) {
        ms[d] = md[d] = 0;
        for (int i = 0; i < n; ++i) {
          ms[d] += model[i][d] / n;
          md[d] += (long double)cloud[i](d) / n;
        }
      }
      for (int a = 0; a < D; ++a)
        for (int b = 0; b < D; ++b) {
          S[a][b] = 0;
          for (int i = 0; i < n; ++i) S[a][b] += (model[i][a] - ms[a]) * (cloud[i](b) - md[b]);
        }
      for (int i = 0; i < n; ++i)
        for (int d = 0; d < D; ++d) {
          q2 += (model[i][d] - ms[d]) * (model[i][d] - ms[d]) + (cloud[i](d) - md[d]) * (cloud[i](d) - md[d]);
          long double w = t.matrix()(d, D);
          for (int k = 0; k < D; ++k) w += (long double)t.matrix()(d, k) * model[i][k];
          fit += (w - cloud[i](d)) * (w - cloud[i](d));
        }
      long double best = std::max(0.0L, q2 - 2 * bestAlign<D>(S));
      // a point equally near to two faces may be associated to either: only clouds without such points decide optimality
      bool ambiguous = false;
      for (auto& p : cloud) {
        A a = toBox(before, p);
        bool in = true;
        for (int d = 0; d < D; ++d) in = in && fabsl(a[d]) < half[d] + 1e-3L * U;
        if (!in) continue;
        std::vector<long double> ds;
        for (int d = 0; d < D; ++d) {
          ds.push_back(fabsl(half[d] - a[d]));
          ds.push_back(fabsl(half[d] + a[d]));
        }
        std::sort(ds.begin(), ds.end());
        if (ds[1] - ds[0] < 1e-3L * U) ambiguous = true;
      }
      if (!ambiguous) {
        CHECK(fabsl(fit - best) <= tolE, "optimal", "registration step ", s, " leaves ", (double)fit, " on its own correspondences, the best rigid motion leaves ", (double)best, ": ", what);
        count("updates_optimal");
      }
      count("updates");
      if (flat == 1 || flat == 2 || n <= D) count("updates_flat_cloud");
    }
    sig(hashStr(cat(what, mean[0])));
    if (wantSample()) sample(what);
  }
};
namespace box {
#if VPART == 1
void f2(Rng& r) { Mon<float, 2>::run(r, "float"); }
#elif VPART == 2
void d2(Rng& r) { Mon<double, 2>::run(r, "double"); }
#elif VPART == 3
void f3(Rng& r) { Mon<float, 3>::run(r, "float"); }
#elif VPART == 4
void d3(Rng& r) { Mon<double, 3>::run(r, "double"); }
#endif
}
#endif
