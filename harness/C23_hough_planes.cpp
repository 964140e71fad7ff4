// C23: Hough transform and spectrum of planes against a direct count in long double; detected planes against the definition of peak.
#include "vmon.h"

#include <list>

#include <rofl/geometry/hough_plane_detector.h>

using namespace vmon;
using rofl::HoughPlaneDetector;
using rofl::Vector3;
typedef HoughPlaneDetector::Indices2 I2;
typedef HoughPlaneDetector::Indices3 I3;

struct Model {
  int nt, np, nr;
  double tMin, pMin, rMin, tRes, pRes, rRes;
  std::vector<uint64_t> lo, hi;  // certain and possible counts per cell
  std::vector<double> n;         // normals
  int wt = 1, wp = 1, wr = 1;
  size_t at(int t, int p, int r) const { return ((size_t)t * np + p) * nr + r; }
  void shape() {
    lo.assign((size_t)nt * np * nr, 0);
    hi = lo;
    n.resize((size_t)nt * np * 3);
    for (int t = 0; t < nt; ++t)
      for (int p = 0; p < np; ++p) {
        double th = tMin + tRes * t, ph = pMin + pRes * p;
        double* v = &n[((size_t)t * np + p) * 3];
        v[0] = std::cos(th) * std::cos(ph), v[1] = std::cos(th) * std::sin(ph), v[2] = std::sin(th);
      }
  }
  void clear() {
    std::fill(lo.begin(), lo.end(), 0);
    std::fill(hi.begin(), hi.end(), 0);
  }
  void add(const Vector3& q) {
    double x = q(0), y = q(1), z = q(2), len = std::fabs(x) + std::fabs(y) + std::fabs(z);
    for (int t = 0; t < nt; ++t)
      for (int p = 0; p < np; ++p) {
        const double* v = &n[((size_t)t * np + p) * 3];
        double rho = v[0] * x + v[1] * y + v[2] * z;
        double err = 3e-6 * (len + std::fabs(rMin)) / rRes + 1e-6 * std::fabs((rho - rMin) / rRes);  // angles, products and division in float
        double c = (rho - rMin) / rRes;
        double a = std::floor(c - err), b = std::floor(c + err);
        if (a == b) {
          if (a >= 0 && a < nr) lo[at(t, p, (int)a)]++, hi[at(t, p, (int)a)]++;
        } else {
          count("points at the border of a cell");
          for (double k = std::max(a, 0.0); k <= b && k < nr; k += 1) hi[at(t, p, (int)k)]++;
        }
      }
  }
};

template <typename It>
static std::vector<It> sorted(std::vector<It> v) {
  std::sort(v.begin(), v.end());
  return v;
}

static void observe(HoughPlaneDetector& h, const Model& m, const std::string& what) {
  op("getters");
  CHECK(h.getThetaNum() == m.nt && h.getPhiNum() == m.np && h.getRhoNum() == m.nr, "size", "sizes ", h.getThetaNum(), ",", h.getPhiNum(), ",", h.getRhoNum(), ": ", what);
  std::vector<uint64_t> ht((size_t)m.nt * m.np * m.nr), hs((size_t)m.nt * m.np);
  uint64_t occupied = 0;
  for (int t = 0; t < m.nt; ++t)
    for (int p = 0; p < m.np; ++p) {
      uint64_t sum = 0;
      for (int r = 0; r < m.nr; ++r) {
        uint64_t v = h.getHoughTransform(t, p, r);
        size_t k = m.at(t, p, r);
        CHECK(h.getHoughTransform(I3{t, p, r}) == v, "getter", "the two forms of getHoughTransform disagree: ", what);
        CHECK(m.lo[k] <= v && v <= m.hi[k], "transform", "cell (", t, ",", p, ",", r, ") holds ", v, " points, expected ", m.lo[k], m.lo[k] == m.hi[k] ? "" : cat(" to ", m.hi[k]), ": ", what);
        ht[k] = v;
        sum += v * v;
        occupied += v > 0;
      }
      hs[(size_t)t * m.np + p] = sum;
      CHECK(h.getHoughSpectrum(t, p) == sum && h.getHoughSpectrum(I2{t, p}) == sum, "spectrum", "spectrum (", t, ",", p, ") is ", h.getHoughSpectrum(t, p), ", the squared counts sum to ", sum, ": ", what);
      const Vector3& nv = h.getNormal(t, p);
      const double* w = &m.n[((size_t)t * m.np + p) * 3];
      for (int d = 0; d < 3; ++d) CHECK(std::fabs(nv(d) - w[d]) <= 5e-6 && h.getNormal(I2{t, p})(d) == nv(d), "normal", "normal (", t, ",", p, ") component ", d, " is ", nv(d), " expected ", w[d], ": ", what);
    }
  count("cells compared", ht.size());
  count("occupied cells", occupied);

  auto peak2 = [&](int t, int p) {
    for (int a = std::max(0, t - m.wt); a <= std::min(m.nt - 1, t + m.wt); ++a)
      for (int b = std::max(0, p - m.wp); b <= std::min(m.np - 1, p + m.wp); ++b)
        if ((a != t || b != p) && hs[(size_t)a * m.np + b] >= hs[(size_t)t * m.np + p]) return false;
    return true;
  };
  auto peak1 = [&](int t, int p, int r) {
    for (int c = std::max(0, r - m.wr); c <= std::min(m.nr - 1, r + m.wr); ++c)
      if (c != r && ht[m.at(t, p, c)] >= ht[m.at(t, p, r)]) return false;
    return true;
  };
  std::vector<I2> wantS;
  std::vector<I3> wantP;
  for (int t = 0; t < m.nt; ++t)
    for (int p = 0; p < m.np; ++p)
      if (peak2(t, p)) {
        wantS.push_back(I2{t, p});
        for (int r = 0; r < m.nr; ++r)
          if (peak1(t, p, r)) wantP.push_back(I3{t, p, r});
      }
  op("findSpectrumMax");
  std::vector<I2> gotS;
  h.findSpectrumMax(gotS);
  CHECK(sorted(gotS) == sorted(wantS), "spectrumMax", gotS.size(), " spectrum peaks returned, ", wantS.size(), " exist: ", what);
  for (size_t i = 1; i < gotS.size(); ++i) CHECK(h.getHoughSpectrum(gotS[i - 1]) >= h.getHoughSpectrum(gotS[i]), "order", "spectrum peaks are not returned best first: ", what);
  op("findNormalMax");
  rofl::VectorVector3 normals(2, Vector3(7, 7, 7));
  h.findNormalMax(normals);
  CHECK(normals.size() == wantS.size(), "normalMax", normals.size(), " normals for ", wantS.size(), " spectrum peaks: ", what);
  {
    std::vector<std::array<float, 3>> a, b;
    for (auto& v : normals) a.push_back({v(0), v(1), v(2)});
    for (auto& s : wantS) b.push_back({h.getNormal(s)(0), h.getNormal(s)(1), h.getNormal(s)(2)});
    CHECK(sorted(a) == sorted(b), "normalMax", "the normals are not those of the spectrum peaks: ", what);
  }
  op("findPlanes");
  std::vector<I3> gotP;
  h.findPlanes(gotP);
  CHECK(sorted(gotP) == sorted(wantP), "planes", gotP.size(), " planes returned, ", wantP.size(), " exist: ", what);
  for (size_t i = 1; i < gotP.size(); ++i) CHECK(h.getHoughTransform(gotP[i - 1]) >= h.getHoughTransform(gotP[i]), "order", "planes are not returned best first: ", what);
  auto key = [](const HoughPlaneDetector::PlaneParam& q) { return std::array<float, 4>{q(0), q(1), q(2), q(3)}; };
  auto param = [&](const I3& i) {
    HoughPlaneDetector::PlaneParam q = h.getPlaneParam(i), q2 = h.getPlaneParam(i[0], i[1], i[2]);
    const double* w = &m.n[((size_t)i[0] * m.np + i[1]) * 3];
    double rho = m.rMin + m.rRes * i[2];
    for (int d = 0; d < 3; ++d) CHECK(std::fabs(q(d) - w[d]) <= 5e-6, "param", "plane (", i[0], ",", i[1], ",", i[2], ") has normal component ", q(d), ": ", what);
    CHECK(std::fabs(q(3) + rho) <= 1e-5 * (std::fabs(rho) + std::fabs(m.rMin)) + 1e-7, "param", "plane (", i[0], ",", i[1], ",", i[2], ") has offset ", q(3), " expected ", -rho, ": ", what);
    CHECK((q - q2).cwiseAbs().maxCoeff() <= 1e-6 * (1 + std::fabs(rho)), "param", "the two forms of getPlaneParam disagree for (", i[0], ",", i[1], ",", i[2], "): ", q(3), " and ", q2(3), ": ", what);
    return key(q);
  };
  std::vector<std::array<float, 4>> wantQ, gotQ;
  for (auto& i : wantP) wantQ.push_back(param(i));
  HoughPlaneDetector::VectorPlaneParam planes((wantP.size() * 7) % 5 * 20, HoughPlaneDetector::PlaneParam(7, 7, 7, 7));
  h.findPlanes(planes);
  for (auto& q : planes) gotQ.push_back(key(q));
  CHECK(sorted(gotQ) == sorted(wantQ), "planeParams", "the plane parameters are not those of the detected planes: ", what);
  count("planes detected", wantP.size());
  count("spectrum peaks", wantS.size());
  // parallel planes of any direction, into a list that is not empty
  for (int k = 0; k < 3; ++k) {
    int t = (int)(hs.size() * 7 + k * 5 + ht.size()) % m.nt, p = (int)(k * 3 + occupied) % m.np;
    op("findParallelPlanes");
    std::vector<I3> got(1, I3{0, 0, 0}), want;
    h.findParallelPlanes(t, p, got);
    for (int r = 0; r < m.nr; ++r)
      if (peak1(t, p, r)) want.push_back(I3{t, p, r});
    CHECK(sorted(got) == sorted(want), "parallel", got.size(), " parallel planes of (", t, ",", p, ") returned, ", want.size(), " exist: ", what);
    HoughPlaneDetector::VectorPlaneParam q(k * 8, HoughPlaneDetector::PlaneParam(7, 7, 7, 7));
    h.findParallelPlanes(t, p, q);
    std::vector<std::array<float, 4>> a, b;
    for (auto& x : q) a.push_back(key(x));
    for (auto& i : want) b.push_back(param(i));
    CHECK(sorted(a) == sorted(b), "parallel", "the parameters are not those of the parallel planes of (", t, ",", p, "): ", what);
  }
}

static rofl::VectorVector3 cloud(Rng& r, const Model& m) {
  rofl::VectorVector3 pts;
  int n = (int)r.range(0, 25);
  double span = m.rRes * m.nr;
  int kind = (int)r.below(5);
  // a plane of the parameter space
  const double* w = &m.n[r.below((uint64_t)m.nt * m.np) * 3];
  double rho = m.rMin + m.rRes * ((double)r.below(m.nr) + 0.5);
  for (int i = 0; i < n; ++i) {
    double x = r.uni(-span, span), y = r.uni(-span, span), z = r.uni(-span, span);
    double c = x * w[0] + y * w[1] + z * w[2];
    switch (r.chance(0.2) ? 5 : kind) {
      case 0: x += (rho - c) * w[0], y += (rho - c) * w[1], z += (rho - c) * w[2]; break;
      case 1: x = m.rRes * (double)r.range(-5, 5), y = m.rRes * (double)r.range(-5, 5), z = m.rRes * (double)r.range(-5, 5); break;
      case 2: {  // just around the first or the last distance of the domain
        double e = (r.chance(0.5) ? m.rMin : m.rMin + span) + m.rRes * r.uni(-1, 1);
        x = e * w[0], y = e * w[1], z = e * w[2];
        break;
      }
      case 3: if (!pts.empty()) { pts.push_back(pts[r.below(pts.size())]); continue; } break;
      case 4: {
        double f = r.chance(0.5) ? 50 : std::pow(10.0, r.uni(2, 25));
        x *= f, y *= f, z *= f;
        break;
      }
      default: break;
    }
    pts.push_back(Vector3((float)x, (float)y, (float)z));
  }
  return pts;
}

static void init(Rng& r, HoughPlaneDetector& h, Model& m, bool first) {
  const bool same = !first && r.chance(0.4);  // other ranges for the same sizes
  const int nt = m.nt, np = m.np, nr = m.nr;
  m.nt = (int)r.range(1, r.chance(0.3) ? 12 : 6);
  m.np = (int)r.range(1, r.chance(0.3) ? 24 : 10);
  m.nr = (int)r.range(1, r.chance(0.3) ? 40 : 12);
  if (r.chance(0.05)) m.nr = (int)r.range(41, 400), m.nt = (int)r.range(1, 3), m.np = (int)r.range(1, 4);
  if (r.chance(0.03)) m.nt = (int)r.range(12, 40), m.np = (int)r.range(24, 70), m.nr = (int)r.range(1, 6), count("many directions");
  if (same) m.nt = nt, m.np = np, m.nr = nr, count("initialised again with the same sizes");
  m.rRes = (float)(r.chance(0.3) ? 0.25 : r.uni(0.02, 3));
  if (r.chance(0.5)) {
    op("init");
    if (first) h = HoughPlaneDetector(m.nt, m.np, m.nr, (float)m.rRes);
    else h.init(m.nt, m.np, m.nr, (float)m.rRes);
    // a half sphere of normals (every plane once) and distances of both signs
    auto near = [](double a, double b) { return std::fabs(a - b) <= 1e-5 * (1 + std::fabs(b)); };
    CHECK(near(h.getThetaMin(), 0) && near((double)h.getThetaRes() * m.nt, M_PI / 2), "range", "default latitudes from ", h.getThetaMin(), " in ", m.nt, " steps of ", h.getThetaRes(), " do not cover the half sphere");
    CHECK(near(h.getPhiMin(), 0) && near((double)h.getPhiRes() * m.np, 2 * M_PI), "range", "default longitudes from ", h.getPhiMin(), " in ", m.np, " steps of ", h.getPhiRes(), " do not cover the turn");
    CHECK(std::fabs(h.getRhoMin() + 0.5 * m.nr * m.rRes) <= 0.51 * m.rRes + 1e-5 * m.nr * m.rRes, "range", "default distances from ", h.getRhoMin(), " in ", m.nr, " steps of ", m.rRes, " are not centred on zero");
    count("default ranges");
  } else {
    float t0 = (float)r.uni(-1.6, 0.5), p0 = (float)r.uni(-3, 3), r0 = (float)(r.chance(0.3) ? 0 : r.uni(-10, 10)), tr = (float)r.uni(0.02, 3.1 / m.nt), pr = (float)r.uni(0.02, 6.3 / m.np);
    op("init ranges");
    h.init(I3{m.nt, m.np, m.nr}, Vector3(t0, p0, r0), Vector3(tr, pr, (float)m.rRes));
    CHECK(h.getThetaMin() == t0 && h.getPhiMin() == p0 && h.getRhoMin() == r0 && h.getThetaRes() == tr && h.getPhiRes() == pr, "range", "the ranges differ from those given to init");
    count("given ranges");
  }
  m.tMin = h.getThetaMin(), m.pMin = h.getPhiMin(), m.rMin = h.getRhoMin();
  m.tRes = h.getThetaRes(), m.pRes = h.getPhiRes();
  CHECK(h.getRhoRes() == (float)m.rRes, "range", "distance resolution ", h.getRhoRes(), " instead of ", m.rRes);
  CHECK(m.tRes > 0 && m.pRes > 0, "range", "angular resolutions ", m.tRes, " and ", m.pRes);
  m.shape();
}

static void window(Rng& r, HoughPlaneDetector& h, Model& m) {
  m.wt = (int)r.range(0, 3), m.wp = (int)r.range(0, 4), m.wr = (int)r.range(0, 5);
  op("setPeakWindow");
  if (r.chance(0.5)) h.setPeakWindow(m.wt, m.wp, m.wr);
  else h.setPeakWindow((float)((m.wt - 0.5 * (m.wt > 0)) * m.tRes), (float)((m.wp - 0.5 * (m.wp > 0)) * m.pRes), (float)((m.wr - 0.5 * (m.wr > 0)) * m.rRes));
}

const char* vmon_property() { return "C23"; }
uint64_t vmon_cases(bool thorough) { return thorough ? 40000 : 4000; }

// so many points in a cell that their squares exceed 32 bits
static void crowd(Rng& r) {
  HoughPlaneDetector h;
  Model m;
  m.nt = 1, m.np = (int)r.range(1, 2), m.nr = 3;
  m.tMin = 0, m.pMin = 0, m.rMin = 0, m.tRes = 0.25, m.pRes = 0.5, m.rRes = 1;
  h.init(I3{m.nt, m.np, m.nr}, Vector3(0, 0, 0), Vector3(0.25f, 0.5f, 1));
  m.shape();
  Vector3 a(0.5f, 0.25f, 0.1f), b(1.5f, 0, 3);
  Model one = m, two = m;
  one.add(a), two.add(b);
  for (int k = 0; k < 2; ++k) {
    rofl::VectorVector3 pts((size_t)r.range(33000, 70000), a);
    uint64_t na = pts.size(), nb = r.below(50);
    for (uint64_t i = 0; i < nb; ++i) pts.push_back(b);
    op("insert");
    h.insert(pts);
    for (size_t i = 0; i < m.lo.size(); ++i) m.lo[i] += na * one.lo[i] + nb * two.lo[i], m.hi[i] += na * one.hi[i] + nb * two.hi[i];
    observe(h, m, cat(k + 1, " insertions of ", na, "+", nb, " points"));
  }
  count("crowded cells");
}

void vmon_case(uint64_t idx, Rng& r) {
  if (idx % 500 == 250) return crowd(r);
  HoughPlaneDetector h;
  Model m;
  init(r, h, m, true);
  if (r.chance(0.8)) window(r, h, m);
  int steps = (int)r.range(1, 6);
  std::string hist;
  uint64_t total = 0;
  for (int s = 0; s < steps; ++s) {
    auto pts = cloud(r, m);
    switch (r.below(6)) {
      case 0: case 1: case 2:
        op("insert");
        h.insert(pts);
        for (auto& p : pts) m.add(p);
        hist += cat("i", pts.size());
        total += pts.size();
        break;
      case 3: {
        op("insert range");
        std::list<std::array<double, 4>> l;
        for (auto& p : pts) l.push_back({9.0, (double)p(0), (double)p(1), (double)p(2)});
        h.insert(l.begin(), l.end(), [](const std::array<double, 4>& a) { return Vector3((float)a[1], (float)a[2], (float)a[3]); });
        m.clear();
        for (auto& p : pts) m.add(p);
        hist += cat("r", pts.size());
        total += pts.size();
        count("insertions from a range");
        break;
      }
      case 4:
        op("setZero");
        h.setZero();
        m.clear();
        hist += "z";
        break;
      case 5:
        if (r.chance(0.5)) init(r, h, m, false), hist += "I";
        window(r, h, m);
        hist += "w";
        break;
    }
    observe(h, m, cat("history ", hist, " sizes ", m.nt, "x", m.np, "x", m.nr, " ranges (", m.tMin, ",", m.pMin, ",", m.rMin, ")+(", m.tRes, ",", m.pRes, ",", m.rRes, ") windows ", m.wt, ",", m.wp, ",", m.wr));
  }
  count("histories");
  count("points inserted", total);
  require("occupied cells", 2000);
  require("planes detected", 500);
  if (total) sig(cat(idx, hist, m.nt, m.np, m.nr));
  if (wantSample()) sample(cat("history ", hist, " on ", m.nt, "x", m.np, "x", m.nr, ", ", total, " points"));
}
