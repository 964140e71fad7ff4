// C24: Hough transform and spectrum of lines against a direct count; detected lines against the definition of peak.
#include "vmon.h"

#include <rofl/geometry/hough_line_detector.h>

using namespace vmon;
using rofl::HoughLineDetector;
using rofl::Vector2;
typedef HoughLineDetector::Indices1 I1;
typedef HoughLineDetector::Indices2 I2;

struct Model {
  int nt, nr;
  double tMin, rMin, tRes, rRes;
  std::vector<uint64_t> lo, hi;
  int wt = 1, wr = 1;
  size_t at(int t, int r) const { return (size_t)t * nr + r; }
  void clear() { lo.assign((size_t)nt * nr, 0), hi = lo; }
  void add(const Vector2& q) {
    double x = q(0), y = q(1), len = std::fabs(x) + std::fabs(y);
    for (int t = 0; t < nt; ++t) {
      double th = tMin + tRes * t, rho = std::cos(th) * x + std::sin(th) * y, c = (rho - rMin) / rRes;
      double err = 3e-6 * (len + std::fabs(rMin)) / rRes + 1e-6 * std::fabs(c);
      double a = std::floor(c - err), b = std::floor(c + err);
      if (a == b) {
        if (a >= 0 && a < nr) lo[at(t, (int)a)]++, hi[at(t, (int)a)]++;
      } else {
        count("points at the border of a cell");
        for (double k = std::max(a, 0.0); k <= b && k < nr; k += 1) hi[at(t, (int)k)]++;
      }
    }
  }
};

template <typename It>
static std::vector<It> sorted(std::vector<It> v) {
  std::sort(v.begin(), v.end());
  return v;
}

static void observe(HoughLineDetector& h, const Model& m, const std::string& what) {
  op("getters");
  CHECK(h.getThetaNum() == m.nt && h.getRhoNum() == m.nr, "size", "sizes ", h.getThetaNum(), ",", h.getRhoNum(), ": ", what);
  std::vector<uint64_t> ht((size_t)m.nt * m.nr), hs(m.nt);
  for (int t = 0; t < m.nt; ++t) {
    uint64_t sum = 0;
    for (int r = 0; r < m.nr; ++r) {
      uint64_t v = h.getHoughTransform(t, r);
      size_t k = m.at(t, r);
      CHECK(h.getHoughTransform(I2{t, r}) == v, "getter", "the two forms of getHoughTransform disagree: ", what);
      CHECK(m.lo[k] <= v && v <= m.hi[k], "transform", "cell (", t, ",", r, ") holds ", v, " points, expected ", m.lo[k], m.lo[k] == m.hi[k] ? "" : cat(" to ", m.hi[k]), ": ", what);
      ht[k] = v;
      sum += v * v;
      if (v) count("occupied cells");
    }
    hs[t] = sum;
    CHECK(h.getHoughSpectrum(t) == sum, "spectrum", "spectrum ", t, " is ", h.getHoughSpectrum(t), ", the squared counts sum to ", sum, ": ", what);
  }
  count("cells compared", ht.size());
  std::vector<int> wantS;
  std::vector<I2> wantL;
  for (int t = 0; t < m.nt; ++t) {
    bool pk = true;
    for (int a = std::max(0, t - m.wt); a <= std::min(m.nt - 1, t + m.wt); ++a) pk = pk && (a == t || hs[a] < hs[t]);
    if (!pk) continue;
    wantS.push_back(t);
    for (int r = 0; r < m.nr; ++r) {
      bool ok = true;
      for (int c = std::max(0, r - m.wr); c <= std::min(m.nr - 1, r + m.wr); ++c) ok = ok && (c == r || ht[m.at(t, c)] < ht[m.at(t, r)]);
      if (ok) wantL.push_back(I2{t, r});
    }
  }
  op("findSpectrum*");
  std::vector<I1> i1;
  std::vector<int> ix, ix1;
  std::vector<float> an;
  rofl::VectorVector2 nm;
  std::vector<I2> ln;
  h.findSpectrumIndicesMax(i1);
  h.findSpectrumIndexMax(ix);
  h.findSpectrumAngleMax(an);
  h.findNormalMax(nm);
  for (auto& i : i1) ix1.push_back(i[0]);
  CHECK(sorted(ix1) == wantS && sorted(ix) == wantS, "spectrumMax", ix.size(), " spectrum peaks returned, ", wantS.size(), " exist: ", what);
  for (size_t i = 1; i < ix.size(); ++i) CHECK(hs[ix[i - 1]] >= hs[ix[i]] && hs[ix1[i - 1]] >= hs[ix1[i]], "order", "spectrum peaks are not returned best first: ", what);
  CHECK(an.size() == wantS.size() && nm.size() == wantS.size(), "spectrumMax", an.size(), " angles and ", nm.size(), " normals for ", wantS.size(), " peaks: ", what);
  an = sorted(an);
  for (size_t i = 0; i < an.size(); ++i) {
    double th = m.tMin + m.tRes * wantS[i];
    CHECK(std::fabs(an[i] - th) <= 5e-6, "angle", "angle ", an[i], " for the peak at ", th, ": ", what);
    bool any = false;
    for (auto& v : nm) any = any || (std::fabs(v(0) - std::cos(th)) <= 1e-5 && std::fabs(v(1) - std::sin(th)) <= 1e-5);
    CHECK(any, "normal", "no normal for the peak at angle ", th, ": ", what);
  }
  op("findLines");
  h.findLines(ln);
  CHECK(sorted(ln) == sorted(wantL), "lines", ln.size(), " lines returned, ", wantL.size(), " exist: ", what);
  count("lines detected", wantL.size());
  count("spectrum peaks", wantS.size());
}

static void init(Rng& r, HoughLineDetector& h, Model& m, bool first) {
  m.nt = (int)r.range(1, r.chance(0.3) ? 90 : 15);
  m.nr = (int)r.range(1, r.chance(0.3) ? 80 : 15);
  if (r.chance(0.05)) m.nr = (int)r.range(81, 600), m.nt = (int)r.range(1, 8);
  m.rRes = (float)(r.chance(0.3) ? 0.25 : r.uni(0.02, 3));
  if (r.chance(0.5)) {
    op("init");
    if (first) h = HoughLineDetector(m.nt, m.nr, (float)m.rRes);
    else h.init(m.nt, m.nr, (float)m.rRes);
    CHECK(h.getThetaMin() == 0 && h.getRhoMin() == 0 && std::fabs((double)h.getThetaRes() * m.nt - M_PI) <= 1e-5, "range", "default ranges from (", h.getThetaMin(), ",", h.getRhoMin(), ") in ", m.nt, " steps of ", h.getThetaRes(), " are not the half turn from the origin");
    count("default ranges");
  } else {
    float t0 = (float)r.uni(-3, 3), r0 = (float)(r.chance(0.3) ? 0 : r.uni(-10, 10)), tr = (float)r.uni(0.02, 6.3 / m.nt);
    op("init ranges");
    h.init(I2{m.nt, m.nr}, Vector2(t0, r0), Vector2(tr, (float)m.rRes));
    CHECK(h.getThetaMin() == t0 && h.getRhoMin() == r0 && h.getThetaRes() == tr, "range", "the ranges differ from those given to init");
    count("given ranges");
  }
  m.tMin = h.getThetaMin(), m.rMin = h.getRhoMin(), m.tRes = h.getThetaRes();
  CHECK(h.getRhoRes() == (float)m.rRes && m.tRes > 0, "range", "resolutions ", m.tRes, " and ", h.getRhoRes());
  m.clear();
}

static void window(Rng& r, HoughLineDetector& h, Model& m) {
  m.wt = (int)r.range(0, 4), m.wr = (int)r.range(0, 5);
  if (r.chance(0.1)) m.wt = (int)r.range(0, 100);
  if (r.chance(0.1)) m.wr = (int)r.range(0, 100);
  op("setPeakWindow");
  if (r.chance(0.5)) h.setPeakWindow(m.wt, m.wr);
  else h.setPeakWindow((float)((m.wt - 0.5 * (m.wt > 0)) * m.tRes), (float)((m.wr - 0.5 * (m.wr > 0)) * m.rRes));
}

const char* vmon_property() { return "C24"; }
uint64_t vmon_cases(bool thorough) { return thorough ? 40000 : 3000; }

// so many points in a cell that their squares exceed 32 bits
static void crowd(Rng& r) {
  HoughLineDetector h;
  Model m;
  m.nt = (int)r.range(1, 3), m.nr = 3, m.tMin = 0, m.rMin = 0, m.tRes = 0.25, m.rRes = 1;
  h.init(I2{m.nt, m.nr}, Vector2(0, 0), Vector2(0.25f, 1));
  m.clear();
  Vector2 a(0.5f, 0.25f), b(1.5f, 0.1f);
  Model one = m, two = m;
  one.add(a), two.add(b);
  for (int k = 0; k < 2; ++k) {
    rofl::VectorVector2 pts((size_t)r.range(33000, 70000), a);
    uint64_t na = pts.size(), nb = r.below(50);
    for (uint64_t i = 0; i < nb; ++i) pts.push_back(b);
    op("insert");
    h.insert(pts);
    for (size_t i = 0; i < m.lo.size(); ++i) m.lo[i] += na * one.lo[i] + nb * two.lo[i], m.hi[i] += na * one.hi[i] + nb * two.hi[i];
    observe(h, m, cat(k + 1, " insertions of ", na, "+", nb, " points"));
  }
  count("crowded cells");
}

void vmon_case(uint64_t idx, Rng& r) {
  if (idx % 500 == 250) return crowd(r);
  HoughLineDetector h;
  Model m;
  init(r, h, m, true);
  if (r.chance(0.8)) window(r, h, m);
  std::string hist;
  uint64_t total = 0;
  int steps = (int)r.range(1, 6);
  for (int s = 0; s < steps; ++s) {
    switch (r.below(5)) {
      case 0: case 1: case 2: {
        rofl::VectorVector2 pts;
        int n = (int)r.range(0, r.chance(0.03) ? 1500 : 30), kind = (int)r.below(4);
        double span = m.rRes * m.nr, th = m.tMin + m.tRes * (double)r.below(m.nt), rho = m.rMin + m.rRes * ((double)r.below(m.nr) + 0.5);
        for (int i = 0; i < n; ++i) {
          double x = r.uni(-span, span), y = r.uni(-span, span), u = r.uni(-span, span);
          switch (r.chance(0.2) ? 4 : kind) {
            case 0: x = rho * std::cos(th) - u * std::sin(th), y = rho * std::sin(th) + u * std::cos(th); break;
            case 1: x = m.rRes * (double)r.range(-6, 6), y = m.rRes * (double)r.range(-6, 6); break;
            case 2: {
              double e = (r.chance(0.5) ? m.rMin : m.rMin + span) + m.rRes * r.uni(-1, 1);
              x = e * std::cos(th), y = e * std::sin(th);
              break;
            }
            case 3: {
              double f = r.chance(0.5) ? 40 : std::pow(10.0, r.uni(2, 25));
              x *= f, y *= f;
              break;
            }
            default: break;
          }
          pts.push_back(Vector2((float)x, (float)y));
          m.add(pts.back());
        }
        op("insert");
        h.insert(pts);
        hist += cat("i", n);
        total += n;
        break;
      }
      case 3:
        op("setZero");
        h.setZero();
        m.clear();
        hist += "z";
        break;
      case 4:
        if (r.chance(0.5)) init(r, h, m, false), hist += "I";
        window(r, h, m);
        hist += "w";
        break;
    }
    observe(h, m, cat("history ", hist, " sizes ", m.nt, "x", m.nr, " ranges (", m.tMin, ",", m.rMin, ")+(", m.tRes, ",", m.rRes, ") windows ", m.wt, ",", m.wr));
  }
  count("histories");
  count("points inserted", total);
  require("occupied cells", 2000);
  require("lines detected", 500);
  if (total) sig(cat(idx, hist, m.nt, m.nr));
  if (wantSample()) sample(cat("history ", hist, " on ", m.nt, "x", m.nr, ", ", total, " points"));
}
