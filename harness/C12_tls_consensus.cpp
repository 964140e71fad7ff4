// C12: scalar consensus against direct enumeration of every consensus set.
#include <algorithm>
#include <cmath>
#include <vector>

#include "vmon.h"

#include <rofl/common/tls_scalar_consensus.h>

using namespace vmon;

template <typename S>
static void run(Rng& r, const char* ty) {
  int n = (int)(r.chance(0.1) ? r.range(60, 200) : r.range(1, 30));
  if (r.chance(0.05)) n = 1;
  int kind = (int)r.below(5);
  // the unit of measure: values, ranges and tolerances of the comparison follow it
  static const double UNITS[] = {1, 1, 10, 0.1, 0.01, 1e-3, 1e-4};
  double unit = UNITS[r.below(7)];
  if (sizeof(S) == 8 && r.chance(0.1)) unit = 1000;
  double center = r.uni(-20, 20);
  bool sameRange = r.chance(0.4);
  double rg = r.uni(0.1, 2);
  std::vector<S> v(n), w(n);
  const double GAP = unit * (sizeof(S) == 4 ? 1e-4 : 1e-8);
  std::vector<double> ends;
  for (int i = 0; i < n; ++i) {
    for (int attempt = 0;; ++attempt) {
      if (attempt > 200) {
        v.resize(i);
        w.resize(i);
        n = i;
        break;
      }
      double x;
      switch (kind) {
        case 0: x = r.chance(0.6) ? center + r.uni(-rg, rg) * 0.6 : r.uni(-30, 30); break;
        case 1: x = r.uni(-10, 10); break;
        case 2: x = (double)r.range(-3, 3) * 10 + r.gauss() * 0.3; break;
        case 3: x = center + i * 0.37; break;
        default: x = center + r.gauss() * 2;
      }
      S xv = (S)(unit * x), rv = (S)(unit * (sameRange ? rg : r.uni(0.1, 2)));
      double a = (double)(S)(xv - rv), b = (double)(S)(xv + rv);
      bool ok = true;
      for (double e : ends) ok = ok && std::fabs(e - a) > GAP && std::fabs(e - b) > GAP;
      if (!ok) continue;
      ends.push_back(a);
      ends.push_back(b);
      v[i] = xv;
      w[i] = rv;
      break;
    }
  }
  if (n == 0) return;
  std::string what = cat(ty, " values ", show(v), " ranges ", show(w));
  // candidates: the set of intervals open just after each endpoint
  struct Cand {
    long double mean, cost;
    int size;
  };
  std::vector<Cand> cands;
  long double best = 1e300L;
  std::sort(ends.begin(), ends.end());
  for (double e : ends) {
    long double sw = 0, swx = 0, sx = 0, sxx = 0, out = 0;
    int k = 0;
    for (int i = 0; i < n; ++i) {
      double a = (double)(S)(v[i] - w[i]), b = (double)(S)(v[i] + w[i]);
      if (a <= e && e < b) {
        long double wt = 1.0L / ((long double)w[i] * w[i]);
        sw += wt;
        swx += wt * v[i];
        sx += v[i];
        sxx += (long double)v[i] * v[i];
        ++k;
      } else {
        out += w[i];
      }
    }
    if (k == 0) continue;
    long double m = swx / sw;
    // residuals computed directly, not through the expanded square
    long double res = 0;
    for (int i = 0; i < n; ++i) {
      double a = (double)(S)(v[i] - w[i]), b = (double)(S)(v[i] + w[i]);
      if (a <= e && e < b) res += ((long double)v[i] - m) * ((long double)v[i] - m);
    }
    cands.push_back(Cand{m, res + out, k});
    best = std::min(best, res + out);
  }
  S got = 12345;
  std::vector<bool> in(r.below(5), true);
  op("estimateTranslationTls");
  std::vector<S> v0 = v, w0 = w;
  rofl::estimateTranslationTls<S>(v, w, got, in);
  CHECK(v == v0 && w == w0, "argument", "the inputs were modified: ", what);
  double tolM = unit * (sizeof(S) == 4 ? 2e-2 : 2e-9), tolC = std::max(unit, unit * unit) * (sizeof(S) == 4 ? 0.3 : 1e-6);
  bool ok = false;
  long double near = 1e300L, nearCost = 0;
  int size = 0;
  for (auto& c : cands) {
    long double d = std::fabs(c.mean - (long double)got);
    if (d < near) {
      near = d;
      nearCost = c.cost;
      size = c.size;
    }
    if (d <= tolM && c.cost <= best + tolC) ok = true;
  }
  maximum(sizeof(S) == 4 ? "mean_error_float" : "mean_error_double_over_tolerance", (double)near / (sizeof(S) == 4 ? 1 : tolM));
  CHECK(ok, "consensus", "returned ", got, "; the nearest consensus mean has cost ", (double)nearCost, " (distance ", (double)near, ") but the least cost is ", (double)best, ": ", what);
  CHECK((int)in.size() == n, "inliers", "inliers has ", in.size(), " entries for ", n, " values: ", what);
  int nin = 0;
  for (int i = 0; i < n; ++i) {
    double dist = std::fabs((double)v[i] - (double)got), edge = unit * (sizeof(S) == 4 ? 1e-4 : 1e-10);
    if (in[i]) ++nin;
    if (std::fabs(dist - (double)w[i]) < edge) continue;
    CHECK((bool)in[i] == (dist < (double)w[i]), "inliers", "value ", v[i], " at distance ", dist, " from the estimate ", got, " with range ", w[i], " is marked ", (bool)in[i], ": ", what);
  }
  count("estimates");
  count(ty);
  if (unit < 0.005) count("small_ranges");
  count("inliers", nin);
  count("outliers", n - nin);
  maximum("consensus_size", size);
  if (n >= 2) sig(hashStr(what));
  if (wantSample()) sample(cat(what, " -> ", got, " inliers ", nin));
}

// many measurements: the same sweep over sorted endpoints, in extended precision
template <typename S>
static void many(Rng& r, const char* ty) {
  int n = (int)r.range(33000, 70000);
  std::vector<S> v(n), w(n);
  double center = r.uni(-5, 5), share = r.uni(0.05, 0.6);
  // a majority of measurements on a fine lattice of distinct endpoints, the agreeing ones around the center
  for (int i = 0; i < n; ++i) {
    v[i] = (S)(r.chance(share) ? center + r.uni(-0.3, 0.3) : r.uni(-400, 400));
    w[i] = (S)r.uni(0.5, 1.0);
  }
  typedef std::pair<long double, int> End;
  std::vector<End> e;
  for (int i = 0; i < n; ++i) {
    e.push_back(End((S)(v[i] - w[i]), i + 1));
    e.push_back(End((S)(v[i] + w[i]), -i - 1));
  }
  std::sort(e.begin(), e.end());
  long double sw = 0, swx = 0, sx = 0, sxx = 0, out = 0, best = 1e300L;
  long k = 0;
  for (int i = 0; i < n; ++i) out += w[i];
  std::vector<std::pair<long double, long double>> cands;
  for (auto& q : e) {
    int i = std::abs(q.second) - 1, s = q.second > 0 ? 1 : -1;
    long double wt = 1.0L / ((long double)w[i] * w[i]), x = (long double)v[i] - center;
    k += s;
    sw += s * wt;
    swx += s * wt * x;
    sx += s * x;
    sxx += s * x * x;
    out -= s * (long double)w[i];
    if (k == 0) continue;
    long double m = swx / sw, c = k * m * m + sxx - 2 * sx * m + out;
    cands.push_back({m + center, c});
    best = std::min(best, c);
  }
  S got = 0;
  std::vector<bool> in;
  op("estimateTranslationTls many");
  rofl::estimateTranslationTls<S>(v, w, got, in);
  long double reached = 1e300L;
  for (auto& c : cands)
    if (fabsl(c.first - (long double)got) <= 1e-6L) reached = std::min(reached, c.second);
  CHECK(reached <= best + 1e-3L, "consensus", ty, " of ", n, " measurements around ", center, ": returned ", got, " of cost ", (double)reached, ", the least is ", (double)best);
  CHECK((int)in.size() == n, "inliers", "inliers has ", in.size(), " entries for ", n, " values");
  for (int i = 0; i < n; ++i) {
    double dist = std::fabs((double)v[i] - (double)got);
    if (std::fabs(dist - (double)w[i]) < 1e-10) continue;
    CHECK((bool)in[i] == (dist < (double)w[i]), "inliers", "value ", v[i], " (number ", i, " of ", n, ") at distance ", dist, " from ", got, " with range ", w[i], " is marked ", (bool)in[i]);
  }
  count("many");
  sig(comb(hashStr(ty), n));
}

// measurements on the border of their range: just inside, just outside and exactly at it (exact in binary)
static void border(Rng& r) {
  int m = 1 << r.range(1, 5);
  double R = std::ldexp((double)r.range(1, 15), -(int)r.range(4, 8)), c = std::ldexp((double)r.range(-200, 200), -2);
  if (R >= 0.9) R = 0.5;
  double rel = r.pick(std::vector<double>{0, 1e-9, -1e-9, 1e-8, -1e-8, 1e-7, -1e-7, 1e-6, -1e-6});
  std::vector<double> v, w;
  // m equal measurements at c and one at distance x: their mean is c + x / (m + 1), its distance x m / (m + 1)
  double x = R * (m + 1) / m * (1 + rel) * (r.chance(0.5) ? 1 : -1);
  for (int i = 0; i < m; ++i) {
    v.push_back(c);
    w.push_back(R);
  }
  v.insert(v.begin() + (long)r.below(m + 1), c + x);
  w.push_back(R);
  double got = 0;
  std::vector<bool> in;
  op("estimateTranslationTls border");
  rofl::estimateTranslationTls<double>(v, w, got, in);
  CHECK(in.size() == v.size(), "inliers", "inliers has ", in.size(), " entries for ", v.size(), " values");
  for (size_t i = 0; i < v.size(); ++i) {
    long double dist = fabsl((long double)v[i] - got);
    bool exact = dist == (long double)w[i] && (double)(v[i] - got) == v[i] - got && std::fabs(got * 65536) == std::floor(std::fabs(got * 65536));
    if (!exact && fabsl(dist - w[i]) < 1e-12) continue;
    CHECK((bool)in[i] == (dist < w[i]), "inliers", "value ", v[i], " at distance ", (double)dist, " from the estimate ", got, " with range ", w[i], " (difference ", (double)(dist - w[i]), ") is marked ", (bool)in[i]);
    if (fabsl(dist - w[i]) < 1e-5) count(exact ? "border_exact" : "border_near");
  }
}

const char* vmon_property() { return "C12"; }
uint64_t vmon_cases(bool thorough) { return thorough ? 400000 : 20000; }
void vmon_case(uint64_t idx, Rng& r) {
  require("estimates", 1000);
  require("outliers", 1000);
  require("small_ranges", 1000);
  if (idx % 5000 == 1) return many<double>(r, "double");
  require("border_near", 100);
  require("border_exact", 20);
  if (idx % 10 == 4) return border(r);
  if (idx % 3 == 0) run<float>(r, "float"); else run<double>(r, "double");
}
