// C22: correspondence graph association against exhaustive search of the largest mutually coherent associations.
#include "vmon.h"

#include <list>

#include <rofl/geometry/correspondence_graph_association.h>

using namespace vmon;
using rofl::CorrespondenceGraphAssociation;
typedef std::vector<std::pair<int, int>> Assoc;

// all largest sets of pairs (source, destination) that are pairwise compatible, by recursion over the source items
struct Search {
  int ns, nd;
  std::vector<std::vector<char>> adj;
  std::vector<Assoc> best;
  size_t size = 0;
  Assoc cur;
  uint64_t visited = 0;
  void go(int s) {
    if (++visited > 3000000) throw HarnessError("reference search too large");
    if (cur.size() + (ns - s) < size) return;
    if (s == ns) {
      if (cur.size() > size) {
        size = cur.size();
        best.clear();
      }
      if (cur.size() == size && size > 0) best.push_back(cur);
      return;
    }
    for (int d = 0; d < nd; ++d) {
      bool ok = true;
      for (auto& c : cur) ok = ok && adj[c.first * nd + c.second][s * nd + d];
      if (!ok) continue;
      cur.push_back({s, d});
      go(s + 1);
      cur.pop_back();
    }
    go(s + 1);
  }
};

static std::vector<rofl::Vector2> points(Rng& r, int n, int kind) {
  std::vector<rofl::Vector2> p(n);
  for (auto& x : p) {
    switch (kind) {
      case 0: x << (float)r.uni(-5, 5), (float)r.uni(-5, 5); break;
      case 1: x << (float)r.range(0, 2), (float)r.range(0, 2); break;
      default: x << (float)r.range(-4, 4), 0.f;
    }
  }
  return p;
}

static void run(Rng& r) {
  CorrespondenceGraphAssociation corr;
  int rounds = r.chance(0.4) ? 2 : 1;
  auto norm2 = [](const rofl::Vector2& a, const rofl::Vector2& b) -> rofl::Scalar { return (b - a).norm(); };
  int lim = ctx().thorough ? 6 : 5;
  bool big = r.chance(0.04), table = !big && r.chance(0.15);  // items known only by their distances
    // larger sets of generic points: a sparse graph with a large common part
  for (int round = 0; round < rounds; ++round) {
    int kind = big ? 0 : (int)r.below(3);
    int ns = big ? (int)r.range(6, 11) : (int)r.range(1, table ? 6 : lim), nd = big ? (int)r.range(6, 11) : (int)r.range(1, table ? 6 : lim);
    if (table) kind = 3;
    // the unit of length does not matter
    float unit = r.chance(0.3) ? r.pick(std::vector<float>{1e-3f, 0.02f, 50.f, 1e4f}) : 1.0f;
    float tol = r.pick(std::vector<float>{0.1f, 0.05f, 0.3f, 0.55f}), dmin = r.chance(0.3) ? (float)r.pick(std::vector<double>{0.7, 1.2, 2.1}) : 0.0f;
    auto src = points(r, ns, kind), dst = points(r, nd, kind);
    std::vector<std::vector<float>> ts(ns, std::vector<float>(ns, 0)), td(nd, std::vector<float>(nd, 0));
    if (table) {
      int values = (int)r.pick(std::vector<int>{1, 1, 2, 3}), twin = r.chance(0.3);
      for (int a = 0; a < ns; ++a)
        for (int b = 0; b < a; ++b) ts[a][b] = ts[b][a] = unit * (float)r.range(1, values);
      for (int a = 0; a < nd; ++a)
        for (int b = 0; b < a; ++b) td[a][b] = td[b][a] = twin && a < ns ? ts[a][b] : unit * (float)r.range(1, values);
      if (dmin > 0) dmin = r.chance(0.5) ? 0.7f : 1.2f;
      if (values == 1 && dmin > 1) dmin = 0;
      count("distance tables");
    }
    if (big) tol = 0.01f, dmin = 0;
    const bool exact = big && r.chance(0.4);
    if (big || r.chance(0.6)) {  // a moved subset of the source with outliers
      float a = (float)r.uni(-3, 3), tx = (float)r.uni(-5, 5), ty = (float)r.uni(-5, 5);
      for (int i = 0; i < nd && i < ns; ++i)
        if (big ? exact || i > 0 : r.chance(0.8)) {
          int j = big ? i : (int)r.below(ns);
          dst[i] << std::cos(a) * src[j](0) - std::sin(a) * src[j](1) + tx, std::sin(a) * src[j](0) + std::cos(a) * src[j](1) + ty;
        }
    }
    if (big) {
      std::vector<rofl::Vector2> sh(dst);
      r.shuffle(sh);
      dst = sh;
    }
    tol *= unit, dmin *= unit;
    for (auto& p : src) p *= unit;
    for (auto& p : dst) p *= unit;
    // compatibility; a case with a distance difference within rounding of the tolerance is not decided
    Search s;
    s.ns = ns;
    s.nd = nd;
    s.adj.assign(ns * nd, std::vector<char>(ns * nd, 0));
    bool ambiguous = false;
    int edges = 0;
    for (int a = 0; a < ns; ++a)
      for (int b = 0; b < ns; ++b)
        for (int c = 0; c < nd; ++c)
          for (int d = 0; d < nd; ++d) {
            if (a == b || c == d) continue;
            double ds = table ? ts[a][b] : (src[a] - src[b]).norm(), dd = table ? td[c][d] : (dst[c] - dst[d]).norm(), diff = std::fabs(ds - dd);
            if (std::fabs(diff - tol) < 1e-4 * unit || (std::fabs(ds - dmin) < 1e-4 * unit && ds != 0)) ambiguous = true;
            if (ds > dmin && diff < tol) {
              s.adj[a * nd + c][b * nd + d] = 1;
              ++edges;
            }
          }
    if (ambiguous) {
      count("ambiguous_skipped");
      continue;
    }
    s.go(0);
    std::string what = cat(ns, " source and ", nd, " destination points, kind ", kind, " tolerance ", tol, " minimum distance ", dmin, ", ", edges / 2, " compatible pairs, round ", round);
    op("insertSrc/insertDst");
    corr.setTolerance(tol);
    corr.setDistanceMin(dmin);
    if (table) {
      std::vector<int> is(ns), id(nd);
      for (int i = 0; i < ns; ++i) is[i] = i;
      for (int i = 0; i < nd; ++i) id[i] = i;
      corr.insertSrc(is.begin(), is.end(), [&](int a, int b) -> rofl::Scalar { return ts[a][b]; });
      corr.insertDst(id.begin(), id.end(), [&](int a, int b) -> rofl::Scalar { return td[a][b]; });
    } else if (r.chance(0.3)) {  // any forward range works
      std::list<rofl::Vector2> ls(src.begin(), src.end());
      corr.insertSrc(ls.begin(), ls.end(), norm2);
      corr.insertDst(dst.begin(), dst.end(), norm2);
    } else if (r.chance(0.5)) {
      corr.insertDst(dst.begin(), dst.end(), norm2);
      corr.insertSrc(src.begin(), src.end(), norm2);
    } else {
      corr.insertSrc(src.begin(), src.end(), norm2);
      corr.insertDst(dst.begin(), dst.end(), norm2);
    }
    int repeats = r.chance(0.3) ? 2 : 1;
    for (int k = 0; k < repeats; ++k) {
      std::vector<CorrespondenceGraphAssociation::AssociationHypothesis> out(r.below(3));
      op("associate");
      corr.associate(out);
      std::set<Assoc> got, want;
      for (auto& h : out) {
        Assoc a = h.associations;
        std::sort(a.begin(), a.end());
        for (auto& p : a) CHECK(p.first >= 0 && p.first < ns && p.second >= 0 && p.second < nd, "range", "association (", p.first, ",", p.second, ") out of range: ", what);
        for (size_t i = 0; i < a.size(); ++i)
          for (size_t j = i + 1; j < a.size(); ++j)
            CHECK(s.adj[a[i].first * nd + a[i].second][a[j].first * nd + a[j].second], "coherent", "associations (", a[i].first, ",", a[i].second, ") and (", a[j].first, ",", a[j].second, ") are not coherent: ", what);
        CHECK(a.size() == s.size, "maximum", "association of ", a.size(), " pairs, the largest coherent one has ", s.size, ": ", what);
        CHECK(got.insert(a).second, "duplicate", "the same association is returned twice: ", what);
      }
      for (auto& b : s.best) want.insert(b);
      CHECK(got == want, "complete", got.size(), " associations returned, ", want.size(), " largest coherent ones exist: ", what);
      if (r.chance(0.5)) {
        std::vector<rofl::LabelSet> cl;
        if (r.chance(0.5)) {  // a list with previous results, also larger or smaller than the new ones
          std::vector<int> old(r.below(8));
          for (auto& x : old) x = (int)r.below(9);
          cl.assign(1 + r.below(3), rofl::LabelSet(old.begin(), old.end()));
        }
        op("associate(cliques)");
        corr.associate(cl);
        std::set<Assoc> gc;
        for (auto& c : cl) {
          Assoc a;
          for (auto& n : c) a.push_back({n / nd, n % nd});
          CHECK(gc.insert(a).second, "duplicate", "the same clique is returned twice: ", what);
        }
        CHECK(gc == want, "cliques", gc.size(), " cliques returned, expected ", want.size(), ": ", what);
      }
      count("associations", out.size());
      count("calls");
      if (round || k) count("calls_reused");
    }
    if (big) count("large sets");
    maximum("largest_association", (double)s.size);
    maximum("ties", (double)s.best.size());
    if (edges) sig(comb(hashStr(what), hashStr(cat(src[0](0), src[0](1), dst[0](0)))));
    if (wantSample()) sample(cat(what, " -> ", s.best.size(), " of size ", s.size));
  }
}
const char* vmon_property() { return "C22"; }
uint64_t vmon_cases(bool thorough) { return thorough ? 20000 : 3000; }
void vmon_case(uint64_t, Rng& r) {
  require("calls", 500);
  require("calls_reused", 100);
  require("associations", 500);
  run(r);
}
