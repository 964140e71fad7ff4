// C02: IntervalIndices as a set of lattice cells: membership, size, intersection, stacking, translation and both traversals.
#include "vmon.h"

#include <array>

#include <rofl/common/interval_indices.h>

using namespace vmon;

template <size_t D, typename I>
struct Mon {
  using Ind = std::array<I, D>;
  using Int = rofl::IntervalIndices<D, I>;
  using Cells = std::set<Ind>;

  // the oracle: cells of [lo, lo+dim) by nested counting
  static Cells cells(const Ind& lo, const Ind& dim) {
    Cells s;
    for (size_t d = 0; d < D; ++d)
      if (dim[d] <= 0) return s;
    Ind c = lo;
    while (true) {
      s.insert(c);
      size_t d = 0;
      while (d < D) {
        if (++c[d] < lo[d] + dim[d]) break;
        c[d] = lo[d];
        ++d;
      }
      if (d == D) return s;
    }
  }
  static std::string str(const Ind& lo, const Ind& dim) { return cat("min ", show(lo), " dim ", show(dim)); }

  static void sameAs(const Int& iv, const Cells& want, const std::string& what) {
    op("empty/size");
    CHECK(iv.empty() == want.empty(), "empty", "empty() is ", iv.empty(), " but the interval has ", want.size(), " cells: ", what);
    CHECK(iv.size() == want.size(), "size", "size() ", iv.size(), " != ", want.size(), " cells: ", what);
    // membership over the cells and their surroundings
    op("inside");
    size_t n = 0;
    for (auto& c : want) {
      CHECK(iv.inside(c), "inside", "cell ", show(c), " of the interval is reported outside: ", what);
      for (size_t d = 0; d < D; ++d)
        for (int s = -1; s <= 1; s += 2) {
          Ind o = c;
          o[d] += s;
          CHECK(iv.inside(o) == (want.count(o) > 0), "inside", "inside(", show(o), ") wrong: ", what);
        }
      if (++n > 4000) break;
    }
    if (want.empty()) return;
    Ind mn = *want.begin(), mx = *want.begin();
    for (auto& c : want)
      for (size_t d = 0; d < D; ++d) {
        mn[d] = std::min(mn[d], c[d]);
        mx[d] = std::max(mx[d], c[d]);
      }
    op("min/max/first/last/dimensions");
    Ind last = mx;
    for (size_t d = 0; d < D; ++d) last[d]++;
    CHECK(iv.min() == mn && iv.first() == mn, "min", "min()/first() wrong: ", what);
    CHECK(iv.max() == mx, "max", "max() ", show(iv.max()), " expected ", show(mx), ": ", what);
    CHECK(iv.last() == last, "last", "last() wrong: ", what);
    for (size_t d = 0; d < D; ++d)
      CHECK(iv.dimension(d) == mx[d] - mn[d] + 1 && iv.dimensions()[d] == iv.dimension(d), "dimension", "dimension(", d, ") wrong: ", what);
  }

  static void traversals(const Int& iv, const Cells& want, const Ind& lo, const std::string& what) {
    // raster: dimension 0 is the fastest, every cell exactly once
    op("raster");
    std::vector<Ind> seq;
    std::set<Ind> seen;
    size_t guard = want.size() + 5;
    {
      auto e = iv.endRaster();
      for (auto it = iv.beginRaster(); it != e; ++it) {
        seq.push_back(*it);
        CHECK(seq.size() < guard, "raster", "the raster traversal visits more than the ", want.size(), " cells: ", what);
      }
    }
    CHECK(seq.size() == want.size(), "raster", "raster traversal visited ", seq.size(), " of ", want.size(), " cells: ", what);
    std::vector<Ind> ref(want.begin(), want.end());
    std::sort(ref.begin(), ref.end(), [](const Ind& a, const Ind& b) { return std::lexicographical_compare(a.rbegin(), a.rend(), b.rbegin(), b.rend()); });
    CHECK(seq == ref, "raster", "raster traversal is not the row order of the cells: ", what);
    count("raster_cells", seq.size());
    // boustrophedon: every cell once, each step to a neighbour
    op("boustrophedon");
    std::vector<Ind> bo;
    {
      auto e = iv.endBoustrophedon();
      for (auto it = iv.beginBoustrophedon(); it != e; ++it) {
        bo.push_back(*it);
        CHECK((*it)[0] == it->at(0), "deref", "operator* and operator-> disagree: ", what);
        CHECK(bo.size() < guard, "boustrophedon", "the boustrophedon traversal visits more than the ", want.size(), " cells: ", what);
      }
    }
    CHECK(bo.size() == want.size(), "boustrophedon", "boustrophedon visited ", bo.size(), " of ", want.size(), " cells: ", what);
    for (size_t i = 0; i < bo.size(); ++i) {
      CHECK(want.count(bo[i]), "boustrophedon", "boustrophedon visits ", show(bo[i]), " outside the interval: ", what);
      CHECK(seen.insert(bo[i]).second, "boustrophedon", "boustrophedon visits ", show(bo[i]), " twice: ", what);
      if (i) {
        long dist = 0;
        for (size_t d = 0; d < D; ++d) dist += std::labs((long)bo[i][d] - (long)bo[i - 1][d]);
        CHECK(dist == 1, "boustrophedon", "boustrophedon steps from ", show(bo[i - 1]), " to ", show(bo[i]), " (not neighbours): ", what);
      }
    }
    if (!bo.empty()) CHECK(bo[0] == lo, "boustrophedon", "boustrophedon does not start at the min corner: ", what);
    if (D == 2 && !bo.empty()) {  // documented order
      std::vector<Ind> want2;
      Ind mn = iv.min(), mx = iv.max();
      for (I y = mn[1]; y <= mx[1]; ++y)
        for (I k = 0; k <= mx[0] - mn[0]; ++k) {
          Ind c = mn;
          c[1] = y;
          c[0] = ((y - mn[1]) % 2) ? mx[0] - k : mn[0] + k;
          want2.push_back(c);
        }
      CHECK(bo == want2, "boustrophedon", "boustrophedon order differs from the documented zig-zag: ", what);
    }
    count("boustrophedon_steps", bo.size());
    // backwards and post-increment
    if (!bo.empty()) {
      op("decrement");
      auto it = iv.endBoustrophedon();
      auto ir = iv.endRaster();
      for (size_t i = bo.size(); i-- > 0;) {
        --it;
        ir--;
        CHECK(*it == bo[i], "decrement", "--iterator does not reverse the boustrophedon traversal: ", what);
        CHECK(*ir == seq[i], "decrement", "iterator-- does not reverse the raster traversal: ", what);
      }
      CHECK(it == iv.beginBoustrophedon() && ir == iv.beginRaster(), "decrement", "decrementing to the first cell does not reach begin: ", what);
      op("post-increment");
      auto jt = iv.beginRaster();
      auto old = jt++;
      CHECK(*old == seq[0], "postincrement", "iterator++ does not return the previous position: ", what);
      if (seq.size() > 1) CHECK(*jt == seq[1], "postincrement", "iterator++ does not advance: ", what);
    }
  }

  static void randBox(Rng& r, Ind& lo, Ind& dim, size_t maxCells, bool wild) {
    size_t cells = 1;
    for (size_t d = 0; d < D; ++d) {
      lo[d] = (I)r.range(-9, 9);
      I m = (I)r.pick(std::vector<int>{1, 2, 3, 4, 5, 7, 9, 13});
      if (d == 0 && r.chance(0.05)) m = (I)r.range(50, 300);
      while (cells * m > maxCells && m > 1) --m;
      if (wild && r.chance(0.08)) m = 0;
      if (wild && r.chance(0.05)) m = (I)-r.range(1, 4);
      dim[d] = m;
      if (m > 0) cells *= m;
    }
    if (r.chance(0.15)) {
      I off = sizeof(I) == 2 ? (I)12000 : (I)1000000000;
      for (size_t d = 0; d < D; ++d) lo[d] += r.chance(0.5) ? off : -off;
    }
  }

  // boxes too large to enumerate: the oracle is the definition, coordinate by coordinate
  static void big(Rng& r) {
    typedef __int128 W;
    auto draw = [&](Ind& lo, Ind& dim) {
      for (size_t d = 0; d < D; ++d) {
        lo[d] = (I)(r.chance(0.3) ? r.range(-5, 5) : r.range(-450000000, 450000000));
        dim[d] = (I)(r.chance(0.2) ? r.range(1, 3) : r.chance(0.3) ? (1ll << r.range(0, 29)) + r.range(-1, 1) : r.range(1, 1000000000));
        if (D == 3 && dim[d] > 2000000) dim[d] = (I)r.range(1, 2000000);  // so that the number of cells fits 64 bits
        if (D > 3 && dim[d] > 3000) dim[d] = (I)r.range(1, 3000);
        if (r.chance(0.03)) dim[d] = 0;
      }
    };
    Ind lo, dim, lo2, dim2, c;
    draw(lo, dim);
    draw(lo2, dim2);
    if (r.chance(0.6))
      for (size_t d = 0; d < D; ++d) lo2[d] = (I)std::max<W>(-450000000, std::min<W>(450000000, (W)lo[d] + (r.chance(0.5) ? (W)dim[d] : (W)0) + r.range(-2, 2)));
    std::string what = cat("large ", str(lo, dim));
    W cells = 1;
    for (size_t d = 0; d < D; ++d) cells *= dim[d];
    Int iv, jv(lo2, dim2);
    op("large box");
    if (r.chance(0.5)) iv = Int(lo, dim);
    else {
      Ind mx;
      for (size_t d = 0; d < D; ++d) mx[d] = lo[d] + (dim[d] - 1);
      iv.initMinMax(lo, mx);
    }
    CHECK((W)iv.size() == cells, "size", "size() ", iv.size(), " is wrong: ", what);
    CHECK(iv.empty() == (cells == 0), "empty", "empty() wrong: ", what);
    Int in = iv.intersect(jv);
    W ic = 1;
    bool none = false;
    for (size_t d = 0; d < D; ++d) {
      W a = std::max<W>(lo[d], lo2[d]), b = std::min<W>((W)lo[d] + dim[d], (W)lo2[d] + dim2[d]);
      if (b <= a) none = true;
      ic *= b > a ? b - a : 0;
    }
    CHECK((W)in.size() == ic && in.empty() == none, "intersect", "intersection with ", str(lo2, dim2), " has ", in.size(), " cells: ", what);
    for (int k = 0; k < 20; ++k) {
      bool a = cells > 0, b = true;
      for (size_t d = 0; d < D; ++d) {
        W x = r.chance(0.5) ? (W)lo[d] : (W)lo[d] + dim[d];
        if (r.chance(0.3)) x = r.chance(0.5) ? (W)lo2[d] : (W)lo2[d] + dim2[d];
        x += r.chance(0.8) ? r.range(-2, 2) : r.range(-1000000, 1000000);
        c[d] = (I)x;
        if (x < lo[d] || x >= (W)lo[d] + dim[d]) a = false;
        if (x < lo2[d] || x >= (W)lo2[d] + dim2[d]) b = false;
      }
      CHECK(iv.inside(c) == a, "inside", "inside(", show(c), ") is ", !a, ": ", what);
      CHECK(in.inside(c) == (a && b), "intersect", "inside(", show(c), ") of the intersection with ", str(lo2, dim2), " is ", !(a && b), ": ", what);
    }
    count("large boxes");
    sig(hashStr(what));
  }

  // traversals of boxes with many cells, watched cell by cell, with all the ways to step, copy and dereference an iterator
  template <typename It>
  static void walk(Rng& r, It it, It end, const Ind& lo, const Ind& dim, bool raster, const std::string& what) {
    uint64_t n = 1, k = 0;
    for (size_t d = 0; d < D; ++d) n *= (uint64_t)dim[d];
    std::vector<bool> seen(n);
    Ind prev = lo;
    while (it != end) {
      CHECK(!(it == end), "iterator", "iterators both equal and different: ", what);
      Ind c = *it;
      CHECK(k < n, "traversal", "more than ", n, " cells visited: ", what);
      uint64_t pos = 0, stride = 1;
      for (size_t d = 0; d < D; ++d) {
        CHECK(c[d] >= lo[d] && c[d] - lo[d] < dim[d], "traversal", "step ", k, " visits ", show(c), " outside of ", what);
        pos += stride * (uint64_t)(c[d] - lo[d]);
        stride *= (uint64_t)dim[d];
      }
      CHECK(!seen[pos], "traversal", "step ", k, " visits ", show(c), " again: ", what);
      seen[pos] = true;
      if (raster) CHECK(pos == k, "raster", "step ", k, " of the raster order visits ", show(c), ": ", what);
      else if (k) {
        int moved = 0;
        for (size_t d = 0; d < D; ++d) moved += c[d] == prev[d] ? 0 : (c[d] - prev[d] == 1 || prev[d] - c[d] == 1) ? 1 : 100;
        CHECK(moved == 1, "boustrophedon", "step ", k, " goes from ", show(prev), " to ", show(c), ": ", what);
      }
      prev = c;
      ++k;
      if (r.chance(0.05)) {
        It cp(it);
        CHECK(*cp == c && (*cp.operator->())[D - 1] == c[D - 1] && cp == it, "iterator", "a copy of the iterator at ", show(c), " reads ", show(*cp), ": ", what);
        It as(end);
        as = it;
        CHECK(*as == c && as == it, "iterator", "an assigned iterator at ", show(c), " reads ", show(*as), ": ", what);
        auto old = it++;
        CHECK(*old == c && old != it, "iterator", "it++ at ", show(c), " returns ", show(*old), ": ", what);
        CHECK(*cp == c, "iterator", "stepping an iterator moved its copy at ", show(c), ": ", what);
        if (it != end) {
          Ind nx = *it;
          auto o2 = it--;
          CHECK(*o2 == nx && *it == c && it == old, "iterator", "it-- at ", show(nx), " returns ", show(*o2), " and arrives at ", show(*it), ": ", what);
          auto& ref = ++it;
          CHECK(&ref == &it || *ref == nx, "iterator", "++it does not return the iterator: ", what);
        }
        count("iterator_checks");
      } else ++it;
    }
    CHECK(k == n, "traversal", k, " of ", n, " cells visited: ", what);
  }
  static void many(Rng& r) {
    Ind lo, dim;
    uint64_t left = (uint64_t)r.range(1, ctx().thorough && r.chance(0.004) ? 20000000 : r.chance(0.03) ? 400000 : 3000);
    std::vector<size_t> axes(D);
    for (size_t d = 0; d < D; ++d) axes[d] = d;
    r.shuffle(axes);
    for (size_t q = 0; q < D; ++q) {
      size_t d = axes[q];
      double f = q + 1 == D ? 1 : r.uni(0, 1);
      dim[d] = (I)std::max<double>(1, std::pow((double)left, f));
      left = std::max<uint64_t>(1, left / (uint64_t)dim[d]);
      lo[d] = (I)r.range(-50, 50);
    }
    Int iv(lo, dim);
    std::string what = cat("walk ", str(lo, dim));
    op("walk");
    if (r.chance(0.5)) walk(r, iv.beginRaster(), iv.endRaster(), lo, dim, true, what);
    else walk(r, iv.beginBoustrophedon(), iv.endBoustrophedon(), lo, dim, false, what);
    maximum("walk_cells", (double)iv.size());
    count("walks");
  }

  static void run(Rng& r) {
    for (int k = 0; k < 5; ++k) big(r);
    many(r);
    Ind lo, dim;
    randBox(r, lo, dim, 3000, true);
    Cells want = cells(lo, dim);
    std::string what = str(lo, dim);
    Int iv;
    op("init");
    switch (r.below(4)) {
      case 0: iv = Int(lo, dim); break;
      case 1: iv.initBounds(lo, dim); break;
      case 2: {
        Ind mx;
        for (size_t d = 0; d < D; ++d) mx[d] = lo[d] + dim[d] - 1;
        iv.initMinMax(lo, mx);
        break;
      }
      case 3: {
        Ind c, w;
        for (size_t d = 0; d < D; ++d) {
          w[d] = (I)r.range(0, 3);
          c[d] = lo[d];
          dim[d] = 2 * w[d] + 1;
          lo[d] = c[d] - w[d];
        }
        iv.initCentered(c, w);
        want = cells(lo, dim);
        what = cat("centred ", str(lo, dim));
        break;
      }
    }
    sameAs(iv, want, what);
    traversals(iv, want, lo, what);
    Int cl = iv.clone();
    sameAs(cl, want, cat("clone of ", what));

    // intersections, with overlap shapes biased towards touching and containment
    for (int k = 0; k < 4; ++k) {
      Ind lo2, dim2;
      randBox(r, lo2, dim2, 600, true);
      for (size_t d = 0; d < D; ++d) {
        I base = want.empty() ? lo[d] : lo[d];
        int sel = (int)r.below(5);
        if (sel == 0) lo2[d] = base + (dim[d] > 0 ? dim[d] : 0);      // touching above
        else if (sel == 1) lo2[d] = base - (dim2[d] > 0 ? dim2[d] : 0);  // touching below
        else if (sel == 2) lo2[d] = base + (I)r.range(0, 2);
        else lo2[d] = base + (I)r.range(-4, 4);
      }
      Cells other = cells(lo2, dim2), inter;
      std::set_intersection(want.begin(), want.end(), other.begin(), other.end(), std::inserter(inter, inter.end()));
      op("intersect");
      Int j(lo2, dim2);
      std::string w2 = cat(what, " intersected with ", str(lo2, dim2));
      sameAs(iv.intersect(j), inter, w2);
      sameAs(j.intersect(iv), inter, cat("reversed ", w2));
      count("intersections");
      count(inter.empty() ? "intersections_empty" : "intersections_nonempty");
    }
    // stacking: exactly the incr layers next to the interval along d
    if (!want.empty())
      for (size_t d = 0; d < D; ++d) {
        I incr = (I)r.range(-3, 3);
        Ind lo3 = lo, dim3 = dim;
        if (incr >= 0) {
          lo3[d] = lo[d] + dim[d];
          dim3[d] = incr;
        } else {
          lo3[d] = lo[d] + incr;
          dim3[d] = -incr;
        }
        op("stacked");
        sameAs(iv.stacked(d, incr), cells(lo3, dim3), cat(what, " stacked(", d, ",", +incr, ")"));
        count("stacked");
      }
    // translation
    {
      Ind t;
      for (size_t d = 0; d < D; ++d) t[d] = (I)r.range(-20, 20);
      Int a = iv.clone(), b = iv.clone();
      op("translate");
      a.translate(t);
      Ind lo4 = lo;
      for (size_t d = 0; d < D; ++d) {
        b.translate(d, t[d]);
        lo4[d] += t[d];
      }
      Cells tr = cells(lo4, dim);
      sameAs(a, tr, cat(what, " translated by ", show(t)));
      sameAs(b, tr, cat(what, " translated per axis by ", show(t)));
      sameAs(iv, want, cat("original of the translation: ", what));
      Int self = iv.clone();
      self.translate(self.min());
      Ind lo5 = lo;
      for (size_t d = 0; d < D; ++d) lo5[d] += lo[d];
      sameAs(self, cells(lo5, dim), cat(what, " translated by its own minimum"));
      count("translations");
    }
    if (want.size() > 1) {
      uint64_t h = D * 16 + sizeof(I);
      for (size_t d = 0; d < D; ++d) h = comb(comb(h, lo[d]), dim[d]);
      sig(h);
    }
    if (wantSample()) sample(cat("D=", D, " ", what, " cells ", want.size()));
  }
};

const char* vmon_property() { return "C02"; }
uint64_t vmon_cases(bool thorough) { return thorough ? 120000 : 4000; }
void vmon_case(uint64_t idx, Rng& rng) {
  require("raster_cells", 10000);
  require("boustrophedon_steps", 10000);
  require("intersections_nonempty", 500);
  require("large boxes", 10000);
  require("walks", 1000);
  require("iterator_checks", 1000);
  switch (idx % 7) {
    case 0: Mon<1, int>::run(rng); break;
    case 1: Mon<2, int>::run(rng); break;
    case 2: Mon<3, int>::run(rng); break;
    case 3: Mon<4, int>::run(rng); break;
    case 4: Mon<3, long>::run(rng); break;
    case 5: Mon<2, long>::run(rng); break;
    case 6: Mon<5, int>::run(rng); break;
  }
}
