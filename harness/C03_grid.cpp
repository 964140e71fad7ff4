// C03: Grid cells behave as independent variables addressed consistently by indices, pointers and positions.
#include "vmon.h"

#include <array>
#include <deque>

#include <rofl/common/grid.h>

using namespace vmon;

template <size_t D, typename V, typename I, typename G>
struct Mon {
  using Ind = std::array<I, D>;

  static void run(Rng& r, V (*gen)(Rng&), uint64_t tag) {
    Ind lo, dim;
    size_t cells = 1;
    size_t cap = r.chance(0.05) ? 120000 : 1500;
    for (size_t d = 0; d < D; ++d) {
      lo[d] = (I)(r.chance(0.3) ? 0 : r.range(-50, 50));
      I m = (I)r.range(1, 12);
      if (r.chance(0.1)) m = (I)r.range(20, 400);
      while (cells * m > cap && m > 1) m = (m + 1) / 2;
      dim[d] = m;
      cells *= m;
    }
    std::string what;
    op("init");
    G* g = nullptr;
    G own;
    if (r.chance(0.4)) {  // a previous life of the same object must not matter for addressing
      Ind d0;
      d0.fill((I)r.range(1, 4));
      own.initBounds(d0);
      own.fill(gen(r));
    }
    G constructed = own;
    g = &own;
    switch (r.below(6)) {
      case 0:
        lo.fill(0);
        g->initBounds(dim);
        what = "initBounds(dim)";
        break;
      case 1:
        g->initBounds(lo, dim);
        what = "initBounds(min,dim)";
        break;
      case 2: {
        Ind c, w;
        cells = 1;
        for (size_t d = 0; d < D; ++d) {
          w[d] = (I)r.range(0, 3);
          c[d] = lo[d];
          lo[d] = c[d] - w[d];
          dim[d] = 2 * w[d] + 1;
          cells *= dim[d];
        }
        g->initCenter(c, w);
        what = "initCenter";
        break;
      }
      case 3: {
        Ind mx;
        for (size_t d = 0; d < D; ++d) mx[d] = lo[d] + dim[d] - 1;
        g->initMinMax(lo, mx);
        what = "initMinMax";
        break;
      }
      case 4:
        constructed = G(lo, dim);
        g = &constructed;
        what = "Grid(min,dim)";
        break;
      case 5:
        lo.fill(0);
        constructed = G(dim);
        g = &constructed;
        what = "Grid(dim)";
        break;
    }
    what = cat(what, " D=", D, " min ", show(lo), " dim ", show(dim));
    CHECK(g->size() == cells, "size", "size() ", g->size(), " expected ", cells, ": ", what);
    CHECK(g->dimensions() == dim, "dimensions", "dimensions() ", show(g->dimensions()), ": ", what);

    // positions <-> indices is a bijection in raster order
    op("getPos/getIndices");
    Ind c = lo;
    for (size_t n = 0; n < cells; ++n) {
      I pos = g->getPos(c);
      CHECK(pos == (I)n, "getPos", "getPos(", show(c), ")=", pos, " expected ", n, ": ", what);
      Ind back = g->getIndices(pos);
      CHECK(back == c, "getIndices", "getIndices(", pos, ")=", show(back), " expected ", show(c), ": ", what);
      // the conversions without index arrays used for direct access
      using Static = rofl::detail::StaticRasterIndexer<D, I>;
      I spos = Static::getPos(lo.data(), dim.data(), c.data());
      CHECK(spos == (I)n, "staticGetPos", "StaticRasterIndexer::getPos(", show(c), ")=", spos, " expected ", n, ": ", what);
      Ind sback;
      sback.fill((I)-7);
      Static::getIndices((I)n, lo.data(), dim.data(), sback.data());
      CHECK(sback == c, "staticGetIndices", "StaticRasterIndexer::getIndices(", n, ")=", show(sback), " expected ", show(c), ": ", what);
      for (size_t d = 0; d < D; ++d) {
        if (++c[d] < lo[d] + dim[d]) break;
        c[d] = lo[d];
      }
    }
    count("bijection_cells", cells);
    for (int k = 0; k < 40; ++k) {
      Ind p;
      bool in = true;
      for (size_t d = 0; d < D; ++d) {
        p[d] = (I)r.range((int64_t)lo[d] - 2, (int64_t)lo[d] + dim[d] + 1);
        if (p[d] < lo[d] || p[d] >= lo[d] + dim[d]) in = false;
      }
      CHECK(g->inside(p) == in, "inside", "inside(", show(p), ") is ", !in, ": ", what);
    }

    // histories of writes through any accessor against a map of cells
    op("fill");
    V v0 = gen(r);
    g->fill(v0);
    std::vector<V> model(cells, v0);
    auto rnd = [&](Ind& p) {
      size_t pos = 0, mul = 1;
      for (size_t d = 0; d < D; ++d) {
        I o = (I)r.below(dim[d]);
        if (r.chance(0.15)) o = dim[d] - 1;
        p[d] = lo[d] + o;
        pos += mul * o;
        mul *= dim[d];
      }
      return pos;
    };
    const G& cg = *g;
    int n = (int)r.range(20, 300);
    uint64_t h = tag;
    for (int s = 0; s < n; ++s) {
      Ind p;
      size_t pos = rnd(p);
      int how = (int)r.below(3);
      if (r.chance(0.6)) {
        V v = gen(r);
        op("value write");
        if (how == 0) g->value(p) = v;
        else if (how == 1) g->value(p.data()) = v;
        else g->value((I)pos) = v;
        model[pos] = v;
        h = comb(h, pos);
        count("writes");
      } else {
        op("value read");
        CHECK(cg.value(p) == model[pos] && cg.value(p.data()) == model[pos] && cg.value((I)pos) == model[pos] && g->value(p) == model[pos],
              "value", "cell ", show(p), " does not hold the value last written to it: ", what);
        count("reads");
      }
    }
    op("final sweep");
    c = lo;
    for (size_t k = 0; k < cells; ++k) {
      CHECK(cg.value(c) == model[k] && cg.value((I)k) == model[k] && cg.value(c.data()) == model[k], "value",
            "after ", n, " operations cell ", show(c), " differs from the last value written to it: ", what);
      for (size_t d = 0; d < D; ++d) {
        if (++c[d] < lo[d] + dim[d]) break;
        c[d] = lo[d];
      }
    }
    // out-of-range positions are refused
    for (I bad : {(I)cells, (I)(cells + r.below(1000)), (I)-1, (I)-(I)(1 + r.below(1000))}) {
      bool threw = false;
      op("value(pos) out of range");
      try {
        V x = cg.value(bad);
        (void)x;
      } catch (const std::out_of_range&) {
        threw = true;
      }
      CHECK(threw, "range", "value(", bad, ") of a grid with ", cells, " cells did not throw std::out_of_range: ", what);
      count("out_of_range_refused");
    }
    // the same object with another box
    if (r.chance(0.4)) {
      Ind l2, d2, mx2;
      size_t c2 = 1;
      for (size_t d = 0; d < D; ++d) {
        l2[d] = (I)r.range(-5, 5);
        d2[d] = (I)r.range(1, 6);
        mx2[d] = l2[d] + d2[d] - 1;
        c2 *= d2[d];
      }
      G other = *g;
      op("re-initialise");
      bool mm = r.chance(0.5);
      if (mm) other.initMinMax(l2, mx2);
      else other.initBounds(l2, d2);
      CHECK(other.size() == c2 && other.dimensions() == d2, "reinit", "re-initialised to dim ", show(d2), " but size() is ", other.size(), ": ", what);
      for (size_t k = 0; k < c2; ++k) other.value((I)k) = model[k % cells];
      c = l2;
      for (size_t k = 0; k < c2; ++k) {
        CHECK(other.inside(c) && other.getPos(c) == (I)k && other.value(c) == model[k % cells], "reinit", "cell ", show(c), " of the re-initialised grid is wrong: ", what);
        for (size_t d = 0; d < D; ++d) {
          if (++c[d] < l2[d] + d2[d]) break;
          c[d] = l2[d];
        }
      }
      for (size_t k = 0; k < cells; ++k) CHECK(cg.value((I)k) == model[k], "copy", "re-initialising a copy changed the original: ", what);
      // filled with one of its own cells
      size_t q = r.below(c2);
      V own2 = other.value((I)q);
      op("fill with an own cell");
      other.fill(other.value((I)q));
      for (size_t k = 0; k < c2; ++k) CHECK(other.value((I)k) == own2, "fill", "fill() with the value of cell ", q, " missed cell ", k, ": ", what);
      count("re-initialised");
    }
    // a copy is independent
    op("copy");
    G copy = *g;
    Ind p;
    size_t pos = rnd(p);
    V keep = g->value(p);
    copy.value(p) = gen(r);
    CHECK(g->value(p) == keep && g->value((I)pos) == keep, "copy", "writing to a copy changed the original: ", what);
    if (cells > 1) {
      for (size_t d = 0; d < D; ++d) h = comb(comb(h, lo[d]), dim[d]);
      sig(h);
    }
    if (wantSample()) sample(cat(what, " operations ", n));
  }
};

static int genInt(Rng& r) { return (int)r.next(); }
static double genDouble(Rng& r) { return r.uni(-1e6, 1e6); }
static std::string genStr(Rng& r) { return std::string((size_t)r.below(40), (char)('a' + r.below(26))); }
static unsigned char genByte(Rng& r) { return (unsigned char)r.next(); }

const char* vmon_property() { return "C03"; }
uint64_t vmon_cases(bool thorough) { return thorough ? 60000 : 2400; }
void vmon_case(uint64_t idx, Rng& r) {
  require("writes", 1000);
  require("out_of_range_refused", 100);
  switch (idx % 6) {
    case 0: Mon<1, int, int, rofl::Grid<1, int>>::run(r, genInt, 1); break;
    case 1: Mon<2, double, int, rofl::Grid<2, double>>::run(r, genDouble, 2); break;
    case 2: Mon<3, std::string, int, rofl::Grid<3, std::string>>::run(r, genStr, 3); break;
    case 3: Mon<4, unsigned char, int, rofl::Grid<4, unsigned char>>::run(r, genByte, 4); break;
    case 4: Mon<3, int, long, rofl::Grid<3, int, long>>::run(r, genInt, 5); break;
    case 5: Mon<2, int, int, rofl::Grid<2, int, int, rofl::detail::RasterIndexer<2, int>, std::deque>>::run(r, genInt, 6); break;
  }
}
