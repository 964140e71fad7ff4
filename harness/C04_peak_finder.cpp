// C04: PeakFinderD::detect against the definition of a peak, evaluated by brute force over the domain.
#include "vmon.h"

#include <array>
#include <functional>

#include <rofl/common/grid.h>
#include <rofl/common/peak_finder_d.h>

using namespace vmon;

// a comparator with state: the value nearest to its reference is the best
struct Nearest {
  int ref;
  Nearest() : ref(1000000) {}
  explicit Nearest(int r) : ref(r) {}
  bool operator()(int a, int b) const { return std::abs((long)a - ref) < std::abs((long)b - ref); }
};
template <typename Comp>
static Comp makeComp(Rng&) {
  return Comp();
}
template <>
Nearest makeComp<Nearest>(Rng& r) {
  return Nearest((int)r.range(-10, 60));
}

template <size_t D, typename V, typename Comp, typename I = int>
struct Mon {
  using Ind = std::array<I, D>;

  static void run(Rng& r, uint64_t tag) {
    Comp comp = makeComp<Comp>(r);
    using Finder = rofl::PeakFinderD<D, V, I, Comp>;
    const bool stateful = !std::is_empty<Comp>::value;
    Finder made = stateful || r.chance(0.3) ? Finder(comp) : Finder();
    Finder& pf = made;
    bool fresh = true;  // neither window nor filter given yet
    int rounds = (int)r.range(1, 3);  // a finder is reusable
    for (int round = 0; round < rounds; ++round) {
      Ind lo, dim, win;
      size_t cells = 1, cap = r.chance(0.03) ? 4000 : 900;
      const bool many = D > 1 && r.chance(0.004);  // thousands of peaks
      if (many) cap = 20000;
      for (size_t d = 0; d < D; ++d) {
        lo[d] = r.chance(0.4) ? 0 : (int)r.range(-9, 9);
        int m = (int)r.range(1, D == 1 ? 60 : 9);
        if (r.chance(0.1)) m = (int)r.range(10, cap > 900 ? 70 : 30);
        if (many) m = (int)std::pow(20000.0, 1.0 / D);
        while (cells * m > cap && m > 1) --m;
        dim[d] = m;
        cells *= m;
        win[d] = r.chance(0.15) ? 0 : (r.chance(0.1) ? (int)r.range(4, 12) : (int)r.range(1, 3));
        if (many) win[d] = 1;
      }
      op("setDomain");
      std::string what;
      switch (many ? r.below(2) : r.below(3)) {
        case 0:
          lo.fill(0);
          pf.setDomain(dim);
          break;
        case 1: {
          Ind mx;
          for (size_t d = 0; d < D; ++d) mx[d] = lo[d] + dim[d] - 1;
          pf.setDomain(lo, mx);
          break;
        }
        case 2: {
          Ind c, s;
          cells = 1;
          for (size_t d = 0; d < D; ++d) {
            s[d] = (I)std::min<long>(3, dim[d] / 2);
            c[d] = lo[d] + s[d];
            dim[d] = 2 * s[d] + 1;
            cells *= dim[d];
          }
          pf.setDomainCentered(c, s);
          break;
        }
      }
      if (fresh && r.chance(0.1)) {
        win.fill(0);  // a finder without a window has every cell as its own window
        count("default_window");
      } else pf.setPeakWindow(win);
      auto pos = [&](const Ind& c) {
        size_t p = 0, mul = 1;
        for (size_t d = 0; d < D; ++d) {
          p += mul * (c[d] - lo[d]);
          mul *= dim[d];
        }
        return p;
      };
      std::vector<Ind> all;
      {
        Ind c = lo;
        for (size_t n = 0; n < cells; ++n) {
          all.push_back(c);
          for (size_t d = 0; d < D; ++d) {
            if (++c[d] < lo[d] + dim[d]) break;
            c[d] = lo[d];
          }
        }
      }
      // landscapes: plateaus, permutations, bumps, ramps, isolated spikes, checkerboards
      std::vector<V> val(cells);
      int kind = many ? 1 : (int)r.below(7);
      if (many) count("large_domains");
      int levels = (int)r.range(1, 6);
      if (kind == 1) {
        std::vector<int> perm(cells);
        for (size_t i = 0; i < cells; ++i) perm[i] = (int)i;
        r.shuffle(perm);
        for (size_t i = 0; i < cells; ++i) val[i] = (V)perm[i];
      } else {
        std::vector<std::array<double, D + 2>> bumps;
        for (int b = 0; b < 4; ++b) {
          std::array<double, D + 2> q;
          for (size_t d = 0; d < D; ++d) q[d] = r.chance(0.2) ? lo[d] : (r.chance(0.2) ? lo[d] + dim[d] - 1 : r.range(lo[d], lo[d] + dim[d] - 1));
          q[D] = r.uni(5, 60);
          q[D + 1] = r.uni(0.4, 4);
          bumps.push_back(q);
        }
        std::array<double, D> slope;
        for (auto& s : slope) s = (double)r.range(-2, 2);
        for (size_t i = 0; i < cells; ++i) {
          double x = 0;
          const Ind& c = all[i];
          if (kind == 0) x = (double)r.below(levels);
          else if (kind == 2) {
            for (auto& q : bumps) {
              double s = 0;
              for (size_t d = 0; d < D; ++d) s += (c[d] - q[d]) * (c[d] - q[d]);
              x += q[D] * std::exp(-s / (2 * q[D + 1] * q[D + 1]));
            }
            x = std::floor(x);
          } else if (kind == 3) {
            x = 40;
            for (size_t d = 0; d < D; ++d) x += slope[d] * (c[d] - lo[d]);
          } else if (kind == 4) x = r.chance(0.05) ? (double)r.range(1, 9) : 0;
          else if (kind == 5) {
            int s = 0;
            for (size_t d = 0; d < D; ++d) s += c[d] - lo[d];
            x = (s % 2) ? (double)r.below(levels) : 0;
          } else x = (double)r.range(0, 100);
          val[i] = (V)x;
        }
      }
      if (std::is_signed<V>::value || std::is_floating_point<V>::value) {  // negative values, and other units for real ones
        double off = r.pick(std::vector<double>{0, 0, -30, -100, -1e6, 5e5}), unit = 1;
        if (std::is_floating_point<V>::value) unit = r.pick(std::vector<double>{1, 1, 0.125, 1.0 / 1024, 65536});
        for (auto& v : val) v = (V)(((double)v + off) * unit);
      }
      bool filter = r.chance(0.5);
      V thr = val[r.below(cells)];
      if (r.chance(0.2)) thr = (V)0;
      if (fresh && r.chance(0.3)) {
        filter = false;  // a finder does not filter unless told
        count("default_filter");
      } else pf.enableFilterPeakMin(filter, thr);
      fresh = false;
      if (r.chance(0.1)) {  // a copy behaves as the original
        Finder copy(pf);
        pf = copy;
      }
      what = cat("D=", D, " min ", show(lo), " dim ", show(dim), " window ", show(win), " filter ", filter ? cat(+thr) : std::string("off"),
                 cells <= 60 ? " values " + show(val, 60) : std::string(" kind ") + std::to_string(kind));

      // the oracle: strict domination of the rest of the window clipped to the domain
      std::set<Ind> want;
      for (size_t i = 0; i < cells; ++i) {
        bool peak = !filter || comp(val[i], thr);
        if (peak) {
          Ind a, b;
          for (size_t d = 0; d < D; ++d) {
            a[d] = (I)std::max<long>(lo[d], (long)all[i][d] - win[d]);
            b[d] = (I)std::min<long>((long)lo[d] + dim[d] - 1, (long)all[i][d] + win[d]);
          }
          Ind c = a;
          while (peak) {
            if (c != all[i] && !comp(val[i], val[pos(c)])) peak = false;
            size_t d = 0;
            for (; d < D; ++d) {
              if (++c[d] <= b[d]) break;
              c[d] = a[d];
            }
            if (d == D) break;
          }
        }
        if (peak) want.insert(all[i]);
      }
      // the real code; the map is only defined on the domain
      bool escaped = false;
      Ind escapedAt{};
      uint64_t queries = 0;
      auto map = [&](const Ind& c) -> V {
        ++queries;
        for (size_t d = 0; d < D; ++d)
          if (c[d] < lo[d] || c[d] >= lo[d] + dim[d]) {
            escaped = true;
            escapedAt = c;
            return V(0);
          }
        return val[pos(c)];
      };
      std::vector<Ind> got;
      op("detect");
      pf.detect(map, std::back_inserter(got));
      if (r.chance(0.2)) {  // the same question again, with the results appended to a list that is not empty
        std::vector<Ind> again(2, lo);
        pf.detect(map, std::back_inserter(again));
        CHECK(again.size() == got.size() + 2 && std::is_permutation(got.begin(), got.end(), again.begin() + 2), "again", "a second detect() gives other peaks: ", what);
        count("detect_again");
      }
      CHECK(!escaped, "outside", "detect() evaluated the map at ", show(escapedAt), " outside the domain: ", what);
      std::set<Ind> gs;
      for (auto& g : got) {
        CHECK(gs.insert(g).second, "duplicate", "peak ", show(g), " reported twice: ", what);
        CHECK(want.count(g), "spurious", "reported peak ", show(g), " does not strictly dominate its window: ", what);
      }
      for (auto& w : want) CHECK(gs.count(w), "missed", "peak ", show(w), " strictly dominates its window but was not reported: ", what);
      for (size_t i = 1; i < got.size(); ++i)
        CHECK(!comp(val[pos(got[i])], val[pos(got[i - 1])]), "order", "peaks are not reported best first: ", what);
      count("detect_calls");
      count("peaks", want.size());
      count("map_queries", queries);
      for (auto& w : want)
        if (w == lo) count("peaks_at_first_cell");
      if (!want.empty() && want.size() < cells) {
        uint64_t h = comb(tag, cells);
        for (auto& w : want) h = comb(h, pos(w));
        for (auto v : val) h = comb(h, (uint64_t)(int64_t)v);
        sig(h);
      }
      if (wantSample()) sample(cat(what, " peaks ", want.size()));
    }
  }
};

const char* vmon_property() { return "C04"; }
uint64_t vmon_cases(bool thorough) { return thorough ? 150000 : 7000; }
void vmon_case(uint64_t idx, Rng& r) {
  require("detect_calls", 500);
  require("peaks", 500);
  require("default_filter", 50);
  switch (idx % 9) {
    case 0: Mon<1, int, std::greater<int>>::run(r, 1); break;
    case 1: Mon<2, int, std::greater<int>>::run(r, 2); break;
    case 2: Mon<3, int, std::greater<int>>::run(r, 3); break;
    case 3: Mon<2, double, std::less<double>>::run(r, 4); break;
    case 4: Mon<4, float, std::greater<float>>::run(r, 5); break;
    case 5: Mon<1, double, std::less<double>>::run(r, 6); break;
    case 7: Mon<2, int, Nearest>::run(r, 8); break;
    case 8: idx % 2 ? Mon<2, float, std::greater<float>, long>::run(r, 9) : Mon<3, int, std::less<int>, short>::run(r, 10); break;
    case 6: Mon<3, unsigned char, std::greater<unsigned char>>::run(r, 7); break;
  }
}
