// C11: MortonTree: conservation of items, order after sort, findItem, computeLevel and box search against scans.
#include "vmon.h"

#include <array>
#include <rofl/common/morton_tree.h>

#include "morton_ref.h"

using namespace vmon;

template <typename T>
struct Gen;
template <>
struct Gen<int> {
  static int c(Rng& r, int style) {
    switch (style) {
      case 0: return (int)r.range(-8, 7);
      case 1: return (int)r.range(-1000, 1000);
      case 2: return (int)r.range(-1000000000, 1000000000);
      default: return (int)r.pick(std::vector<int>{-1, 0, 1, -128, 127, 128, 255, 256, -256, 65535, 65536});
    }
  }
  static int span(Rng& r, int style) { return (int)(style == 0 ? r.range(0, 6) : style == 1 ? r.range(0, 600) : style == 2 ? r.range(0, 900000000) : r.range(0, 300)); }
  static int distOf(int l) { return l; }
};
template <>
struct Gen<long> {
  static long c(Rng& r, int style) { return style == 2 ? (long)r.range(-4000000000000000000LL, 4000000000000000000LL) : Gen<int>::c(r, style); }
  static long span(Rng& r, int style) { return style == 2 ? (long)r.range(0, 4000000000000000000LL) : Gen<int>::span(r, style); }
};
template <typename F>
struct GenF {
  static F c(Rng& r, int style) {
    switch (style) {
      case 0: return (F)r.range(-4, 3);
      case 1: return (F)r.uni(-10, 10);
      case 2: return (F)(r.gauss() * std::pow(10.0, (double)r.range(-6, 6)));
      default: return (F)(r.range(-16, 16) * 0.25);
    }
  }
  static F span(Rng& r, int style) { return (F)(style == 0 ? r.range(0, 4) : style == 1 ? r.uni(0, 8) : style == 2 ? std::pow(10.0, r.uni(-5, 6)) : r.range(0, 16) * 0.25); }
};
template <> struct Gen<float> : GenF<float> {};
template <> struct Gen<double> : GenF<double> {};

template <typename T>
typename std::enable_if<std::is_integral<T>::value, int>::type lev(T a, T b) { return mref::level<T>(a, b); }
template <typename T>
typename std::enable_if<std::is_floating_point<T>::value, int>::type lev(T a, T b) {
  int l = mref::floatLevel<T>(a, b);
  if (l == mref::SIGNS) return (int)rofl::FloatTraits<T>::EXPONENT_MAX;
  return std::max(l, (int)-rofl::FloatTraits<T>::EXPONENT_BIAS);
}

struct Source {  // a user type for the converting insert
  double xyz[4];
  int tag;
};

template <typename T, size_t D>
struct Mon {
  using Tree = rofl::MortonTree<T, D>;
  using Item = typename Tree::Item;
  using Rec = std::pair<std::array<T, D>, int>;

  static Rec rec(const Item& i) {
    Rec r;
    std::copy(i.values, i.values + D, r.first.begin());
    r.second = i.id;
    return r;
  }
  template <size_t... K>
  static Item build(const Item& i, std::index_sequence<K...>) { return Item({i.values[K]...}, i.id); }
  static bool lt(const Item& a, const Item& b) { return mref::less<T, (int)D>(a.values, b.values); }
  static std::string str(const Item& i) { return cat(show(std::vector<T>(i.values, i.values + D)), "#", i.id); }

  static void conserved(const Tree& t, std::vector<Rec> want, const char* when, const std::string& what) {
    std::vector<Rec> got;
    for (auto it = t.begin(); it != t.end(); ++it) got.push_back(rec(*it));
    CHECK(t.size() == want.size() && t.getItems().size() == want.size(), "size", when, ": size() ", t.size(), " expected ", want.size(), ": ", what);
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    if (got != want) {
      std::string diff;
      for (size_t i = 0; i < got.size() && i < want.size(); ++i)
        if (got[i] != want[i]) {
          diff = cat("e.g. ", show(got[i].first), "#", got[i].second, " instead of ", show(want[i].first), "#", want[i].second);
          break;
        }
      fail("conservation", when, ": the tree does not hold the inserted items with their ids, ", diff, ": ", what);
    }
    ctx().checks++;
  }
  static void sorted(const Tree& t, const char* when, const std::string& what) {
    for (auto it = t.begin(); it != t.end() && std::next(it) != t.end(); ++it)
      CHECK(!lt(*std::next(it), *it), "sorted", when, ": ", str(*std::next(it)), " stored after ", str(*it), ": ", what);
  }

  static void run(Rng& r, const char* ty, int large = 0) {
    Tree tree;
    std::vector<Rec> model;
    int style = (int)r.below(4);
    int rounds = (int)(large ? 1 : r.range(1, 4));
    std::string what = cat(ty, " D=", D, " style ", style);
    uint64_t h = hashStr(what);
    auto point = [&](Item& i) {
      for (size_t d = 0; d < D; ++d) i.values[d] = Gen<T>::c(r, style);
    };
    for (int round = 0; round < rounds; ++round) {
      int n = (int)(large ? r.range(66000, 70000) : r.chance(0.1) ? r.range(200, 600) : r.range(0, 40));
      if (large) count("large_inserts");
      int mode = (int)(large ? (uint64_t)(large + round) % 5 : r.below(5));
      what += cat(" insert", mode, "x", n);
      if (mode <= 1) {
        for (int k = 0; k < n; ++k) {
          Item it;
          point(it);
          it.id = (int)r.range(-5, 100000);
          if (k < 3) {
            op("Item");
            Item made = build(it, std::make_index_sequence<D>());
            CHECK(rec(made) == rec(it), "item", "an item made of ", str(it), " is ", str(made), ": ", what);
            std::ostringstream o;
            o << "[";
            for (size_t d = 0; d < D; ++d) o << (d ? "," : "") << it.values[d];
            o << "](id " << it.id << ")";
            CHECK(made.toString() == o.str(), "item", "item ", o.str(), " is printed as ", made.toString(), ": ", what);
            it = made;
          }
          Item before = it;
          op("insert(item)");
          if (mode == 0) tree.insert(it); else tree.insert(it, false);
          CHECK(rec(before) == rec(it), "argument", "insert changed its argument: ", what);
          if (mode == 0) it.id = (int)model.size();
          model.push_back(rec(it));
          if (k % (large ? 20011 : 13) == 5 && r.chance(0.3)) {
            op("sort between inserts");
            tree.sort();
          }
        }
      } else if (mode <= 3) {
        std::vector<Item> items(n);
        for (auto& it : items) {
          point(it);
          it.id = (int)r.range(-5, 100000);
        }
        std::vector<Item> copy = items;
        op("insert(range)");
        if (r.chance(0.3)) tree.insert(items.begin(), items.begin());
        if (mode == 2) tree.insert(items.begin(), items.end()); else tree.insert(items.begin(), items.end(), false);
        for (auto& it : copy) {
          if (mode == 2) it.id = (int)model.size();
          model.push_back(rec(it));
        }
      } else {
        std::vector<Source> src(n);
        for (auto& s : src) {
          for (auto& x : s.xyz) x = (double)r.range(-50, 50);
          s.tag = (int)r.range(0, 1000);
        }
        auto conv = [](const Source& s) {
          Item i;
          for (size_t d = 0; d < D; ++d) i.values[d] = (T)s.xyz[d];
          i.id = s.tag;
          return i;
        };
        bool reset = large || r.chance(0.5);
        op("insert(converter)");
        if (reset) tree.insert(src.begin(), src.end(), conv); else tree.insert(src.begin(), src.end(), conv, false);
        for (auto& s : src) {
          Item i = conv(s);
          if (reset) i.id = (int)model.size();
          model.push_back(rec(i));
        }
      }
      if (r.chance(0.2)) {  // nothing to insert
        std::vector<Item> none;
        op("insert(empty range)");
        tree.insert(none.begin(), none.end(), r.chance(0.5));
        count("empty_ranges");
      }
      count("inserted", n);
      conserved(tree, model, "after insert", what);
      h = comb(h, n * 8 + mode);

      if (!large && !model.empty() && r.chance(0.3)) {  // a copy of a tree that may not be sorted yet answers like the original
        op("copy before a query");
        Tree c(tree);
        Item x;
        auto& m = r.pick(model);
        std::copy(m.first.begin(), m.first.end(), x.values);
        std::vector<typename Tree::ConstIterator> res;
        if (r.chance(0.5)) {
          c.searchInBox(x, x, res);
          size_t same = 0;
          for (auto& k : model) same += k.first == m.first;
          CHECK(res.size() == same, "box", "a copy finds ", res.size(), " items at ", str(x), " instead of ", same, ": ", what);
        } else {
          auto it = c.findItem(x);
          for (auto jt = c.begin(); jt != c.end(); ++jt) CHECK(lt(*jt, x) == (jt < it), "findItem", "findItem(", str(x), ") of a copy: item ", str(*jt), " is on the wrong side of the result: ", what);
        }
        sorted(c, "after a query of a copy", what);
        conserved(c, model, "copy", what);
        conserved(tree, model, "original after a query of its copy", what);
        count("copies_queried");
      }
      // queries, possibly on a tree that is not sorted yet
      int q = (int)r.range(1, large ? 2 : 5);
      if (r.chance(0.4)) {
        op("sort");
        tree.sort();
        sorted(tree, "after sort", what);
      }
      for (int k = 0; k < q; ++k) {
        Item x;
        if (!model.empty() && r.chance(0.5)) {
          auto& m = r.pick(model);
          std::copy(m.first.begin(), m.first.end(), x.values);
        } else {
          point(x);
        }
        op("findItem");
        auto it = tree.findItem(x);
        sorted(tree, "after findItem", what);
        // every item before the result precedes x; no item from the result on does
        for (auto jt = tree.begin(); jt != tree.end(); ++jt) {
          bool before = jt < it;
          CHECK(lt(*jt, x) == before, "findItem", "findItem(", str(x), "): item ", str(*jt), " is on the wrong side of the result: ", what);
        }
        count("findItem");
      }
      if (tree.size() > 0) {
        tree.sort();
        for (int k = 0; k < 3; ++k) {
          size_t a = r.below(tree.size()), b = r.range(a + 1, tree.size());
          op("computeLevel");
          int l = tree.computeLevel(tree.begin() + a, tree.begin() + b);
          int want = std::is_floating_point<T>::value ? -(1 << 20) : 0;
          // the level of the smallest subtree is the widest pairwise difference in the range
          size_t step = (b - a) > 60 ? (b - a) / 60 : 1;
          for (size_t i = a; i < b; i += step)
            for (size_t j = a; j < b; j += step)
              for (size_t d = 0; d < D; ++d) want = std::max(want, lev<T>((tree.begin() + i)->values[d], (tree.begin() + j)->values[d]));
          for (size_t d = 0; d < D; ++d) want = std::max(want, lev<T>((tree.begin() + a)->values[d], (tree.begin() + (b - 1))->values[d]));
          CHECK(l == want, "computeLevel", "computeLevel over ", b - a, " items is ", l, " but the widest pair in the range needs ", want, ": ", what);
          count("computeLevel");
        }
      }
      // box search
      for (int k = 0; k < (large ? 2 : 5); ++k) {
        Item lo, hi, c;
        bool ball = r.chance(0.4);
        T rad = Gen<T>::span(r, style);
        for (size_t d = 0; d < D; ++d) {
          c.values[d] = Gen<T>::c(r, style);
          if (!model.empty() && r.chance(0.3)) c.values[d] = r.pick(model).first[d];
          if (ball) {
            lo.values[d] = c.values[d] - rad;
            hi.values[d] = c.values[d] + rad;
          } else {
            T s = Gen<T>::span(r, style);
            lo.values[d] = c.values[d];
            hi.values[d] = c.values[d] + s;
          }
        }
        std::vector<typename Tree::ConstIterator> res;
        op("searchInBox");
        if (ball) tree.searchInBox(c, rad, res); else tree.searchInBox(lo, hi, res);
        std::vector<Rec> got, want;
        for (auto it : res) {
          CHECK(it >= tree.begin() && it < tree.end(), "box", "box search returned an iterator outside the tree: ", what);
          got.push_back(rec(*it));
        }
        for (auto& m : model) {
          bool in = true;
          for (size_t d = 0; d < D; ++d) in = in && m.first[d] >= lo.values[d] && m.first[d] <= hi.values[d];
          if (in) want.push_back(m);
        }
        std::sort(got.begin(), got.end());
        std::sort(want.begin(), want.end());
        CHECK(got == want, "box", "box [", str(lo), ",", str(hi), "] returned ", got.size(), " items, ", want.size(), " of ", model.size(), " are inside", (got.size() == want.size() ? " (different ones)" : ""), ": ", what);
        count("box_queries");
        count("box_hits", want.size());
        if (want.empty()) count("box_empty");
      }
      conserved(tree, model, "after queries", what);
    }
    op("copy");
    Tree copy(tree);
    conserved(copy, model, "copy", what);
    Item extra;
    point(extra);
    copy.insert(extra);
    conserved(tree, model, "original after inserting into a copy", what);
    maximum("items", (double)model.size());
    if (model.size() > 2) {
      for (auto& m : model)
        for (auto& v : m.first) {
          uint64_t b = 0;
          memcpy(&b, &v, sizeof v);
          h = comb(h, b);
        }
      sig(h);
    }
    if (wantSample()) sample(cat(what, " items ", model.size()));
  }
};

// compiled in three parts to keep the build short
void partInt(uint64_t idx, Rng& r);
void partFloat(uint64_t idx, Rng& r);
#if VPART == 1
void partInt(uint64_t idx, Rng& r) {
  switch (idx % 4) {
    case 0: Mon<int, 2>::run(r, "int", idx % 1400 >= 4 && idx % 1400 < 12 ? (int)(idx % 1400) : 0); break;
    case 1: Mon<int, 3>::run(r, "int", idx % 1400 >= 4 && idx % 1400 < 12 ? (int)(idx % 1400) : 0); break;
    case 2: Mon<long, 2>::run(r, "long", idx % 1400 >= 4 && idx % 1400 < 12 ? (int)(idx % 1400) : 0); break;
    case 3: Mon<long, 3>::run(r, "long", idx % 1400 >= 4 && idx % 1400 < 12 ? (int)(idx % 1400) : 0); break;
  }
}
#elif VPART == 2
void partFloat(uint64_t idx, Rng& r) {
  switch (idx % 4) {
    case 0: Mon<float, 2>::run(r, "float", idx % 1400 >= 4 && idx % 1400 < 12 ? (int)(idx % 1400) : 0); break;
    case 1: Mon<float, 3>::run(r, "float", idx % 1400 >= 4 && idx % 1400 < 12 ? (int)(idx % 1400) : 0); break;
    case 2: Mon<double, 2>::run(r, "double", idx % 1400 >= 4 && idx % 1400 < 12 ? (int)(idx % 1400) : 0); break;
    case 3: Mon<double, 3>::run(r, "double", idx % 1400 >= 4 && idx % 1400 < 12 ? (int)(idx % 1400) : 0); break;
  }
}
#else
const char* vmon_property() { return "C11"; }
uint64_t vmon_cases(bool thorough) { return thorough ? 40000 : 1400; }
void vmon_case(uint64_t idx, Rng& r) {
  require("box_hits", 500);
  require("findItem", 500);
  require("computeLevel", 200);
  if ((idx / 4) % 2) partInt(idx, r); else partFloat(idx, r);
}
#endif
