// C28: threads working on objects of their own, reading shared objects, and recording in the common profiler, under ThreadSanitizer.
// Every job is a function of its seed; its digest when run among threads is compared with the one when run alone.
#include "vmon.h"

#include <atomic>
#include <mutex>
#include <thread>

using namespace vmon;

struct Job {
  const char* name;
  std::function<uint64_t(uint64_t)> run;  // seed -> digest of the results
};
struct Digest {
  uint64_t h = 17;
  void operator()(uint64_t v) { h = comb(h, v); }
  void operator()(double v) {
    uint64_t b;
    memcpy(&b, &v, 8);
    h = comb(h, b);
  }
  void operator()(const std::string& s) { h = comb(h, hashStr(s)); }
};
#ifdef VDET
// many real arguments are equal or close to one of a small pool: different calls share some of their arguments
struct JRng : Rng {
  using Rng::Rng;
  double uni(double a, double b) {
    double u = unit();
    if (chance(0.4)) return a + (b - a) * u;
    return a + (b - a) * (std::floor(u * 4) / 4 + 0.11 + (chance(0.5) ? (unit() - 0.5) * 2e-4 : 0));
  }
};
#else
typedef Rng JRng;
#endif
std::vector<Job>& jobs();
void registerGeometry();
void registerBoxes();
void registerAligner();

#if VPART == 0
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
// The C library is not instrumented: its functions that answer through hidden static state are replaced by equivalents
// whose state is visible to ThreadSanitizer.
extern "C" {
struct tm* localtime(const time_t* t) {
  static struct tm b;
  struct tm x;
  localtime_r(t, &x);
  b = x;
  return &b;
}
struct tm* gmtime(const time_t* t) {
  static struct tm b;
  struct tm x;
  gmtime_r(t, &x);
  b = x;
  return &b;
}
char* strtok(char* s, const char* delim) {
  static char* next;
  return strtok_r(s, delim, &next);
}
}
#include <rofl/common/disjoint_set.h>
#include <rofl/common/functions.h>
#include <rofl/common/grid.h>
#include <rofl/common/interval_indices.h>
#include <rofl/common/io.h>
#include <rofl/common/label_set.h>
#include <rofl/common/min_max_heap.h>
#include <rofl/common/morton_tree.h>
#include <rofl/common/param_map.h>
#include <rofl/common/peak_finder_d.h>
#include <rofl/common/profiler.h>
#include <rofl/common/tls_scalar_consensus.h>
#include <rofl/common/vector_array.h>

std::vector<Job>& jobs() {
  static std::vector<Job> j;
  return j;
}
static void add(const char* n, std::function<uint64_t(uint64_t)> f) { jobs().push_back({n, f}); }

typedef rofl::MortonTree<int, 2> Tree;
typedef rofl::MortonTree<float, 3> TreeF;
typedef rofl::PeakFinderD<2, int, int, std::greater<int>> Peaks;

struct SharedObjects {
  Tree tree;
  rofl::PnebiLUT lut;
  rofl::Grid<2, int, int, rofl::detail::RasterIndexer<2, int>, std::vector, std::allocator> grid;
  rofl::LabelSet labels;
  rofl::MinMaxHeap<int> heap;
  rofl::ParamMap params;
  rofl::IntervalIndices<3, int> box;
  Peaks peaks;
  std::vector<double> coeffs;
} S;

template <typename T, typename V>
static void fillTree(T& t, Rng& r, int n) {
  for (int i = 0; i < n; ++i) {
    typename T::Item it;
    for (auto& v : it.values) v = (V)r.range(-40, 40);
    it.id = i;
    t.insert(it, true);
  }
}

static void buildShared(Rng& r) {
  S.tree = Tree();
  fillTree<Tree, int>(S.tree, r, 60);
  S.tree.sort();
  S.lut.init(8, 0.02);
  S.grid.initBounds({{7, 9}});
  for (int i = 0; i < 63; ++i) S.grid.value(i) = (int)r.range(0, 50);
  S.labels = rofl::LabelSet();
  for (int i = 0; i < 20; ++i) S.labels.insert((int)r.range(0, 60));
  S.heap = rofl::MinMaxHeap<int>();
  for (int i = 0; i < 30; ++i) S.heap.push((int)r.range(0, 1000));
  for (int i = 0; i < 10; ++i) S.params.setParam<int>(cat("p", i), (int)r.range(0, 99));
  S.box.initBounds({{-1, 2, 0}}, {{3, 2, 4}});
  S.peaks.setDomain({{7, 9}});
  S.peaks.setPeakWindow({{1, 2}});
  S.coeffs.assign(10, 0);
  for (auto& c : S.coeffs) c = r.uni(-1, 1);
}

// a directory nobody changes while it is listed
static const std::string& listed() {
  static const std::string d = [] {
    std::string d = cat(getenv("VMON_SCRATCH"), "/listed");
    mkdir(d.c_str(), 0700);
    for (const char* n : {"/one.txt", "/two.txt", "/three.dat"}) fclose(fopen((d + n).c_str(), "w"));
    return d;
  }();
  return d;
}

static void registerCommon() {
  listed();
  add("heap", [](uint64_t s) {
    JRng r(s);
    Digest d;
    rofl::MinMaxHeap<int> h;
    for (int i = 0; i < 80; ++i) {
      if (h.empty() || r.chance(0.6)) h.push((int)r.range(0, 99));
      else r.chance(0.5) ? h.popTop() : h.popBottom();
      if (!h.empty()) d((uint64_t)h.top()), d((uint64_t)h.bottom()), d((uint64_t)h.nextTop()), d((uint64_t)h.nextBottom());
    }
    std::ostringstream o;
    h.print(o);
    return d.h;
  });
  add("boxes", [](uint64_t s) {
    JRng r(s);
    Digest d;
    rofl::IntervalIndices<3, int> a, b;
    a.initBounds({{(int)r.range(-3, 3), 0, 1}}, {{4, 3, 3}});
    b.initCentered({{0, 1, 2}}, {{1, 2, 1}});
    auto c = a.intersect(b);
    for (auto it = c.beginRaster(); it != c.endRaster(); ++it) d((uint64_t)((*it)[0] * 100 + (*it)[1] * 10 + (*it)[2]));
    for (auto it = a.beginBoustrophedon(); it != a.endBoustrophedon(); ++it) d((uint64_t)((*it)[0] * 100 + (*it)[1] * 10 + (*it)[2]));
    d((uint64_t)a.stacked(1, 2).size());
    return d.h;
  });
  add("grid", [](uint64_t s) {
    JRng r(s);
    Digest d;
    rofl::Grid<3, int, int, rofl::detail::RasterIndexer<3, int>, std::vector, std::allocator> g;
    g.initBounds({{3, 4, 5}});
    g.fill(0);
    for (int i = 0; i < 60; ++i) g.value({{(int)r.below(3), (int)r.below(4), (int)r.below(5)}}) += i;
    for (int i = 0; i < 60; ++i) d((uint64_t)g.value(i)), d((uint64_t)g.getPos(g.getIndices(i)));
    return d.h;
  });
  add("peaks", [](uint64_t s) {
    JRng r(s);
    Digest d;
    std::vector<int> v(8 * 9 * 3);
    for (auto& x : v) x = (int)r.range(0, 30);
    rofl::PeakFinderD<3, int, int, std::greater<int>> pf;
    pf.setDomain({{8, 9, 3}});
    pf.setPeakWindow({{(int)r.range(1, 2), 1, 1}});
    std::vector<std::array<int, 3>> out;
    pf.detect([&](const std::array<int, 3>& i) { return v[(i[0] * 9 + i[1]) * 3 + i[2]]; }, std::back_inserter(out));
    std::sort(out.begin(), out.end());
    for (auto& o : out) d((uint64_t)(o[0] * 100 + o[1] * 10 + o[2]));
    return d.h;
  });
  add("disjoint sets", [](uint64_t s) {
    JRng r(s);
    Digest d;
    rofl::DisjointSet ds(20);
    for (int i = 0; i < 20; ++i) ds.makeSet(), ds.join((int)r.below(20), 20 + i), ds.join(20 + (int)r.below(i + 1), 20 + i);
    for (int i = 0; i < 40; ++i) d((uint64_t)ds.find(i));
    for (int i = 0; i < 40; ++i) d((uint64_t)(ds.find(i) == ds.find((i * 7) % 40))), d((uint64_t)ds.size(i));
    d((uint64_t)ds.setNum());
    return d.h;
  });
  add("label sets", [](uint64_t s) {
    JRng r(s);
    Digest d;
    rofl::LabelSet a, b;
    const int n = r.chance(0.1) ? 800 : 15;
    for (int i = 0; i < n; ++i) a.insert((int)r.range(0, n > 15 ? n : 30)), b.insert((int)r.range(0, n > 15 ? n : 30));
    for (auto& c : {a.unionSet(b), a.intersectionSet(b), a.differenceSet(b)})
      for (auto it = c.begin(); it != c.end(); ++it) d((uint64_t)*it);
    std::ostringstream o;
    o << a;
    d(o.str());
    return d.h;
  });
  add("morton tree", [](uint64_t s) {
    JRng r(s);
    Digest d;
    Tree t;
    fillTree<Tree, int>(t, r, 40);
    TreeF f;
    fillTree<TreeF, float>(f, r, 40);
    for (int k = 0; k < 3; ++k) {
      Tree::Item c;
      for (auto& v : c.values) v = (int)r.range(-30, 30);
      std::vector<Tree::ConstIterator> o;
      t.searchInBox(c, 15, o);
      std::vector<uint64_t> ids;
      for (auto& i : o) ids.push_back((uint64_t)i->id);
      std::sort(ids.begin(), ids.end());
      for (auto i : ids) d(i);
      TreeF::Item cf;
      for (auto& v : cf.values) v = (float)r.uni(-30, 30);
      std::vector<TreeF::ConstIterator> of;
      f.searchInBox(cf, 20.f, of);
      d((uint64_t)of.size());
      d((uint64_t)(t.findItem(c) - t.begin()));
    }
    d((uint64_t)t.computeLevel(t.begin(), t.end()));
    int lo[2] = {(int)r.range(-50, 0), (int)r.range(-50, 0)}, hi[2] = {(int)r.range(0, 50), (int)r.range(0, 50)}, a[2], b[2], c[2];
    rofl::MortonTraits<int, 2>::split(lo, hi, a, b, c);
    d((uint64_t)(a[0] + 7 * a[1] + 11 * b[0] + 13 * b[1]));
    return d.h;
  });
  add("consensus", [](uint64_t s) {
    JRng r(s);
    Digest d;
    std::vector<double> v(30), g(30);
    for (auto& x : v) x = r.uni(-3, 3);
    for (auto& x : g) x = r.uni(0.1, 0.6);
    double e = 0;
    std::vector<bool> in;
    rofl::estimateTranslationTls(v, g, e, in);
    d(e);
    for (bool b : in) d((uint64_t)b);
    return d.h;
  });
  add("parameters", [](uint64_t s) {
    JRng r(s);
    Digest d;
    rofl::ParamMap m;
    std::ostringstream t;
    for (int i = 0; i < 12; ++i) t << "name" << i << " " << r.range(0, 1000) << "\n# comment\n";
    t << "list [" << r.range(0, 9) << "," << r.range(0, 9) << "," << r.range(0, 9) << "]\npath ~/x\n";
    std::istringstream in(t.str());
    m.read(in);
    int v;
    m.getParam<int>("name3", v, 0);
    d((uint64_t)v);
    double w;
    m.getParam<double>("absent", w, 0.5);
    d(w);
    std::vector<int> l(3);
    m.getParamContainer("list", l.begin(), l.end(), "", 0, "[],");
    for (int x : l) d((uint64_t)x);
    char* argv[] = {(char*)"prog", (char*)"-name1", (char*)"77", (char*)"-other", (char*)"abc"};
    m.read(5, argv);
    m.adaptTildeInPaths();
    std::ostringstream o;
    m.write(o);
    d(o.str());
    return d.h;
  });
  add("trigonometry", [](uint64_t s) {
    JRng r(s);
    Digest d;
    for (int i = 0; i < 20; ++i) {
      double c, q, x = r.uni(-20, 20), lo, hi;
      float cf, sf;
      rofl::fastCosSin(x, c, q);
      rofl::fastCosSinf((float)x, cf, sf);
      d(c), d(q), d((double)cf), d((double)sf), d(rofl::fastAtan2(x, r.uni(-2, 2))), d((double)rofl::fastAtan2f((float)x, (float)r.uni(-2, 2)));
      d(rofl::fastAtan(0.01 * x)), d(rofl::normalize360(x)), d(rofl::normalize180(x));
      rofl::findLUCos(x, x + r.uni(0, 5), lo, hi);
      d(lo), d(hi);
      std::vector<double> cf2(8);
      for (auto& v : cf2) v = r.uni(-1, 1);
      d(rofl::evaluateFourier(cf2, x));
      rofl::findLUFourier(cf2, x, x + 0.3, lo, hi);
      d(lo), d(hi);
    }
    return d.h;
  });
  add("bessel functions", [](uint64_t s) {
    JRng r(s);
    Digest d;
    std::vector<double> y;
    for (int i = 0; i < 5; ++i) {
      rofl::evaluatePnebiVector((int)r.range(0, 12), r.uni(0, r.chance(0.5) ? 30 : 400), y);
      for (double v : y) d(v);
      d(rofl::evaluatePnebi0Polynom(r.uni(0, 30)));
    }
    rofl::PnebiLUT t;
    t.init((int)r.range(1, 6), 0.05);
    t.eval(r.uni(-10, 10), y);
    for (double v : y) d(v);
    d(t.eval(1, r.uni(0, 20)));
    return d.h;
  });
  add("vector arrays", [](uint64_t s) {
    JRng r(s);
    Digest d;
    rofl::VectorArray<double, 3> a, b;
    for (int i = 0; i < 3; ++i) a[i] = r.uni(-1, 1), b[i] = r.uni(1, 2);
    auto c = (a + b) * b - a / b;
    for (int i = 0; i < 3; ++i) d(c[i]);
    return d.h;
  });
  add("stamps", [](uint64_t s) {
    Digest d;
    std::string t = rofl::generateStampedString(cat("a", s % 7, "_"), ".txt");
    d((uint64_t)t.size());
    d(t.substr(0, 3));
    std::vector<std::string> f;
    rofl::getDirectoryFiles(listed(), f);
    d((uint64_t)f.size());
    for (auto& x : f) d(x.substr(x.rfind('/') + 1));
    return d.h;
  });
  add("scoped timers", [](uint64_t s) {
    rofl::ScopedTimer t(cat("timer", s % 3));
    ROFL_COMMON_PROFILER_SCOPED_TIMER_HERE
    std::ostringstream o;
    rofl::Profiler::getProfiler().printStats(o);
    return (uint64_t)(t.elapsedTimeMs() >= 0);
  });
  add("bits and fields", [](uint64_t s) {
    JRng r(s);
    Digest d;
    for (int i = 0; i < 8; ++i) {
      uint64_t x = r.next() >> r.below(60);
      d((uint64_t)rofl::nlz8((uint8_t)x)), d((uint64_t)rofl::nlz16((uint16_t)x)), d((uint64_t)rofl::nlz32((uint32_t)x)), d((uint64_t)rofl::nlz64(x));
      d((uint64_t)rofl::flp2u8((uint8_t)x)), d((uint64_t)rofl::flp2u16((uint16_t)x)), d((uint64_t)rofl::flp2u32((uint32_t)x)), d((uint64_t)rofl::flp2u64(x));
      d((uint64_t)rofl::clp2u8((uint8_t)(x & 63))), d((uint64_t)rofl::clp2u16((uint16_t)(x & 4095))), d((uint64_t)rofl::clp2u32((uint32_t)(x & 0xffffff))), d((uint64_t)rofl::clp2u64(x >> 4));
      int32_t m, e;
      int64_t ml, el;
      bool sg;
      float f = (float)r.uni(-100, 100);
      double g = r.uni(-1e5, 1e5);
      rofl::getMantissaExpSignF(f, m, e, sg);
      d((uint64_t)(uint32_t)m), d((uint64_t)(uint32_t)e), d((uint64_t)sg);
      rofl::getMantissaExpSignD(g, ml, el, sg);
      d((uint64_t)ml), d((uint64_t)el), d((uint64_t)sg);
      d((double)rofl::FloatTraits<float>::dividePow2(f, 2)), d(rofl::FloatTraits<double>::dividePow2(g, 3));
      rofl::FloatTraits<double>::decompose(g, ml, el, sg);
      d(rofl::FloatTraits<double>::compose(ml, el, sg));
      rofl::FloatTraits<float>::decompose(f, m, e, sg);
      d((double)rofl::FloatTraits<float>::compose(m, e, sg));
      d((uint64_t)rofl::IntegerTraits<int16_t>::removeSign((int16_t)x)), d((uint64_t)rofl::IntegerTraits<int32_t>::log2Mod((int32_t)(x & 0xfffff) + 1)), d((uint64_t)rofl::IntegerTraits<uint32_t>::floorPow2((uint32_t)x | 1));
    }
    return d.h;
  });
  add("morton blocks", [](uint64_t s) {
    JRng r(s);
    Digest d;
    for (int i = 0; i < 4; ++i) {
      double a[3], b[3], l[3], m[3], u[3];
      float af[2], bf[2], lf[2], mf[2], uf[2];
      unsigned au[2], bu[2], lu[2], mu[2], uu[2];
      for (int k = 0; k < 3; ++k) a[k] = r.uni(-9, 9), b[k] = r.uni(-9, 9);
      for (int k = 0; k < 2; ++k) af[k] = (float)r.uni(-9, 9), bf[k] = (float)r.uni(-9, 9), au[k] = (unsigned)r.below(1000), bu[k] = (unsigned)r.below(1000);
      d((uint64_t)rofl::MortonTraits<double, 3>::compare(a, b)), d((uint64_t)rofl::MortonTraits<double, 3>::distance(a, b));
      rofl::MortonTraits<double, 3>::split(a, b, l, m, u);
      for (int k = 0; k < 3; ++k) d(l[k]), d(m[k]), d(u[k]);
      d((uint64_t)rofl::MortonTraits<float, 2>::compare(af, bf)), d((uint64_t)rofl::MortonTraits<float, 2>::distance(af, bf));
      rofl::MortonTraits<float, 2>::split(af, bf, lf, mf, uf);
      for (int k = 0; k < 2; ++k) d((double)lf[k]), d((double)mf[k]), d((double)uf[k]);
      d((uint64_t)rofl::MortonTraits<unsigned, 2>::compare(au, bu)), d((uint64_t)rofl::MortonTraits<unsigned, 2>::distance(au, bu));
      rofl::MortonTraits<unsigned, 2>::split(au, bu, lu, mu, uu);
      for (int k = 0; k < 2; ++k) d((uint64_t)lu[k]), d((uint64_t)mu[k]), d((uint64_t)uu[k]);
      d((double)rofl::xorFloat(af[0], bf[0])), d(rofl::xorFloat(a[0], b[0]));
      int il, im, iu, x = (int)r.range(-50, 50), y = (int)r.range(-50, 50);
      d((uint64_t)rofl::intervalPow2Int(x, y, il, im, iu)), d((uint64_t)(il + 1000)), d((uint64_t)(im + 1000)), d((uint64_t)(iu + 1000));
      d((uint64_t)rofl::intervalPow2Float(af[1], bf[1], lf[0], mf[0], uf[0])), d((double)mf[0]);
    }
    return d.h;
  });
  add("morton tree ranges", [](uint64_t s) {
    JRng r(s);
    Digest d;
    Tree t;
    std::vector<Tree::Item> items(20);
    for (auto& it : items)
      for (auto& v : it.values) v = (int)r.range(-20, 20);
    t.insert(items.begin(), items.end(), true);
    std::vector<std::array<int, 2>> raw(15);
    for (auto& a : raw) a = {{(int)r.range(-20, 20), (int)r.range(-20, 20)}};
    auto conv = [](const std::array<int, 2>& a) { return Tree::Item({a[0], a[1]}, 3); };
    t.insert(raw.begin(), raw.end(), conv, true);
    Tree copy(t);
    Tree::Item lo({-8, -9}, 0), hi({7, 11}, 0);
    std::vector<Tree::ConstIterator> o;
    copy.searchInBox(lo, hi, o);
    std::vector<uint64_t> ids;
    for (auto& i : o) ids.push_back((uint64_t)i->id);
    std::sort(ids.begin(), ids.end());
    for (auto i : ids) d(i);
    d((uint64_t)copy.size());
    d(copy.begin()->toString());
    return d.h;
  });
  add("boxes and grids in other forms", [](uint64_t s) {
    JRng r(s);
    Digest d;
    rofl::IntervalIndices<2, int> a, b;
    a.initMinMax({{-2, (int)r.range(-4, 0)}}, {{3, 4}});
    b = a.clone();
    b.translate(1, 2);
    b.translate({{1, -1}});
    d((uint64_t)(b.max()[1] + 50)), d((uint64_t)(b.last()[0] + 50)), d((uint64_t)b.dimension(1)), d((uint64_t)b.empty());
    std::ostringstream o;
    o << b;
    d(o.str());
    rofl::Grid<2, double, int, rofl::detail::BoustrophedonIndexer<2, int>, std::vector, std::allocator> g;
    g.initMinMax({{-1, -2}}, {{3, 3}});
    g.fill(0.5);
    for (int i = 0; i < 20; ++i) g.value({{(int)r.range(-1, 3), (int)r.range(-2, 3)}}) += i;
    for (int i = 0; i < (int)g.size(); ++i) d(g.value(i)), d((uint64_t)(g.getIndices(i)[0] + 9));
    rofl::Grid<1, int, int, rofl::detail::RasterIndexer<1, int>, std::vector, std::allocator> h;
    h.initCenter({{2}}, {{3}});
    h.fill((int)r.below(9));
    d((uint64_t)h.size());
    return d.h;
  });
  add("peaks of other domains", [](uint64_t s) {
    JRng r(s);
    Digest d;
    std::vector<double> v(60);
    for (auto& x : v) x = r.uni(0, 3);
    rofl::PeakFinderD<1, double, int, std::greater<double>> p1;
    p1.setDomain({{10}}, {{49}});
    p1.setPeakWindow({{3}});
    p1.enableFilterPeakMin(true, 1.5);
    std::vector<std::array<int, 1>> o1;
    p1.detect([&](const std::array<int, 1>& i) { return v[i[0]]; }, std::back_inserter(o1));
    for (auto& x : o1) d((uint64_t)x[0]);
    rofl::PeakFinderD<2, double, int, std::less<double>> p2;
    p2.setDomainCentered({{3, 4}}, {{2, 3}});
    p2.setPeakWindow({{1, 1}});
    std::vector<std::array<int, 2>> o2;
    p2.detect([&](const std::array<int, 2>& i) { return v[(size_t)(i[0] * 7 + i[1]) % 60]; }, std::back_inserter(o2));
    for (auto& x : o2) d((uint64_t)(x[0] * 10 + x[1]));
    return d.h;
  });
  add("sets and heaps in other forms", [](uint64_t s) {
    JRng r(s);
    Digest d;
    rofl::DisjointSet ds;
    ds.initSets(10);
    for (int i = 0; i < 5; ++i) ds.makeSet();
    for (int i = 0; i < 9; ++i) d((uint64_t)(ds.join((int)r.below(15), (int)r.below(15)) >= 0));
    std::vector<int> roots;
    ds.parents(std::back_inserter(roots));
    d((uint64_t)roots.size()), d((uint64_t)ds.size()), d((uint64_t)ds.nodeNum());
    std::vector<int> l = {5, 2, 9, 2};
    rofl::LabelSet a(l.begin(), l.end()), b(a);
    a.remove((int)r.below(10));
    for (auto& c : {a.unionSet((int)r.below(12)), b.differenceSet(9)})
      for (auto it = c.begin(); it != c.end(); ++it) d((uint64_t)*it);
    d((uint64_t)(a != b)), d((uint64_t)a.size()), d((uint64_t)a.empty());
    std::ostringstream o;
    b.print(o);
    d(o.str());
    b.clear();
    rofl::MinMaxHeap<std::string, std::greater<std::string>> h;
    for (int i = 0; i < 25; ++i) h.push(cat(r.below(100), "some longer text to be allocated"));
    while (h.size() > 2) d(h.top()), d(h.bottom()), d(h.nextTop()), r.chance(0.5) ? h.popTop() : h.popBottom();
    uint64_t n = 0;
    for (auto it = h.begin(); it != h.end(); ++it) n++;
    d(n);
    return d.h;
  });
  add("parameter files", [](uint64_t s) {
    JRng r(s);
    Digest d;
    rofl::ParamMap m;
    for (int i = 0; i < 6; ++i) m.setParam<double>(cat("d", i), (double)r.range(0, 50));
    m.setParamString("text", "abc");
    m.setParamString("list", "[1,2,3]");
    static std::atomic<uint64_t> serial{0};
    std::string f = cat(getenv("VMON_SCRATCH"), "/p", serial.fetch_add(1, std::memory_order_relaxed), ".txt");
    d((uint64_t)m.write(f));
    rofl::ParamMap n;
    d((uint64_t)n.read(f));
    unlink(f.c_str());
    std::vector<int> l;
    n.getParamContainerInserter("list", std::back_inserter(l), 0);
    for (int x : l) d((uint64_t)x);
    std::string t;
    n.getParam<std::string>("text", t, std::string("none"));
    d(t);
    std::ostringstream o;
    n.write(o, "# ");
    d(o.str());
    n.clear();
    return d.h;
  });
  add("floats and printed tables", [](uint64_t s) {
    JRng r(s);
    Digest d;
    d((double)rofl::fastAtanf((float)r.uni(-1, 1)));
    rofl::PnebiLUT t(3, 0.05);
    std::ostringstream o;
    t.printLUT(o, 8, (int)r.below(3));
    d(o.str()), d((uint64_t)t.getOrderMax());
    std::vector<float> v(12), g(12);
    for (auto& x : v) x = (float)r.uni(-3, 3);
    for (auto& x : g) x = (float)r.uni(0.1, 0.6);
    float e = 0;
    std::vector<bool> in;
    rofl::estimateTranslationTls(v, g, e, in);
    d((double)e);
    rofl::VectorArray<float, 4> a, b;
    for (int i = 0; i < 4; ++i) a[i] = (float)r.uni(-1, 1), b[i] = (float)r.uni(1, 2);
    a += b, a *= 2.0f;
    for (int i = 0; i < 4; ++i) d((double)a[i]);
    return d.h;
  });
  add("objects as constructed", [](uint64_t s) {
    JRng r(s);
    Digest d;
    rofl::PeakFinderD<2, int, int, std::greater<int>> pf;  // no window, no filter
    pf.setDomain({{3, (int)r.range(2, 5)}});
    std::vector<std::array<int, 2>> out;
    pf.detect([&](const std::array<int, 2>& i) { return (i[0] * 7 + i[1] * 3) % 5; }, std::back_inserter(out));
    d((uint64_t)out.size());
    for (auto& o : out) d((uint64_t)((o[0] * 7 + o[1] * 3) % 5));
    rofl::PeakFinderD<1, double> pl{std::less<double>()};
    pl.setDomain({{6}});
    std::vector<std::array<int, 1>> out1;
    pl.detect([&](const std::array<int, 1>& i) { return (double)((i[0] * 5) % 7); }, std::back_inserter(out1));
    d((uint64_t)out1.size());
    rofl::IntervalIndices<3, int> box;
    d((uint64_t)box.size()), d((uint64_t)box.empty()), d((uint64_t)(box.min()[2] + 9)), d((uint64_t)(box.beginRaster() == box.endRaster()));
    rofl::Grid<2, int, int, rofl::detail::RasterIndexer<2, int>, std::vector, std::allocator> g, g2(std::array<int, 2>{{2, 3}}), g3(std::array<int, 2>{{-1, 4}}, std::array<int, 2>{{3, 2}});
    d((uint64_t)g.size()), d((uint64_t)g.inside({{0, 0}}));
    for (int i = 0; i < 6; ++i) d((uint64_t)g2.value(i)), d((uint64_t)g3.value(i));
    g2.initBounds({{4, 5}});
    g3.initMinMax({{0, 0}}, {{4, 4}});
    d((uint64_t)g2.value(19)), d((uint64_t)g3.value(24));
    rofl::DisjointSet ds;
    d((uint64_t)ds.setNum()), d((uint64_t)ds.nodeNum());
    for (int i = 0; i < 6; ++i) d((uint64_t)ds.makeSet());
    for (int i = 0; i < 5; ++i) ds.join((int)r.below(6), (int)r.below(6));
    rofl::DisjointSet di(7), dr;
    dr.initSets(8);
    for (int i = 0; i < 7; ++i) di.join(i, (int)r.below(7)), dr.join((int)r.below(8), i), d((uint64_t)di.size(i)), d((uint64_t)dr.size(i)), d((uint64_t)di.find(i)), d((uint64_t)dr.find(i));
    for (int i = 0; i < 6; ++i) d((uint64_t)ds.size(i)), d((uint64_t)ds.find(i));
    rofl::LabelSet ls;
    d((uint64_t)ls.size()), d((uint64_t)ls.inside(0)), d((uint64_t)ls.empty());
    Tree t;
    Tree::Item q({1, 2}, 5), q0;
    q0.values[0] = 3, q0.values[1] = 4;
    d((uint64_t)t.size()), d((uint64_t)(t.findItem(q) - t.begin()));
    t.insert(q0);
    t.insert(q);
    std::vector<Tree::ConstIterator> o;
    t.searchInBox(q, 3, o);
    d((uint64_t)o.size()), d((uint64_t)t.begin()->id);
    Tree ta(t), tb;
    ta.insert(Tree::Item({-5, 7}, 2));
    tb = ta;
    d((uint64_t)(tb.findItem(q) - tb.begin())), d((uint64_t)(ta.findItem(q) - ta.begin()));
    rofl::PnebiLUT lut;
    std::vector<double> y;
    lut.eval(1.0, y);
    d((uint64_t)y.size()), d(lut.eval(0, 1.0)), d((uint64_t)lut.getOrderMax());
    rofl::ParamMap m;
    int v = 3;
    d((uint64_t)m.getParam<int>("x", v, 4)), d((uint64_t)v);
    rofl::MinMaxHeap<int> h;
    d((uint64_t)h.size()), d((uint64_t)h.empty());
    rofl::VectorArray<double, 2> va;
    va[0] = 1, va[1] = 2;
    rofl::VectorArray<double, 2> vb(va);
    d((vb + va)[1]);
    double lo, hi, e;
    rofl::findLUFourier({0.5, 0}, 0, r.uni(0, 3), lo, hi);
    d(lo), d(hi);
    std::vector<bool> in;
    rofl::estimateTranslationTls(std::vector<double>{r.uni(-1, 1)}, std::vector<double>{0.5}, e, in);
    d(e), d((uint64_t)in.size());
    return d.h;
  });
#ifdef VDET
  add("printing on the standard output", [](uint64_t s) {
    JRng r(s);
    Digest d;
    std::ostringstream o;
    std::streambuf* old = std::cout.rdbuf(o.rdbuf());
    rofl::Profiler::getProfiler().printStats(std::cout);
    o.str("");
    rofl::PnebiLUT t(2, 0.1);
    t.printLUT(std::cout, 5, 2);
    rofl::LabelSet ls;
    rofl::MinMaxHeap<int> h;
    rofl::ParamMap m;
    for (int i = 0; i < 6; ++i) ls.insert((int)r.below(20)), h.push((int)r.below(20)), m.setParam(cat("k", i), r.uni(-1, 1));
    std::cout << ls;
    h.print(std::cout);
    m.write(std::cout);
    m.write(std::cout, "> ");
    S.box.print(std::cout);
    S.tree.begin()->print(std::cout);
    std::cout.rdbuf(old);
    const std::string text = o.str();
    d((uint64_t)std::count(text.begin(), text.end(), '\n'));  // numbers appear in the format of the stream
    return d.h;
  });
#endif
  // ---- shared objects, only read
  add("shared tree", [](uint64_t s) {
    JRng r(s);
    Digest d;
    Tree::Item c;
    for (auto& v : c.values) v = (int)r.range(-30, 30);
    std::vector<Tree::ConstIterator> o;
    S.tree.searchInBox(c, (int)r.range(1, 30), o);
    std::vector<uint64_t> ids;
    for (auto& i : o) ids.push_back((uint64_t)(i - S.tree.begin()));
    std::sort(ids.begin(), ids.end());
    for (auto i : ids) d(i);
    d((uint64_t)(S.tree.findItem(c) - S.tree.begin()));
    d((uint64_t)S.tree.computeLevel(S.tree.begin(), S.tree.begin() + r.range(1, 60)));
    return d.h;
  });
  add("shared look-up table", [](uint64_t s) {
    JRng r(s);
    Digest d;
    std::vector<double> y;
    for (int i = 0; i < 10; ++i) {
      d(S.lut.eval((int)r.range(0, 8), r.uni(-30, 30)));
      S.lut.eval(r.uni(-30, 30), y);
      for (double v : y) d(v);
    }
    return d.h;
  });
  add("shared grid, box and peak finder", [](uint64_t s) {
    JRng r(s);
    Digest d;
    const auto& g = S.grid;
    for (int i = 0; i < 10; ++i) {
      std::array<int, 2> x = {{(int)r.below(7), (int)r.below(9)}};
      d((uint64_t)g.value(x)), d((uint64_t)g.value(x.data())), d((uint64_t)g.value(g.getPos(x))), d((uint64_t)g.inside({{x[0] + 3, x[1]}}));
    }
    const auto& b = S.box;
    for (auto it = b.beginBoustrophedon(); it != b.endBoustrophedon(); ++it) d((uint64_t)((*it)[0] + 5 * (*it)[1] + 50 * (*it)[2]));
    for (auto it = b.beginRaster(); it != b.endRaster(); ++it) d((uint64_t)((*it)[0] + 5 * (*it)[1] + 50 * (*it)[2]));
    d((uint64_t)b.inside({{0, 3, 1}})), d((uint64_t)b.size());
    const Peaks& p = S.peaks;
    std::vector<std::array<int, 2>> out;
    p.detect([&](const std::array<int, 2>& i) { return g.value(i); }, std::back_inserter(out));
    std::sort(out.begin(), out.end());
    for (auto& o : out) d((uint64_t)(o[0] * 100 + o[1]));
    return d.h;
  });
  add("shared labels, heap and parameters", [](uint64_t s) {
    JRng r(s);
    Digest d;
    const rofl::LabelSet& a = S.labels;
    rofl::LabelSet b;
    for (int i = 0; i < 5; ++i) b.insert((int)r.range(0, 60));
    for (auto& c : {a.unionSet(b), a.intersectionSet(b), a.differenceSet(b)})
      for (auto it = c.begin(); it != c.end(); ++it) d((uint64_t)*it);
    d((uint64_t)a.inside((int)r.range(0, 60)));
    d((uint64_t)(a == b));
    const rofl::MinMaxHeap<int>& h = S.heap;
    d((uint64_t)h.top()), d((uint64_t)h.bottom()), d((uint64_t)h.nextTop()), d((uint64_t)h.nextBottom());
    const rofl::ParamMap& m = S.params;
    std::ostringstream o;
    m.write(o);
    d(o.str());
    d(rofl::evaluateFourier(S.coeffs, r.uni(-7, 7)));
    return d.h;
  });
}

#ifdef VDET
#include "repeatable.h"
#else
const char* vmon_property() { return "C28"; }
uint64_t vmon_cases(bool thorough) { return thorough ? 8000 : 600; }

static uint64_t statCount(const std::string& label, double& avg, double& var, double& mn, double& mx) {
  std::ostringstream o;
  o << std::setprecision(17);
  rofl::Profiler::getProfiler().printStats(o);
  std::istringstream in(o.str());
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream l(line);
    std::string name;
    uint64_t n;
    if (l >> name >> avg >> var >> mn >> mx >> n && name == label) return n;
  }
  return 0;
}

void vmon_case(uint64_t idx, Rng& r) {
  if (jobs().empty()) {
    // the time zone data of the C library, read under its own lock
    tzset();
    time_t now = time(nullptr);
    struct tm x;
    char buf[64];
    localtime_r(&now, &x);
    strftime(buf, sizeof buf, "%c %Z", &x);
    registerCommon();
    registerGeometry();
    registerBoxes();
    registerAligner();
  }
  require("jobs compared", 2000);
  require("overlapping job pairs", 500);
  buildShared(r);
  const int T = (int)r.range(3, 6);
  struct Plan {
    std::vector<std::pair<int, uint64_t>> todo;
    std::vector<uint64_t> got;
    std::vector<double> measures;
    std::string error;
  };
  std::vector<Plan> plan(T);
  bool same = r.chance(0.5);  // all threads in the same order: the same operation at the same time
  std::vector<int> order(jobs().size());
  for (size_t i = 0; i < order.size(); ++i) order[i] = (int)i;
  r.shuffle(order);
  for (auto& p : plan) {
    if (!same) r.shuffle(order);
    for (int j : order) p.todo.push_back({j, r.next()});
    for (int i = 0; i < 20; ++i) p.measures.push_back(r.uni(1, 100));
    p.got.resize(p.todo.size());
  }
  std::string label = cat("case", idx);
  std::atomic<int> ready{0};
  // what runs at the same time, observed without ordering the threads
  static std::atomic<int> running[16];
  for (auto& x : running) x.store(-1, std::memory_order_relaxed);
  std::vector<std::vector<uint64_t>> pairs(T);
  std::vector<std::thread> th;
  op("threads");
  for (int k = 0; k < T; ++k) {
    uint64_t jit = r.next();
    th.emplace_back([&, k, jit] {
      Plan& p = plan[k];
      Rng q(jit);
      ready.fetch_add(1, std::memory_order_relaxed);
      while (ready.load(std::memory_order_relaxed) < T) {
      }
      try {
        for (size_t i = 0; i < p.todo.size(); ++i) {
          running[k].store(p.todo[i].first, std::memory_order_relaxed);
          for (int o = 0; o < T; ++o) {
            int other = running[o].load(std::memory_order_relaxed);
            if (o != k && other >= 0) pairs[k].push_back((uint64_t)p.todo[i].first * 256 + other);
          }
          p.got[i] = jobs()[p.todo[i].first].run(p.todo[i].second);
          if (i < p.measures.size()) rofl::Profiler::getProfiler().updateStat(label, p.measures[i]);
          if (q.chance(0.2)) std::this_thread::yield();
        }
      } catch (const std::exception& e) {
        p.error = e.what();
      }
      running[k].store(-1, std::memory_order_relaxed);
    });
  }
  for (auto& t : th) t.join();
  op("alone");
  for (int k = 0; k < T; ++k) {
    Plan& p = plan[k];
    CHECK(p.error.empty(), "exception", "a thread threw: ", p.error);
    for (size_t i = 0; i < p.todo.size(); ++i) {
      uint64_t w = jobs()[p.todo[i].first].run(p.todo[i].second);
      CHECK(w == p.got[i], "interference", "job '", jobs()[p.todo[i].first].name, "' gives other results among ", T, " threads than alone");
      count("jobs compared");
    }
    for (auto x : pairs[k]) {
      count("overlapping job pairs");
      sig(x);
    }
  }
  double avg, var, mn, mx, sum = 0, sq = 0, lo = 1e9, hi = 0;
  uint64_t n = 0;
  for (auto& p : plan)
    for (size_t i = 0; i < p.measures.size() && i < p.todo.size(); ++i) sum += p.measures[i], lo = std::min(lo, p.measures[i]), hi = std::max(hi, p.measures[i]), n++;
  uint64_t c = statCount(label, avg, var, mn, mx);
  CHECK(c == n, "lost", n, " measures recorded by ", T, " threads, the profiler counts ", c);
  CHECK(std::fabs(avg - sum / n) < 1e-9 && mn == lo && mx == hi, "lost", "statistics of measures from ", T, " threads: mean ", avg, " min ", mn, " max ", mx, " expected ", sum / n, " ", lo, " ", hi);
  for (auto& p : plan)
    for (size_t i = 0; i < p.measures.size() && i < p.todo.size(); ++i) sq += (p.measures[i] - sum / n) * (p.measures[i] - sum / n);
  CHECK(std::fabs(var - sq / (n - 1)) < 1e-8 * (1 + var), "lost", "variance of measures from ", T, " threads: ", var, " expected ", sq / (n - 1));
  count("measures recorded", n);
  count("threads", T);
  if (wantSample()) sample(cat(T, " threads x ", jobs().size(), " jobs, ", n, " measures, ", pairs[0].size(), " overlaps seen by the first"));
}
#endif  // VDET

#elif VPART == 1
#include <rofl/geometry/base_geometry2.h>
#include <rofl/geometry/correspondence_graph_association.h>
#include <rofl/geometry/gis.h>
#include <rofl/geometry/hough_line_detector.h>
#include <rofl/geometry/hough_plane_detector.h>

static rofl::HoughPlaneDetector* sharedPlanes() {
  static rofl::HoughPlaneDetector* h = [] {
    auto* h = new rofl::HoughPlaneDetector(4, 8, 10, 0.5f);
    Rng r(5);
    rofl::VectorVector3 p;
    for (int i = 0; i < 30; ++i) p.push_back(rofl::Vector3((float)r.uni(-2, 2), (float)r.uni(-2, 2), (float)r.uni(-2, 2)));
    h->insert(p);
    return h;
  }();
  return h;
}

static rofl::HoughLineDetector* sharedLines() {
  static rofl::HoughLineDetector* h = [] {
    auto* h = new rofl::HoughLineDetector(18, 12, 0.3f);
    Rng r(6);
    rofl::VectorVector2 p;
    for (int i = 0; i < 30; ++i) p.push_back(rofl::Vector2((float)r.uni(-2, 2), (float)r.uni(-2, 2)));
    h->insert(p);
    return h;
  }();
  return h;
}

template <typename H, typename D>
static void digestPlanes(const H& h, D& d) {
  std::vector<rofl::HoughPlaneDetector::Indices3> pl;
  h.findPlanes(pl);
  std::sort(pl.begin(), pl.end());
  for (auto& i : pl) d((uint64_t)(i[0] * 10000 + i[1] * 100 + i[2])), d((double)h.getPlaneParam(i)(3)), d((uint64_t)h.getHoughTransform(i));
  rofl::VectorVector3 n;
  h.findNormalMax(n);
  d((uint64_t)n.size());
  rofl::HoughPlaneDetector::VectorPlaneParam pp;
  h.findParallelPlanes(1, 2, pp);
  d((uint64_t)pp.size());
}

void registerGeometry() {
  auto add = [](const char* n, std::function<uint64_t(uint64_t)> f) { jobs().push_back({n, f}); };
  sharedPlanes();
  add("plane detector", [](uint64_t s) {
    JRng r(s);
    Digest d;
    rofl::HoughPlaneDetector h(3, 8, 10, 0.5f);
    rofl::VectorVector3 p;
    for (int i = 0; i < 15; ++i) p.push_back(rofl::Vector3((float)r.uni(-2, 2), (float)r.uni(-2, 2), (float)r.uni(-2, 2)));
    h.insert(p);
    digestPlanes(h, d);
    return d.h;
  });
  add("shared plane detector", [](uint64_t s) {
    Digest d;
    const rofl::HoughPlaneDetector& h = *sharedPlanes();
    digestPlanes(h, d);
    d((uint64_t)h.getHoughSpectrum((int)(s % 4), (int)(s % 8)));
    return d.h;
  });
  add("line detector", [](uint64_t s) {
    JRng r(s);
    Digest d;
    rofl::HoughLineDetector h(18, 12, 0.3f);
    rofl::VectorVector2 p;
    for (int i = 0; i < 15; ++i) p.push_back(rofl::Vector2((float)r.uni(-2, 2), (float)r.uni(-2, 2)));
    h.insert(p);
    std::vector<rofl::HoughLineDetector::Indices2> l;
    h.findLines(l);
    for (auto& i : l) d((uint64_t)(i[0] * 100 + i[1]));
    std::vector<float> a;
    h.findSpectrumAngleMax(a);
    for (float x : a) d((double)x);
    return d.h;
  });
  sharedLines();
  add("shared line detector", [](uint64_t s) {
    Digest d;
    const rofl::HoughLineDetector& h = *sharedLines();
    std::vector<rofl::HoughLineDetector::Indices2> l;
    h.findLines(l);
    for (auto& i : l) d((uint64_t)(i[0] * 100 + i[1])), d((uint64_t)h.getHoughTransform(i)), d((uint64_t)h.getHoughTransform(i[0], i[1]));
    std::vector<int> x;
    h.findSpectrumIndexMax(x);
    for (int i : x) d((uint64_t)i);
    rofl::VectorVector2 n;
    h.findNormalMax(n);
    for (auto& v : n) d((double)v(0)), d((double)v(1));
    d((uint64_t)h.getHoughSpectrum((int)(s % 18)));
    return d.h;
  });
  add("detectors in other forms", [](uint64_t s) {
    JRng r(s);
    Digest d;
    rofl::HoughPlaneDetector h;
    h.init({{3, 4, 5}}, rofl::Vector3(-0.5f, 0.1f, -1.f), rofl::Vector3(0.3f, 1.f, 0.5f));
    h.setPeakWindow(0.3f, 1.f, 0.6f);
    std::vector<std::array<float, 3>> p(6);
    for (auto& a : p) a = {{(float)r.uni(-2, 2), (float)r.uni(-2, 2), (float)r.uni(-2, 2)}};
    h.insert(p.begin(), p.end(), [](const std::array<float, 3>& a) { return rofl::Vector3(a[0], a[1], a[2]); });
    rofl::HoughPlaneDetector::VectorPlaneParam pp;
    h.findPlanes(pp);
    d((uint64_t)pp.size());
    std::vector<rofl::HoughPlaneDetector::Indices2> m;
    h.findSpectrumMax(m);
    for (auto& i : m) d((double)h.getNormal(i)(1)), d((uint64_t)h.getHoughSpectrum(i));
    h.setZero();
    d((uint64_t)h.getHoughTransform(0, 0, 0));
    rofl::HoughLineDetector l;
    l.init({{6, 7}}, rofl::Vector2(-0.3f, -1.f), rofl::Vector2(0.4f, 0.3f));
    l.setPeakWindow(0.5f, 0.5f);
    rofl::VectorVector2 q;
    for (int i = 0; i < 6; ++i) q.push_back(rofl::Vector2((float)r.uni(-2, 2), (float)r.uni(-2, 2)));
    l.insert(q);
    std::vector<rofl::HoughLineDetector::Indices1> x;
    l.findSpectrumIndicesMax(x);
    for (auto& i : x) d((uint64_t)i[0]);
    l.setZero();
    d((uint64_t)l.getHoughSpectrum(2));
    return d.h;
  });
  add("detectors as constructed", [](uint64_t s) {
    JRng r(s);
    Digest d;
    rofl::HoughPlaneDetector h, hc(2, 4, 5, 0.4f);
    rofl::HoughLineDetector l, lc(6, 5, 0.4f);
    d((uint64_t)h.getThetaNum()), d((uint64_t)h.getPhiNum()), d((uint64_t)h.getRhoNum()), d((double)h.getThetaMin()), d((double)h.getPhiMin()), d((double)h.getRhoMin()), d((double)h.getThetaRes()), d((double)h.getPhiRes()), d((double)h.getRhoRes());
    h.init(3, 5, 6, 0.5f);
    l.init(8, 6, 0.5f);
    std::vector<rofl::HoughPlaneDetector::Indices3> pi;
    std::vector<rofl::HoughLineDetector::Indices2> li;
    rofl::VectorVector3 p;
    rofl::VectorVector2 q;
    for (int k = 0; k < 2; ++k) {
      for (auto* x : {&h, &hc}) {
        x->insert(p);
        pi.clear();
        x->findPlanes(pi);
        d((uint64_t)pi.size()), d((uint64_t)x->getHoughSpectrum(1, 2)), d((uint64_t)x->getHoughTransform(1, 2, 3));
      }
      for (auto* x : {&l, &lc}) {
        x->insert(q);
        li.clear();
        x->findLines(li);
        d((uint64_t)li.size()), d((uint64_t)x->getHoughSpectrum(3)), d((uint64_t)x->getHoughTransform(2, 1));
      }
      for (int i = 0; i < 8; ++i) p.push_back(rofl::Vector3((float)r.uni(-2, 2), (float)r.uni(-2, 2), (float)r.uni(-2, 2))), q.push_back(rofl::Vector2((float)r.uni(-2, 2), (float)r.uni(-2, 2)));
    }
    rofl::CorrespondenceGraphAssociation c;  // default tolerance and distance
    std::vector<rofl::Vector2> a(3);
    for (auto& x : a) x << (float)r.uni(-3, 3), (float)r.uni(-3, 3);
    auto dist = [](const rofl::Vector2& x, const rofl::Vector2& y) -> rofl::Scalar { return (x - y).norm(); };
    std::vector<rofl::LabelSet> cl;
    c.associate(cl);
    d((uint64_t)cl.size());
    c.insertSrc(a.begin(), a.end(), dist);
    c.insertDst(a.begin(), a.end(), dist);
    c.associate(cl);
    d((uint64_t)cl.size());
    for (auto& x : cl) d((uint64_t)x.size());
    return d.h;
  });
  add("association", [](uint64_t s) {
    JRng r(s);
    Digest d;
    std::vector<rofl::Vector2> a(4), b;
    for (auto& p : a) p << (float)r.uni(-3, 3), (float)r.uni(-3, 3);
    for (auto& p : a) b.push_back(rofl::Vector2(1 - p(1), 2 + p(0)));
    auto dist = [](const rofl::Vector2& x, const rofl::Vector2& y) -> rofl::Scalar { return (x - y).norm(); };
    rofl::CorrespondenceGraphAssociation c;
    c.setTolerance(0.05f);
    c.insertSrc(a.begin(), a.end(), dist);
    c.insertDst(b.begin(), b.end(), dist);
    std::vector<rofl::CorrespondenceGraphAssociation::AssociationHypothesis> hyp;
    c.associate(hyp);
    std::vector<std::vector<std::pair<int, int>>> all;
    for (auto& h : hyp) {
      auto v = h.associations;
      std::sort(v.begin(), v.end());
      all.push_back(v);
    }
    std::sort(all.begin(), all.end());
    for (auto& v : all)
      for (auto& p : v) d((uint64_t)(p.first * 100 + p.second));
    std::vector<rofl::LabelSet> cl;
    c.setDistanceMin(0.1f);
    c.associate(cl);
    d((uint64_t)cl.size());
    return d.h;
  });
  add("planar geometry and coordinates", [](uint64_t s) {
    JRng r(s);
    Digest d;
    for (int i = 0; i < 5; ++i) {
      float x, y, z, la = (float)r.uni(-80, 80), lo = (float)r.uni(-180, 180);
      rofl::convertLatLonAltToECEF(la, lo, (float)r.uni(0, 100), x, y, z);
      d((double)x), d((double)y), d((double)z);
      rofl::convertLatLonToLocalXY(la, lo, la + 0.01f, lo - 0.02f, x, y);
      d((double)x), d((double)y);
      rofl::convertLocalXYToLatLon(la, lo, x, y, x, z);
      d((double)x), d((double)z), d((double)rofl::meterPerDegLat(la)), d((double)rofl::meterPerDegLon(la));
      rofl::Transform2 t;
      rofl::poseToIsometry2((float)r.uni(-2, 2), 1.0f, (float)r.uni(-7, 7), t);
      d((double)t.matrix()(0, 1)), d((double)rofl::normalizeAngle2Pi((float)r.uni(-20, 20)));
      d((uint64_t)rofl::insideAngleInterval((float)r.uni(-7, 7), 1.f, 4.f)), d((uint64_t)rofl::insideAngleIntervalEq((float)r.uni(-7, 7), 4.f, 1.f));
      d((double)rofl::ccw(rofl::Vector2(0, 0), rofl::Vector2(1, (float)r.uni(-1, 1)), rofl::Vector2(2, 3)));
    }
    return d.h;
  });
}

#elif VPART == 2
#include <rofl/geometry/box_registration.h>
template <typename T, int D>
static void box(const char* name) {
  typedef rofl::BoxRegistration<T, D> B;
  auto dims = [](Rng& r) {
    typename B::Point dim;
    for (int k = 0; k < D; ++k) dim(k) = (T)(1 + k + r.uni(0, 0.9));
    return dim;
  };
  auto use = [](const B& b, Rng& r, Digest& d, typename B::VectorPoint& c, typename B::Transform& t) {
    for (int i = 0; i < 12; ++i) {
      typename B::Point q, n;
      for (int k = 0; k < D; ++k) q(k) = (T)r.uni(-2, 2);
      b.associate(q, n);
      for (int k = 0; k < D; ++k) d((double)n(k));
      c.push_back(n);
    }
    t = B::Transform::Identity();
    b.estimateInitTranform(c, t);
    for (int i = 0; i < D; ++i)
      for (int j = 0; j <= D; ++j) d((double)t.matrix()(i, j));
  };
  static B* shared = nullptr;
  shared = new B;
  Rng r0(3);
  shared->setDimension(dims(r0));
  jobs().push_back({name, [=](uint64_t s) {
    JRng r(s);
    Digest d;
    typename B::VectorPoint c;
    typename B::Transform t;
    B b;
    b.setDimension(dims(r));
    use(b, r, d, c, t);
    b.computeTransform(c, t);
    for (int i = 0; i < D; ++i)
      for (int j = 0; j <= D; ++j) d((double)t.matrix()(i, j));
    typename B::VectorPoint c2;
    use(*shared, r, d, c2, t);
    return d.h;
  }});
}
void registerBoxes() {
  box<double, 2>("box registration");
  box<float, 3>("box registration in space");
}
#else
#include <pcl/point_types.h>
#include <rofl/pcl/point_cloud_plane_aligner.h>
void registerAligner() {
  typedef pcl::PointXYZ P;
  jobs().push_back({"plane aligner", [](uint64_t s) {
    JRng r(s);
    Digest d;
    rofl::PointCloudPlaneAligner<P> a;
    pcl::PointCloud<P>::Ptr c(new pcl::PointCloud<P>);
    for (int i = 0; i < 20; ++i) c->push_back(P((float)r.uni(-2, 2), (float)r.uni(-2, 2), (float)r.uni(-1, 1)));
    a.setInputCloud(c);
    a.compute();  // with the plane and the tolerance of a new object
    for (int i = 0; i < 4; ++i)
      for (int j = 0; j < 3; ++j) d((double)a.getTransform().matrix()(j, i)), d((double)a.getPlaneCoeffs()(i));
    a.setPlaneCoeffs(rofl::Vector4((float)r.uni(-1, 1), (float)r.uni(-1, 1), 0.5f, (float)r.uni(-1, 1)));
    a.setPlaneTol(0.4f);
    a.compute();
    pcl::PointCloud<P> o;
    a.transform(o);
    for (auto& p : o.points) d((double)p.x), d((double)p.y), d((double)p.z);
    for (int i = 0; i < 4; ++i) d((double)a.getPlaneCoeffs()(i));
    d((double)a.getTransform().matrix()(1, 2));
    return d.h;
  }});
}
#endif
