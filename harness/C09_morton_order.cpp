// C09: the Morton comparison against interleaved keys (integers) and the highest differing digit (floats), plus the laws of a total order.
#include "vmon.h"

#include <array>
#include <type_traits>

#include <rofl/common/morton_sort.h>

#include "morton_ref.h"

using namespace vmon;

template <typename T>
typename std::enable_if<std::is_integral<T>::value, T>::type coord(Rng& r, int style) {
  const int B = 8 * sizeof(T);
  switch (style) {
    case 0: return (T)r.next();
    case 1: return (T)r.range(-8, 8);
    case 2: return (T)((1ull << r.below(B)) + (uint64_t)r.range(-1, 1));
    case 3: return (T)(0 - ((1ull << r.below(B)) + (uint64_t)r.range(-1, 1)));
    case 4: return r.pick(std::vector<T>{std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), (T)0, (T)1, (T)-1, (T)(std::numeric_limits<T>::min() + 1), (T)(std::numeric_limits<T>::max() - 1)});
    default: return (T)(r.next() >> r.below(B));
  }
}
template <typename T>
typename std::enable_if<std::is_floating_point<T>::value, T>::type coord(Rng& r, int style) {
  const int EMIN = std::numeric_limits<T>::min_exponent, EMAX = std::numeric_limits<T>::max_exponent;
  switch (style) {
    case 0: {  // any normal number
      T m = (T)r.uni(0.5, 1.0);
      T v = std::ldexp(m, (int)r.range(EMIN, EMAX));
      if (!std::isfinite(v)) v = std::numeric_limits<T>::max();
      return r.chance(0.5) ? v : -v;
    }
    case 1: return (T)r.range(-8, 8);
    case 2: return (T)(r.range(-64, 64) * 0.125);
    case 3: {  // near a power of two, both sides
      T p = std::ldexp((T)1, (int)r.range(-20, 20));
      if (r.chance(0.3)) p = std::ldexp((T)1, (int)r.range(EMIN + 2, EMAX - 2));
      T v = p;
      int n = (int)r.range(-3, 3);
      for (int i = 0; i < std::abs(n); ++i) v = std::nextafter(v, n < 0 ? (T)0 : 2 * p);
      return r.chance(0.5) ? v : -v;
    }
    case 4: return r.pick(std::vector<T>{(T)0, (T)-0.0, std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::min(), -std::numeric_limits<T>::min(), (T)1, (T)-1});
    default: return (T)r.uni(-10, 10);
  }
}

template <typename T, int D>
struct Mon {
  using P = std::array<T, D>;
  using MT = rofl::MortonTraits<T, D>;
  static bool lt(const P& a, const P& b) { return MT::compare(a.data(), b.data()); }
  static std::string str(const P& p) {
    std::ostringstream o;
    o << std::setprecision(17) << "(";
    for (auto& x : p) o << +x << " ";
    o << ")";
    return o.str();
  }
  static P perturb(Rng& r, const P& p) {
    P q = p;
    int k = (int)r.range(1, D);
    for (int i = 0; i < k; ++i) {
      int d = (int)r.below(D);
      q[d] = tweak(r, q[d]);
    }
    return q;
  }
  template <typename U = T>
  static typename std::enable_if<std::is_integral<U>::value, U>::type tweak(Rng& r, U x) {
    return r.chance(0.5) ? (U)(x ^ (U)((typename std::make_unsigned<U>::type)1 << r.below(8 * sizeof(U)))) : (U)((typename std::make_unsigned<U>::type)x + (typename std::make_unsigned<U>::type)r.range(-2, 2));
  }
  template <typename U = T>
  static typename std::enable_if<std::is_floating_point<U>::value, U>::type tweak(Rng& r, U x) {
    U y;
    switch (r.below(4)) {
      case 0: y = std::nextafter(x, r.chance(0.5) ? std::numeric_limits<U>::max() : std::numeric_limits<U>::lowest()); break;
      case 1: y = x * (U)(1 + std::ldexp(1.0, -(int)r.range(1, std::numeric_limits<U>::digits))); break;
      case 2: y = -x; break;
      default: y = x * (U)2;
    }
    return std::isfinite(y) && (y == 0 || std::fabs(y) >= std::numeric_limits<U>::min()) ? y : x;
  }

  static void run(Rng& r, const char* ty) {
    int n = 12;
    std::vector<P> pts;
    int base = (int)r.below(6);
    for (int i = 0; i < n; ++i) {
      P p;
      if (!pts.empty() && r.chance(0.6)) {
        p = perturb(r, r.pick(pts));
      } else {
        for (auto& x : p) x = coord<T>(r, r.chance(0.7) ? base : (int)r.below(6));
      }
      pts.push_back(p);
    }
    // reference and antisymmetry
    op(cat("mortonCmp ", ty, " D=", D));
    std::vector<std::vector<char>> L(n, std::vector<char>(n));
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j) {
        L[i][j] = lt(pts[i], pts[j]);
        bool want = mref::less<T, D>(pts[i].data(), pts[j].data());
        if constexpr (std::is_integral<T>::value)
          if (want != (mref::key<T, D>(pts[i].data()) < mref::key<T, D>(pts[j].data()))) throw HarnessError("the two reference orders disagree");
        bool same = pts[i] == pts[j];
        if (same) {
          CHECK(!L[i][j], "irreflexive", ty, ": ", str(pts[i]), " is before itself / an equal point");
          count("equal_pairs");
        } else {
          CHECK((bool)L[i][j] == want, "order", ty, ": compare", str(pts[i]), str(pts[j]), " is ", (bool)L[i][j], " but the Morton order says ", want);
          count("pairs");
        }
      }
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j) {
        bool same = pts[i] == pts[j];
        if (!same) CHECK(L[i][j] != L[j][i], "total", ty, ": neither or both of ", str(pts[i]), str(pts[j]), " come first");
        // monotone: a componentwise smaller point never comes later
        bool le = true;
        for (int d = 0; d < D; ++d) le = le && pts[i][d] <= pts[j][d];
        if (le && !same) CHECK(L[i][j], "monotone", ty, ": ", str(pts[i]), " is componentwise below ", str(pts[j]), " but does not precede it");
        for (int k = 0; k < n; ++k)
          if (L[i][j] && L[j][k]) CHECK(L[i][k], "transitive", ty, ": order is not transitive on ", str(pts[i]), str(pts[j]), str(pts[k]));
      }
    count("triples", (uint64_t)n * n * n);
    uint64_t h = comb(hashStr(ty), D);
    for (auto& p : pts)
      for (auto& x : p) {
        uint64_t b = 0;
        memcpy(&b, &x, sizeof x);
        h = comb(h, b);
      }
    sig(h);
    count(ty);
    if (wantSample()) sample(cat(ty, " D=", D, " ", str(pts[0]), str(pts[1]), str(pts[2])));
  }
};

// bit difference of two floating-point values: the significands aligned to the larger value are compared digit by digit
template <typename F>
static void difference(Rng& r, const char* ty) {
  using M = Mon<F, 1>;
  const int MB = std::numeric_limits<F>::digits;
  op(cat("xorFloat ", ty));
  for (int k = 0; k < 20; ++k) {
    F a = coord<F>(r, (int)r.below(6)), b = r.chance(0.6) ? M::tweak(r, a) : coord<F>(r, (int)r.below(6));
    F got = rofl::xorFloat<F>(a, b), back = rofl::xorFloat<F>(b, a), want;
    if (a == b) want = 0;
    else if ((a < 0) != (b < 0)) want = std::numeric_limits<F>::infinity();
    else {
      F x = std::fabs(a), y = std::fabs(b);
      if (x < y) std::swap(x, y);
      int ex, ey = 0;
      uint64_t mx = (uint64_t)std::ldexp(std::frexp(x, &ex), MB), my = (uint64_t)std::ldexp(std::frexp(y, &ey), MB);
      if (y == 0 && ex < std::numeric_limits<F>::min_exponent + 70) continue;  // zero has no leading digit to align
      if (y == 0 || ex - ey >= 64) my = 0;
      else my >>= (ex - ey);
      want = std::ldexp((F)(mx ^ my), ex - MB);
      // under the range of normal values the difference is only known to be that small
      if (want < std::numeric_limits<F>::min() && got == back && got >= 0 && got < std::numeric_limits<F>::min()) want = got;
    }
    CHECK(got == want && back == want && !std::signbit(got), "difference", ty, ": the bit difference of ", std::setprecision(17), a, " and ", b, " is ", got, " (swapped ", back, ") instead of ", want);
    count("bit differences");
  }
}

// exhaustive: all pairs of 2-D int8 points on a coarse-fine lattice, all pairs of 1-D int8
static void exhaustive8(int row) {
  op("exhaustive int8");
  static const int8_t V[] = {-128, -127, -65, -64, -63, -33, -32, -9, -8, -7, -2, -1, 0, 1, 2, 3, 7, 8, 31, 32, 63, 64, 126, 127};
  const int N = sizeof(V);
  int8_t a[2] = {V[row], 0};
  for (int j = 0; j < N; ++j) {
    a[1] = V[j];
    for (int k = 0; k < N; ++k)
      for (int l = 0; l < N; ++l) {
        int8_t b[2] = {V[k], V[l]};
        bool got = rofl::MortonTraits<int8_t, 2>::compare(a, b), want = mref::less<int8_t, 2>(a, b);
        CHECK(got == want, "order", "int8: compare (", +a[0], ",", +a[1], ") (", +b[0], ",", +b[1], ") is ", got);
        uint8_t c[2] = {(uint8_t)a[0], (uint8_t)a[1]}, e[2] = {(uint8_t)b[0], (uint8_t)b[1]};
        got = rofl::MortonTraits<uint8_t, 2>::compare(c, e);
        want = mref::less<uint8_t, 2>(c, e);
        CHECK(got == want, "order", "uint8: compare (", +c[0], ",", +c[1], ") (", +e[0], ",", +e[1], ") is ", got);
      }
  }
  count("exhaustive_pairs", (uint64_t)N * N * N * 2);
  sig(comb(0xE8, row));
}

const char* vmon_property() { return "C09"; }
uint64_t vmon_cases(bool thorough) { return 24 + (thorough ? 150000 : 8000); }
void vmon_case(uint64_t idx, Rng& r) {
  require("pairs", 10000);
  require("float", 100);
  require("double", 100);
  if (idx < 24) {
    exhaustive8((int)idx);
    return;
  }
  if (idx % 7 == 3) difference<float>(r, "float"), difference<double>(r, "double");
  switch (idx % 21) {
    case 0: Mon<int32_t, 2>::run(r, "int32"); break;
    case 1: Mon<int32_t, 3>::run(r, "int32"); break;
    case 2: Mon<int64_t, 2>::run(r, "int64"); break;
    case 3: Mon<int64_t, 3>::run(r, "int64"); break;
    case 4: Mon<uint32_t, 2>::run(r, "uint32"); break;
    case 5: Mon<uint64_t, 3>::run(r, "uint64"); break;
    case 6: Mon<int16_t, 4>::run(r, "int16"); break;
    case 7: Mon<uint8_t, 3>::run(r, "uint8"); break;
    case 8: Mon<float, 1>::run(r, "float"); break;
    case 9: Mon<float, 2>::run(r, "float"); break;
    case 10: Mon<float, 3>::run(r, "float"); break;
    case 11: Mon<double, 2>::run(r, "double"); break;
    case 12: Mon<double, 3>::run(r, "double"); break;
    case 13: Mon<double, 1>::run(r, "double"); break;
    case 14: Mon<int32_t, 7>::run(r, "int32"); break;
    case 15: Mon<int8_t, 12>::run(r, "int8"); break;
    case 16: Mon<uint16_t, 33>::run(r, "uint16"); break;
    case 17: Mon<int64_t, 1>::run(r, "int64"); break;
    case 18: Mon<float, 6>::run(r, "float"); break;
    case 19: Mon<double, 9>::run(r, "double"); break;
    case 20: Mon<float, 34>::run(r, "float"); break;
  }
}
