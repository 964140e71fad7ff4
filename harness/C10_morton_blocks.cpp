// C10: power-of-two blocks (intervalPow2), split points and distances of Morton subtrees.
#include "vmon.h"

#include <array>
#include <type_traits>

#include <rofl/common/morton_sort.h>

#include "morton_ref.h"

using namespace vmon;

template <typename I>
static I randInt(Rng& r) {
  const int B = 8 * sizeof(I);
  switch (r.below(5)) {
    case 0: return (I)r.next();
    case 1: return (I)r.range(-16, 16);
    case 2: return (I)((1ull << r.below(B)) + (uint64_t)r.range(-2, 2));
    case 3: return (I)(0 - ((1ull << r.below(B)) + (uint64_t)r.range(-2, 2)));
    default: return r.pick(std::vector<I>{std::numeric_limits<I>::min(), std::numeric_limits<I>::max(), (I)0, (I)-1, (I)1});
  }
}
template <typename I>
static I relatedInt(Rng& r, I a) {
  using U = typename std::make_unsigned<I>::type;
  const int B = 8 * sizeof(I);
  switch (r.below(5)) {
    case 0: return a;
    case 1: return (I)((U)a ^ (U)((U)1 << r.below(B)));
    case 2: return (I)((U)a ^ (U)(r.next() >> (64 - B + r.below(B))));
    case 3: return (I)((U)a + (U)r.range(-3, 3));
    default: return randInt<I>(r);
  }
}

// The oracle works on wide integers: the smallest 2^k-aligned block of length 2^k that contains both values
// (values of different sign share only the whole range).
template <typename I>
static int block(I a, I b, __int128& low, __int128& mid, __int128& upp) {
  const int B = 8 * sizeof(I);
  __int128 off = std::is_signed<I>::value ? -(__int128)std::numeric_limits<I>::min() : 0;
  for (int k = 0; k <= B; ++k) {
    __int128 len = (__int128)1 << k;
    __int128 x = ((__int128)a + off) / len * len, y = ((__int128)b + off) / len * len;
    if (x == y) {
      low = x - off;
      upp = low + len - 1;
      mid = k == 0 ? low : low + len / 2;
      return k;
    }
  }
  throw HarnessError("no block");
}

template <typename I>
static void pairInt(I a, I b, const char* ty) {
  I low, mid, upp;
  op(cat("intervalPow2Int ", ty));
  int lev = rofl::intervalPow2Int<I>(a, b, low, mid, upp);
  __int128 wl, wm, wu;
  int wlev = block<I>(a, b, wl, wm, wu);
  CHECK(lev == wlev, "level", ty, ": level of (", +a, ",", +b, ") is ", lev, " expected ", wlev);
  CHECK((__int128)low == wl && (__int128)upp == wu, "block", ty, ": block of (", +a, ",", +b, ") is [", +low, ",", +upp, "] expected [", (int64_t)wl, ",", (int64_t)wu, "] at level ", wlev);
  CHECK((__int128)mid == wm, "mid", ty, ": mid of (", +a, ",", +b, ") is ", +mid, " expected ", (int64_t)wm, " at level ", wlev);
  count("int_pairs");
  count(cat("level_", wlev == 0 ? "0" : wlev >= (int)(8 * sizeof(I)) ? "full" : wlev == (int)(8 * sizeof(I)) - 1 ? "half" : "inner"));
}

template <typename I, int D>
static void splitInt(Rng& r, const char* ty) {
  using MT = rofl::MortonTraits<I, D>;
  I a[D], b[D], low[D], mid[D], upp[D];
  for (int d = 0; d < D; ++d) {
    a[d] = randInt<I>(r);
    b[d] = relatedInt<I>(r, a[d]);
    pairInt<I>(a[d], b[d], ty);
  }
  std::string what = cat(ty, " D=", D, " a=", show(std::vector<I>(a, a + D)), " b=", show(std::vector<I>(b, b + D)));
  op(cat("distance ", ty));
  int dist = MT::distance(a, b);
  int want = 0, dim = 0;
  for (int d = 0; d < D; ++d) {
    int l = mref::level<I>(a[d], b[d]);
    if (l > want) {
      want = l;
      dim = d;
    }
  }
  CHECK(dist == want, "distance", "distance is ", dist, " expected ", want, ": ", what);
  op(cat("split ", ty));
  MT::split(a, b, low, mid, upp);
  for (int d = 0; d < D; ++d) {
    __int128 wl, wm, wu;
    block<I>(a[d], b[d], wl, wm, wu);
    CHECK((__int128)low[d] == wl && (__int128)upp[d] == wu, "split", "split: block of coordinate ", d, " is [", +low[d], ",", +upp[d], "]: ", what);
    CHECK((__int128)mid[d] == (d == dim ? wm : wl), "split", "split: mid of coordinate ", d, " is ", +mid[d], " expected ", (int64_t)(d == dim ? wm : wl), " (split along ", dim, "): ", what);
  }
  // the split point separates the points of the box in Morton order
  if (want > 0)
    for (int k = 0; k < 12; ++k) {
      I p[D];
      for (int d = 0; d < D; ++d) {
        unsigned __int128 span = (unsigned __int128)((__int128)upp[d] - (__int128)low[d]) + 1;
        unsigned __int128 o = ((unsigned __int128)r.next()) % span;
        if (r.chance(0.2)) o = 0;
        if (r.chance(0.2)) o = span - 1;
        if (r.chance(0.2) && d == dim) o = (unsigned __int128)((__int128)mid[d] - (__int128)low[d]) - (r.chance(0.5) ? 1 : 0);
        p[d] = (I)((__int128)low[d] + (__int128)o);
      }
      bool before = MT::compare(p, mid);
      CHECK(before == (p[dim] < mid[dim]), "separate", "point ", show(std::vector<I>(p, p + D)), " of the box is on the wrong side of the split point ", show(std::vector<I>(mid, mid + D)), ": ", what);
      count("separation_points");
    }
  uint64_t h = hashStr(what);
  if (want > 0) sig(h);
  if (wantSample()) sample(what);
}

// ---- floats: zero and normal values, no negative zero
template <typename F>
static F randF(Rng& r) {
  const int EMIN = std::numeric_limits<F>::min_exponent, EMAX = std::numeric_limits<F>::max_exponent;
  F v;
  switch (r.below(5)) {
    case 0: v = std::ldexp((F)r.uni(0.5, 1.0), (int)r.range(EMIN + 1, EMAX)); break;
    case 1: v = (F)r.range(0, 9); break;
    case 2: v = std::ldexp((F)1, (int)r.range(-30, 30)); break;
    case 3: v = (F)r.uni(0, 100); break;
    default: v = std::nextafter(std::ldexp((F)1, (int)r.range(-30, 30)), r.chance(0.5) ? (F)0 : std::numeric_limits<F>::max());
  }
  if (!std::isfinite(v)) v = std::numeric_limits<F>::max();
  return v;
}
template <typename F>
static F relatedF(Rng& r, F a) {
  F v;
  switch (r.below(5)) {
    case 0: return a;
    case 1: v = std::nextafter(a, r.chance(0.5) ? std::numeric_limits<F>::max() : (F)0); break;
    case 2: v = a * (F)(1 + std::ldexp(r.uni(0.5, 1), -(int)r.range(0, std::numeric_limits<F>::digits))); break;
    case 3: v = a * (F)std::ldexp(1.0, (int)r.range(-60, 60)); break;
    default: v = randF<F>(r);
  }
  if (!std::isfinite(v) || (v != 0 && std::fabs(v) < std::numeric_limits<F>::min()) || (v == 0 && std::signbit(v))) v = a;
  return v;
}

// |block| of two non-negative values at scale 2^level
template <typename F>
static void blockF(F a, F b, F& low, F& mid, F& upp, int& level, bool& exact) {
  F x = std::max(a, b), y = std::min(a, b);
  const int MB = std::numeric_limits<F>::digits;  // 24 or 53
  exact = true;
  if (x == y) {
    low = mid = upp = x;
    int e = 0;
    if (x != 0) std::frexp(x, &e);
    level = e - MB;  // one unit in the last place
    exact = x != 0;
    return;
  }
  int l = mref::floatLevel(x, y);
  level = l + 1;
  // low = x with all digits of weight < 2^level removed
  int ex;
  std::frexp(x, &ex);
  long double q = std::floor(std::ldexp((long double)x, -level));
  low = (F)std::ldexp(q, level);
  mid = (F)std::ldexp(2 * q + 1, level - 1);
  // upp: last value of the block in the precision of the larger one
  upp = (F)(std::ldexp(q + 1, level) - std::ldexp((long double)1, ex - MB));
}

template <typename F>
static void pairF(F a, F b, const char* ty, F low, F mid, F upp, int lev, bool checkMid) {
  bool na = a < 0, nb = b < 0;
  std::string what = cat(ty, " (", a, ",", b, ") -> low ", low, " mid ", mid, " upp ", upp, " level ", lev);
  if (na != nb) {
    CHECK(low == std::numeric_limits<F>::lowest() && upp == std::numeric_limits<F>::max(), "floatblock", "different signs must span the whole range: ", what);
    if (checkMid) CHECK(mid == 0, "floatmid", "different signs must split at 0: ", what);
    count("float_signs");
    return;
  }
  F wl, wm, wu;
  int wlev;
  bool exact;
  blockF<F>(std::fabs(a), std::fabs(b), wl, wm, wu, wlev, exact);
  if (na) {
    F t = wl;
    wl = -wu;
    wu = -t;
    wm = -wm;
  }
  CHECK(low == wl && upp == wu, "floatblock", "expected block [", wl, ",", wu, "]: ", what);
  CHECK(low <= std::min(a, b) && std::max(a, b) <= upp, "floatblock", "the block does not contain both values: ", what);
  if (checkMid) CHECK(mid == wm, "floatmid", "expected mid ", wm, ": ", what);
  if (exact && lev != INT32_MAX) CHECK(lev == wlev, "floatlevel", "expected level ", wlev, ": ", what);
  count("float_pairs");
}

template <typename F, int D>
static void splitF(Rng& r, const char* ty) {
  using MT = rofl::MortonTraits<F, D>;
  using FT = rofl::FloatTraits<F>;
  F a[D], b[D], low[D], mid[D], upp[D];
  int levs[D];
  for (int d = 0; d < D; ++d) {
    a[d] = randF<F>(r);
    b[d] = relatedF<F>(r, a[d]);
    int sg = (int)r.below(4);
    if ((sg == 1 || sg == 2) && a[d] != 0) a[d] = -a[d];
    if ((sg == 1 || sg == 3) && b[d] != 0) b[d] = -b[d];
    F l, m, u;
    op(cat("intervalPow2Float ", ty));
    levs[d] = rofl::intervalPow2Float<F>(a[d], b[d], l, m, u);
    pairF<F>(a[d], b[d], ty, l, m, u, levs[d], true);
  }
  std::string what = cat(ty, " D=", D, " a=", show(std::vector<F>(a, a + D)), " b=", show(std::vector<F>(b, b + D)));
  op(cat("split ", ty));
  MT::split(a, b, low, mid, upp);
  int dim = 0;
  for (int d = 1; d < D; ++d)
    if (levs[d] > levs[dim]) dim = d;
  for (int d = 0; d < D; ++d) {
    pairF<F>(a[d], b[d], ty, low[d], mid[d], upp[d], INT32_MAX, d == dim);
    if (d != dim) CHECK(mid[d] == low[d], "floatsplit", "split: coordinate ", d, " of mid is not low although the split is along ", dim, ": ", what);
  }
  op(cat("distance ", ty));
  int dist = MT::distance(a, b), want = mref::SAME;
  for (int d = 0; d < D; ++d) want = std::max(want, mref::floatLevel(a[d], b[d]));
  if (want == mref::SIGNS) want = (int)FT::EXPONENT_MAX;
  want = std::max(want, (int)-FT::EXPONENT_BIAS);
  CHECK(dist == want, "floatdistance", "distance is ", dist, " expected ", want, ": ", what);
  count("float_splits");
  sig(hashStr(what));
}

static void exhaustive8(int a) {
  for (int b = -128; b < 128; ++b) {
    pairInt<int8_t>((int8_t)a, (int8_t)b, "int8");
    pairInt<uint8_t>((uint8_t)a, (uint8_t)b, "uint8");
  }
  sig(comb(0xE8, a));
}

const char* vmon_property() { return "C10"; }
uint64_t vmon_cases(bool thorough) { return 256 + (thorough ? 2000000 : 60000); }
void vmon_case(uint64_t idx, Rng& r) {
  require("int_pairs", 60000);
  require("float_pairs", 1000);
  require("separation_points", 10000);
  if (idx < 256) {
    exhaustive8((int)idx - 128);
    return;
  }
  switch (idx % 17) {
    case 0: splitInt<int32_t, 2>(r, "int32"); break;
    case 1: splitInt<int32_t, 3>(r, "int32"); break;
    case 2: splitInt<int64_t, 2>(r, "int64"); break;
    case 3: splitInt<int64_t, 3>(r, "int64"); break;
    case 4: splitInt<uint32_t, 2>(r, "uint32"); break;
    case 5: splitInt<uint64_t, 2>(r, "uint64"); break;
    case 6: splitInt<int16_t, 3>(r, "int16"); break;
    case 7: splitInt<uint16_t, 2>(r, "uint16"); break;
    case 8: splitF<float, 2>(r, "float"); break;
    case 9: splitF<float, 3>(r, "float"); break;
    case 10: splitF<double, 2>(r, "double"); break;
    case 11: splitF<double, 3>(r, "double"); break;
    case 12: splitInt<int8_t, 9>(r, "int8"); break;
    case 13: splitInt<int32_t, 6>(r, "int32"); break;
    case 14: splitInt<uint64_t, 1>(r, "uint64"); break;
    case 15: splitF<float, 7>(r, "float"); break;
    case 16: splitF<double, 1>(r, "double"); break;
  }
}
