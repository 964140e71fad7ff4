// Reference Morton order, independent of the library: interleaved bits for integers, highest differing binary digit for floats.
#ifndef MORTON_REF_H_
#define MORTON_REF_H_
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <limits>
#include <type_traits>
#include <vector>

namespace mref {

// --- integers: explicit interleaved key, most significant bit level first, dimension 0 first within a level
template <typename I, int D>
std::vector<bool> key(const I* v) {
  using U = typename std::make_unsigned<I>::type;
  const int B = 8 * sizeof(I);
  std::vector<bool> k;
  k.reserve(B * D);
  for (int b = B - 1; b >= 0; --b)
    for (int d = 0; d < D; ++d) {
      U u = (U)v[d];
      if (std::is_signed<I>::value) u ^= (U)((U)1 << (B - 1));  // negative numbers come first
      k.push_back((u >> b) & 1);
    }
  return k;
}
template <typename I, int D>
typename std::enable_if<std::is_integral<I>::value, bool>::type less(const I* a, const I* b) {
  using U = typename std::make_unsigned<I>::type;
  const int B = 8 * sizeof(I);
  U any = 0;
  for (int d = 0; d < D; ++d) any |= (U)((U)a[d] ^ (U)b[d]);
  if (!any) return false;
  int top = B - 1;
  while (!((any >> top) & 1)) --top;  // levels above agree in every coordinate
  const U flip = std::is_signed<I>::value && top == B - 1 ? 1 : 0;  // negative numbers come first
  for (int d = 0; d < D; ++d) {
    U x = (U)((((U)a[d] >> top) & 1) ^ flip), y = (U)((((U)b[d] >> top) & 1) ^ flip);
    if (x != y) return x < y;
  }
  return false;
}
// number of low bits in which the two integers may differ
template <typename I>
typename std::enable_if<std::is_integral<I>::value, int>::type level(I a, I b) {
  using U = typename std::make_unsigned<I>::type;
  U x = (U)a ^ (U)b;
  int n = 0;
  while (x) {
    ++n;
    x = (U)(x >> 1);
  }
  return n;
}

// --- floats: binary exponent of the highest digit in which |a| and |b| differ.
// +inf-like when the signs differ (zero is non negative), lowest when equal.
const int SAME = -1000000, SIGNS = 1000000;
template <typename F>
int floatLevel(F a, F b) {
  if (a == b) return SAME;
  bool na = a < 0, nb = b < 0;
  if (na != nb) return SIGNS;
  long double x = std::fabs((long double)a), y = std::fabs((long double)b);
  if (x < y) std::swap(x, y);
  int ex, ey = 0;
  std::frexp(x, &ex);
  if (y > 0) std::frexp(y, &ey);
  if (y == 0 || ex != ey) return ex - 1;  // leading digit of the larger one
  // same leading digit: compare the mantissas as integers
  const int MB = std::numeric_limits<F>::digits;  // with the leading digit
  uint64_t mx = (uint64_t)std::ldexp(x, MB - ex), my = (uint64_t)std::ldexp(y, MB - ey);
  uint64_t z = mx ^ my;
  int top = 63 - __builtin_clzll(z);
  return ex - MB + top;
}
template <typename F, int D>
typename std::enable_if<std::is_floating_point<F>::value, bool>::type less(const F* a, const F* b) {
  int dim = 0, best = floatLevel(a[0], b[0]);
  for (int d = 1; d < D; ++d) {
    int l = floatLevel(a[d], b[d]);
    if (l > best) {
      best = l;
      dim = d;
    }
  }
  return a[dim] < b[dim];
}
}  // namespace mref
#endif
