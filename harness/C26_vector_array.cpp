// C26: VectorArray algebra component by component.
#include "vmon.h"

#include <rofl/common/vector_array.h>

using namespace vmon;

template <typename T>
static T rnd(Rng& r) {
  if (std::is_floating_point<T>::value) {
    if (r.chance(0.15)) {  // magnitudes whose products and quotients still are normal numbers
      count("wide magnitudes");
      int e = sizeof(T) == 4 ? 17 : 150;
      return (T)(r.uni(1, 9.9) * (r.chance(0.5) ? 1 : -1) * std::pow(10.0, r.uni(-e, e)));
    }
    return (T)(r.chance(0.2) ? r.range(-3, 3) : r.uni(-100, 100));
  }
  if (r.chance(0.15)) {  // close to the square root of the largest value: products still fit
    count("wide magnitudes");
    int64_t m = sizeof(T) == 2 ? 181 : sizeof(T) == 4 ? 46340 : 3037000499ll;
    return (T)(r.chance(0.3) ? (r.chance(0.5) ? m : -m) : r.range(-m, m));
  }
  return (T)r.range(-40, 40);
}
template <typename T, size_t D>
static void run(Rng& r, const char* ty) {
  using V = rofl::VectorArray<T, D>;
  for (int k = 0; k < 4; ++k) {
    V a, b;
    T s = rnd<T>(r);
    for (size_t d = 0; d < D; ++d) {
      a[d] = rnd<T>(r);
      b(d) = rnd<T>(r);
      if (b[d] == T(0)) b[d] = T(3);
    }
    const V a0(a), b0(b);
    std::string what = cat(ty, " D=", D, " a=", show(a), " b=", show(b), " s=", +s);
    op("VectorArray operators");
    V sum = a + b, dif = a - b, sc = a * s, pr = a * b, qu = a / b;
    V pa(a), ps(a), pp(a);
    V& r1 = (pa += b);
    V& r2 = (ps *= s);
    V& r3 = (pp *= b);
    CHECK(&r1 == &pa && &r2 == &ps && &r3 == &pp, "compound", "a compound assignment does not return its object: ", what);
    for (size_t d = 0; d < D; ++d) {
      CHECK(a[d] == a0[d] && b[d] == b0[d] && a0(d) == a0[d], "operand", "an operand changed: ", what);
      CHECK(sum[d] == (T)(a0[d] + b0[d]), "sum", "sum component ", d, " is ", +sum[d], ": ", what);
      CHECK(dif[d] == (T)(a0[d] - b0[d]), "difference", "difference component ", d, " is ", +dif[d], ": ", what);
      CHECK(sc[d] == (T)(s * a0[d]), "scale", "scaled component ", d, " is ", +sc[d], ": ", what);
      CHECK(pr[d] == (T)(a0[d] * b0[d]), "product", "product component ", d, " is ", +pr[d], ": ", what);
      CHECK(qu[d] == (T)(a0[d] / b0[d]), "quotient", "quotient component ", d, " is ", +qu[d], ": ", what);
      CHECK(pa[d] == sum[d], "compound", "+= component ", d, " is ", +pa[d], ": ", what);
      CHECK(ps[d] == sc[d], "compound", "*= scalar component ", d, " is ", +ps[d], ": ", what);
      CHECK(pp[d] == pr[d], "compound", "*= component ", d, " is ", +pp[d], ": ", what);
    }
    // operands that are the object itself or one of its components
    size_t q = r.below(D);
    V x1(a), x2(a), x3(a), x4(a);
    x1 *= x1[q];
    x2 += x2;
    x3 *= x3;
    x4 = x4 * x4(q);
    V z = b / b, w = a - a;
    for (size_t d = 0; d < D; ++d) {
      CHECK(x1[d] == (T)(a0[d] * a0[q]), "alias", "*= by its own component ", q, ": component ", d, " is ", +x1[d], ": ", what);
      CHECK(x2[d] == (T)(a0[d] + a0[d]), "alias", "+= itself: component ", d, " is ", +x2[d], ": ", what);
      CHECK(x3[d] == (T)(a0[d] * a0[d]), "alias", "*= itself: component ", d, " is ", +x3[d], ": ", what);
      CHECK(x4[d] == (T)(a0[q] * a0[d]), "alias", "product by its own component ", q, ": component ", d, " is ", +x4[d], ": ", what);
      CHECK(z[d] == T(1) && w[d] == T(0), "alias", "quotient or difference with itself: ", what);
    }
    count("operations on itself", 6);
    V c(a);
    c[0] = (T)(c[0] + 1);
    CHECK(a[0] == a0[0], "copy", "changing a copy changed the original: ", what);
    V e;
    e = a;
    for (size_t d = 0; d < D; ++d) CHECK(e[d] == a[d], "copy", "assignment lost component ", d, ": ", what);
    count("operations", 8);
    sig(hashStr(what));
    if (wantSample()) sample(what);
  }
}
const char* vmon_property() { return "C26"; }
uint64_t vmon_cases(bool thorough) { return thorough ? 1000000 : 30000; }
void vmon_case(uint64_t idx, Rng& r) {
  require("operations", 10000);
  require("wide magnitudes", 1000);
  switch (idx % 9) {
    case 0: run<int, 1>(r, "int"); break;
    case 1: run<int, 3>(r, "int"); break;
    case 2: run<double, 2>(r, "double"); break;
    case 3: run<float, 4>(r, "float"); break;
    case 4: run<long, 5>(r, "long"); break;
    case 5: run<double, 7>(r, "double"); break;
    case 7: run<int, 9>(r, "int"); break;
    case 8: run<double, 17>(r, "double"); break;
    case 6: run<short, 2>(r, "short"); break;
  }
}
