// C08: decomposition of floats/doubles into mantissa, exponent, sign and back, for every kind of bit pattern.
#include "vmon.h"

#include <rofl/common/numeric_traits.h>

using namespace vmon;

template <typename F, typename U, typename S>
struct Mon {
  using FT = rofl::FloatTraits<F>;
  static F fromBits(U b) {
    F f;
    memcpy(&f, &b, sizeof f);
    return f;
  }
  static U toBits(F f) {
    U b;
    memcpy(&b, &f, sizeof b);
    return b;
  }
  static void one(U bits) {
    const int MB = sizeof(F) == 4 ? 23 : 52, EB = sizeof(F) == 4 ? 8 : 11, BIAS = sizeof(F) == 4 ? 127 : 1023;
    F f = fromBits(bits);
    if (f != f) return;  // NaN payloads are not part of the claim
    S m = 0, e = 0;
    bool s = false;
    op("decompose");
    FT::decompose(f, m, e, s);
    // fields by arithmetic, not by masks
    bool ws = std::signbit(f);
    F a = std::fabs(f);
    S wm, we;
    if (std::isinf(a)) {
      we = ((S)1 << EB) - 1 - BIAS;
      wm = 0;
    } else {
      int x;
      F fr = std::frexp(a, &x);  // a = fr * 2^x, fr in [0.5,1)
      if (a == 0 || x - 1 < 1 - BIAS) {
        we = -BIAS;
        wm = (S)std::ldexp(a, BIAS - 1 + MB);
      } else {
        we = x - 1;
        wm = (S)std::ldexp(fr, MB + 1) - ((S)1 << MB);
      }
    }
    CHECK(m == wm, "mantissa", "mantissa of ", f, " (bits ", bits, ") is ", m, " expected ", wm);
    CHECK(e == we, "exponent", "exponent of ", f, " (bits ", bits, ") is ", e, " expected ", we);
    CHECK(s == ws, "sign", "sign of ", f, " (bits ", bits, ") is ", s, " expected ", ws);
    op("compose");
    F g = FT::compose(m, e, s);
    CHECK(toBits(g) == bits, "roundtrip", "compose(decompose(", f, ")) = ", g, " (bits ", toBits(g), " expected ", bits, ")");
    F neg = FT::compose(m, e, !s);
    CHECK(toBits(neg) == (bits ^ ((U)1 << (8 * sizeof(U) - 1))), "signflip", "compose with the opposite sign is not -(", f, ")");
    op("toInt and masks");
    U ti = FT::toInt(f);
    CHECK(ti == bits, "toInt", "toInt(", f, ")=", ti, " expected ", bits);
    U mm = (U)FT::MANTISSA_MASK, em = (U)FT::EXPONENT_MASK, sm = (U)FT::SIGN_MASK;
    CHECK((S)(ti & mm) == m, "mask", "the mantissa mask does not select the mantissa of ", f);
    CHECK((S)((ti & em) >> (int)FT::MANTISSA_BITS) - (S)FT::EXPONENT_BIAS == e, "mask", "the exponent mask does not select the exponent of ", f, ": gives ", (S)((ti & em) >> (int)FT::MANTISSA_BITS) - (S)FT::EXPONENT_BIAS, " instead of ", e);
    CHECK(((ti & sm) != 0) == s, "mask", "the sign mask does not select the sign of ", f);
    CHECK((S)FT::EXPONENT_MIN <= e && e <= (S)FT::EXPONENT_MAX, "range", "exponent ", e, " of ", f, " outside [", (S)FT::EXPONENT_MIN, ",", (S)FT::EXPONENT_MAX, "]");
    count("values");
    if (a == 0) count("zeros");
    else if (std::isinf(a)) count("infinities");
    else if (we == -BIAS) count("subnormals");
    else count("normals");
  }
  static void constants() {
    U mm = (U)FT::MANTISSA_MASK, em = (U)FT::EXPONENT_MASK, sm = (U)FT::SIGN_MASK;
    CHECK((mm | em | sm) == (U)~(U)0 && (mm & em) == 0 && (mm & sm) == 0 && (em & sm) == 0, "mask", "mantissa, exponent and sign masks do not partition the ", 8 * sizeof(F), " bits");
    CHECK((int)FT::BIT_NUM == (int)(8 * sizeof(F)) && (int)FT::MANTISSA_BITS + (int)FT::EXPONENT_BITS + 1 == (int)FT::BIT_NUM, "mask", "field widths do not add up to ", 8 * sizeof(F), " bits");
    CHECK((U)FT::MANTISSA_IMPLICIT_BIT == mm + 1, "mask", "implicit bit is not the bit above the mantissa");
    F inf = std::numeric_limits<F>::infinity();
    CHECK(FT::compose(0, FT::EXPONENT_MAX, false) == inf, "range", "EXPONENT_MAX does not compose infinity");
    CHECK(toBits(FT::compose(0, FT::EXPONENT_MIN, false)) == 0, "range", "EXPONENT_MIN does not compose zero");
    sig(sizeof(F));
  }
};
typedef Mon<float, uint32_t, int32_t> MF;
typedef Mon<double, uint64_t, int64_t> MD;

// the free functions are the same mapping
static void freeFunctions(Rng& r) {
  float f = MF::fromBits((uint32_t)r.next());
  double d = MD::fromBits(r.next());
  if (f == f) {
    int32_t m, e;
    bool s;
    rofl::getMantissaExpSignF(f, m, e, s);
    CHECK(MF::toBits(rofl::setMantissaExpSignF(m, e, s)) == MF::toBits(f), "roundtrip", "set/getMantissaExpSignF do not round trip ", f);
    if (std::fabs(f) >= std::numeric_limits<float>::min() && !std::isinf(f))
      CHECK(std::ldexp((s ? -1.0 : 1.0) * (1.0 + m * std::ldexp(1.0, -23)), e) == (double)f, "formula", "(-1)^s (1+m 2^-23) 2^e is not ", f);
  }
  if (d == d) {
    int64_t m, e;
    bool s;
    rofl::getMantissaExpSignD(d, m, e, s);
    CHECK(MD::toBits(rofl::setMantissaExpSignD(m, e, s)) == MD::toBits(d), "roundtrip", "set/getMantissaExpSignD do not round trip ", d);
    if (std::fabs(d) >= std::numeric_limits<double>::min() && !std::isinf(d))
      CHECK(std::ldexp((s ? -1.0 : 1.0) * (1.0 + m * std::ldexp(1.0, -52)), (int)e) == d, "formula", "(-1)^s (1+m 2^-52) 2^e is not ", d);
  }
}

const char* vmon_property() { return "C08"; }
static const uint64_t NSW = 2048;
uint64_t vmon_cases(bool thorough) { return thorough ? 1000 + NSW : 520; }
void vmon_case(uint64_t idx, Rng& r) {
  require("normals", 10000);
  require("subnormals", 100);
  require("zeros", 2);
  require("infinities", 2);
  if (idx == 0) {
    MF::constants();
    MD::constants();
  }
  if (idx < 512) {  // every sign and exponent of both types, with structured and random mantissas
    auto mantF = [&](int k) -> uint32_t { uint32_t v[] = {0, 1, 0x7fffff, 0x400000, 0x3fffff, (uint32_t)r.next()}; return v[k] & 0x7fffff; };
    auto mantD = [&](int k) -> uint64_t { uint64_t v[] = {0, 1, ~0ull, 1ull << 51, (1ull << 51) - 1, r.next()}; return v[k] & 0xfffffffffffffull; };
    for (int k = 0; k < 6; ++k) MF::one((uint32_t)((idx << 23) | mantF(k)));
    for (uint64_t j = 0; j < 8; ++j)
      for (int k = 0; k < 6; ++k) MD::one(((idx * 8 + j) << 52) | mantD(k));
    for (int k = 0; k < 60; ++k) {
      MF::one((uint32_t)r.next());
      MD::one(r.next());
      freeFunctions(r);
    }
    sig(comb(1, idx));
    if (wantSample()) sample(cat("sign/exponent field ", idx, " of float and ", idx * 8, "..", idx * 8 + 7, " of double"));
    return;
  }
  if (ctx().thorough && idx >= 1000) {  // all 2^32 floats
    uint64_t b = idx - 1000, step = (1ull << 32) / NSW;
    for (uint64_t v = b * step; v < (b + 1) * step; v += 1) MF::one((uint32_t)v);
    sig(comb(2, idx));
    return;
  }
  for (int k = 0; k < 2000; ++k) {
    MF::one((uint32_t)r.next());
    MD::one(r.next());
    MD::one(r.next() & 0x800fffffffffffffull);
    MF::one((uint32_t)r.next() & 0x807fffffu);
    freeFunctions(r);
  }
  sig(comb(3, r.next()));
}
