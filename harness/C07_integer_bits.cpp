// C07: integer bit functions against arithmetic definitions; exhaustive on 8 and 16 bits.
#include "vmon.h"

#include <rofl/common/numeric_traits.h>

using namespace vmon;
typedef __int128 Wide;

static int bitlen(unsigned __int128 x) {
  int n = 0;
  while (x) {
    ++n;
    x >>= 1;
  }
  return n;
}

template <typename I>
static std::string str(I i) { return cat(+i); }

// raw functions on unsigned types; reference through arithmetic on wide integers
template <typename U, typename NLZ, typename FLP, typename CLP>
static void rawOne(U x, NLZ nlz, FLP flp, CLP clp, const char* ty) {
  const int B = 8 * sizeof(U);
  int len = bitlen(x);
  CHECK((int64_t)nlz(x) == B - len, "nlz", "nlz ", ty, "(", +x, ")=", (int64_t)nlz(x), " expected ", B - len);
  unsigned __int128 fl = len ? (unsigned __int128)1 << (len - 1) : 0;
  CHECK(flp(x) == (U)fl, "flp2", "flp2 ", ty, "(", +x, ")=", +flp(x), " expected ", (uint64_t)fl);
  unsigned __int128 ce = 0;
  if (x) {
    ce = fl == x ? fl : fl << 1;
  }
  if (ce <= (unsigned __int128)std::numeric_limits<U>::max())
    CHECK(clp(x) == (U)ce, "clp2", "clp2 ", ty, "(", +x, ")=", +clp(x), " expected ", (uint64_t)ce);
  count("raw_values");
}

template <typename I>
static void traitsOne(I i) {
  const int B = 8 * sizeof(I);
  Wide w = (Wide)i;
  unsigned __int128 mag = (unsigned __int128)(w < 0 ? -w : w);
  unsigned __int128 pattern = (unsigned __int128)w & ((((unsigned __int128)1) << B) - 1);
  int len = bitlen(mag);
  op(cat("integer functions on ", B, " bits"));
  CHECK((int)rofl::nlz<I>(i) == B - bitlen(pattern), "nlz", "nlz<", B, ">(", +i, ")=", (int)rofl::nlz<I>(i));
  if (i != 0) CHECK((int64_t)rofl::log2Mod<I>(i) == len - 1, "log2Mod", "log2Mod<", B, (std::is_signed<I>::value ? "s" : "u"), ">(", +i, ")=", (int64_t)rofl::log2Mod<I>(i), " expected ", len - 1);
  Wide fl = len ? (Wide)1 << (len - 1) : 0;
  Wide ce = mag == 0 ? 0 : ((unsigned __int128)fl == mag ? fl : fl * 2);
  Wide wantFloor = w >= 0 ? fl : -ce, wantCeil = w >= 0 ? ce : -fl;
  auto rep = [](Wide v) { return v >= (Wide)std::numeric_limits<I>::min() && v <= (Wide)std::numeric_limits<I>::max(); };
  if (rep(wantFloor)) CHECK((Wide)rofl::floorPow2<I>(i) == wantFloor, "floorPow2", "floorPow2<", B, (std::is_signed<I>::value ? "s" : "u"), ">(", +i, ")=", +rofl::floorPow2<I>(i), " expected ", (int64_t)wantFloor);
  if (rep(wantCeil)) CHECK((Wide)rofl::ceilPow2<I>(i) == wantCeil, "ceilPow2", "ceilPow2<", B, (std::is_signed<I>::value ? "s" : "u"), ">(", +i, ")=", +rofl::ceilPow2<I>(i), " expected ", (int64_t)wantCeil);
  count("trait_values");
}

static void both8(uint8_t x) {
  rawOne<uint8_t>(x, rofl::nlz8, rofl::flp2u8, rofl::clp2u8, "u8");
  traitsOne<uint8_t>(x);
  traitsOne<int8_t>((int8_t)x);
}
static void both16(uint16_t x) {
  rawOne<uint16_t>(x, rofl::nlz16, rofl::flp2u16, rofl::clp2u16, "u16");
  traitsOne<uint16_t>(x);
  traitsOne<int16_t>((int16_t)x);
}
static void both32(uint32_t x) {
  rawOne<uint32_t>(x, rofl::nlz32, rofl::flp2u32, rofl::clp2u32, "u32");
  traitsOne<uint32_t>(x);
  traitsOne<int32_t>((int32_t)x);
}
static void both64(uint64_t x) {
  rawOne<uint64_t>(x, rofl::nlz64, rofl::flp2u64, rofl::clp2u64, "u64");
  traitsOne<uint64_t>(x);
  traitsOne<int64_t>((int64_t)x);
}

// bit patterns that matter: runs of ones, single bits, +-1 neighbours, complements, two's complement negations
static uint64_t pattern(Rng& r, int B) {
  uint64_t m = B == 64 ? ~0ull : (1ull << B) - 1;
  uint64_t x;
  switch (r.below(7)) {
    case 0: x = r.next() >> r.below(B); break;
    case 1: x = 1ull << r.below(B); break;
    case 2: x = (1ull << r.below(B)) + (uint64_t)r.range(-3, 3); break;
    case 3: { int a = (int)r.below(B), b = (int)r.below(B); if (a > b) std::swap(a, b); x = ((b == 63 ? 0 : (1ull << (b + 1))) - (1ull << a)); break; }
    case 4: x = (1ull << r.below(B)) | (1ull << r.below(B)); break;
    case 5: x = ~(1ull << r.below(B)); break;
    default: x = (uint64_t)r.range(-200, 200);
  }
  if (r.chance(0.3)) x = 0 - x;
  if (r.chance(0.1)) x = ~x;
  return x & m;
}

// fast exhaustive 32 bit sweep (thorough): compiler builtins as reference
static void sweep32(uint64_t lo, uint64_t hi) {
  op("exhaustive 32 bit sweep");
  for (uint64_t v = lo; v < hi; ++v) {
    uint32_t x = (uint32_t)v;
    int lz = x ? __builtin_clz(x) : 32;
    uint32_t fl = x ? 1u << (31 - lz) : 0;
    uint64_t ce = x == 0 ? 0 : (fl == x ? fl : (uint64_t)fl << 1);
    bool ok = rofl::nlz32(x) == lz && rofl::flp2u32(x) == fl && (ce > 0xffffffffull || rofl::clp2u32(x) == (uint32_t)ce);
    if (x) {
      int32_t s = (int32_t)x;
      uint32_t mag = s < 0 ? 0u - x : x;
      ok = ok && rofl::log2Mod<int32_t>(s) == 31 - __builtin_clz(mag) && rofl::log2Mod<uint32_t>(x) == (uint32_t)(31 - lz);
    }
    if (!ok) {
      both32(x);
      fail("sweep32", "32 bit functions wrong at ", x);
    }
  }
  count("sweep32_values", hi - lo);
}

const char* vmon_property() { return "C07"; }
static const uint64_t NSW = 1024;
uint64_t vmon_cases(bool thorough) { return thorough ? 257 + 4000 + NSW : 257 + 800; }
void vmon_case(uint64_t idx, Rng& r) {
  require("raw_values", 60000);
  require("trait_values", 120000);
  if (idx == 0) {
    for (int x = 0; x < 256; ++x) {
      both8((uint8_t)x);
      sig(comb(8, x));
    }
    return;
  }
  if (idx <= 256) {
    for (int x = 0; x < 256; ++x) both16((uint16_t)((idx - 1) * 256 + x));
    sig(comb(16, idx));
    return;
  }
  if (idx >= 257 + 4000) {
    uint64_t b = idx - 257 - 4000, step = (1ull << 32) / NSW;
    sweep32(b * step, (b + 1) * step);
    sig(comb(32, b));
    return;
  }
  if (idx == 257) {  // every power of two and its neighbours, both signs
    for (int b = 0; b < 64; ++b)
      for (int d = -2; d <= 2; ++d)
        for (int s = 0; s < 2; ++s) {
          uint64_t v = (1ull << b) + (uint64_t)d;
          if (s) v = 0 - v;
          both64(v);
          both32((uint32_t)v);
        }
    return;
  }
  uint64_t h = 0;
  for (int k = 0; k < 400; ++k) {
    uint64_t a = pattern(r, 32), b = pattern(r, 64);
    both32((uint32_t)a);
    both64(b);
    h = comb(comb(h, a), b);
  }
  sig(h);
  if (wantSample()) sample(cat("32/64 bit patterns such as ", pattern(r, 32), " and ", pattern(r, 64)));
}
