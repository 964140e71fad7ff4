// C20: geodetic conversions against the WGS84 ellipsoid in long double.
#include "vmon.h"

#include <rofl/geometry/gis.h>

using namespace vmon;
using rofl::Scalar;
static const long double PI = 3.14159265358979323846264338327950288L, A = 6378137.0L, B = 6356752.3142L;
static const long double E2 = 1.0L - (B / A) * (B / A);

static long double perLat(long double latDeg) {  // arc length of one degree of latitude
  long double s = sinl(latDeg * PI / 180);
  return PI / 180 * A * (1 - E2) / powl(1 - E2 * s * s, 1.5L);
}
static long double perLon(long double latDeg) {  // arc length of one degree of longitude on the parallel
  long double s = sinl(latDeg * PI / 180);
  return PI / 180 * A * cosl(latDeg * PI / 180) / sqrtl(1 - E2 * s * s);
}
// the documented series (mdeglat and mdeglon of AlvinXY)
static long double seriesLat(long double latDeg) {
  long double f = latDeg * PI / 180;
  return 111132.09L - 566.05L * cosl(2 * f) + 1.20L * cosl(4 * f) - 0.002L * cosl(6 * f);
}
static long double seriesLon(long double latDeg) {
  long double f = latDeg * PI / 180;
  return 111415.13L * cosl(f) - 94.55L * cosl(3 * f) + 0.12L * cosl(5 * f);
}
static float lat(Rng& r, double lim) {
  switch (r.below(4)) {
    case 0: return (float)r.range(-(int)lim, (int)lim);
    case 1: return (float)r.uni(-1, 1);
    default: return (float)r.uni(-lim, lim);
  }
}
static float lon(Rng& r) {
  switch (r.below(4)) {
    case 0: return (float)(r.range(-12, 12) * 15);
    case 1: return (float)r.uni(-1, 1);
    default: return (float)r.uni(-180, 180);
  }
}

static void ecef(Rng& r) {
  float la = lat(r, 90), lo = lon(r);
  // the 0..360 convention is as common in GIS data as -180..180
  if (r.chance(0.3)) lo = (float)r.uni(-360, 360);
  if (lo > 180 || lo < -180) count("ecef_lon_beyond_180");
  float al = (float)(r.chance(0.3) ? 0 : r.uni(-400, 20000));
  float x = 1, y = 2, z = 3;
  op("convertLatLonAltToECEF");
  rofl::convertLatLonAltToECEF(la, lo, al, x, y, z);
  long double f = la * PI / 180, l = lo * PI / 180, n = A / sqrtl(1 - E2 * sinl(f) * sinl(f));
  long double wx = (n + al) * cosl(f) * cosl(l), wy = (n + al) * cosl(f) * sinl(l), wz = ((1 - E2) * n + al) * sinl(f);
  double e = (double)std::max({fabsl(x - wx), fabsl(y - wy), fabsl(z - wz)});
  maximum("ecef_error_m", e);
  CHECK(e <= 3.0, "ecef", "lat ", la, " lon ", lo, " alt ", al, " -> (", x, ",", y, ",", z, ") expected (", (double)wx, ",", (double)wy, ",", (double)wz, ")");
  count("ecef");
  count(cat("ecef_octant_", x < 0, y < 0, z < 0));
  sig(hashStr(cat(la, " ", lo, " ", al)));
  if (wantSample()) sample(cat("lat ", la, " lon ", lo, " alt ", al));
}

static void local(Rng& r) {
  float la = lat(r, 85), lo = lon(r);
  op("meterPerDeg");
  double ml = rofl::meterPerDegLat(la), mo = rofl::meterPerDegLon(la);
  double el = std::fabs(ml - (double)perLat(la)), eo = std::fabs(mo - (double)perLon(la));
  maximum("meter_per_degree_lat_error", el);
  maximum("meter_per_degree_lon_error", eo);
  CHECK(el <= 10.0, "meterPerDegLat", "at latitude ", la, ": ", ml, " expected ", (double)perLat(la));
  CHECK(eo <= 5.0, "meterPerDegLon", "at latitude ", la, ": ", mo, " expected ", (double)perLon(la));
  double sl = std::fabs(ml - (double)seriesLat(la)), so = std::fabs(mo - (double)seriesLon(la));
  maximum("series_lat_error", sl);
  maximum("series_lon_error", so);
  CHECK(sl <= 0.05, "series", "at latitude ", la, ": ", ml, " m per degree of latitude, the documented series gives ", (double)seriesLat(la));
  CHECK(so <= 0.08, "series", "at latitude ", la, ": ", mo, " m per degree of longitude, the documented series gives ", (double)seriesLon(la));

  double span = r.chance(0.5) ? 0.5 : 0.02;
  float la2 = la + (float)r.uni(-span, span), lo2 = lo + (float)r.uni(-span, span);
  if (r.chance(0.1)) la2 = la;
  if (r.chance(0.1)) lo2 = lo;
  float x = 7, y = 7;
  op("convertLatLonToLocalXY");
  rofl::convertLatLonToLocalXY(la, lo, la2, lo2, x, y);
  // scale at the origin: metres east and north of the origin
  double wx = ((double)lo2 - lo) * (double)perLon(la), wy = ((double)la2 - la) * (double)perLat(la);
  std::string what = cat("origin (", la, ",", lo, ") point (", la2, ",", lo2, ")");
  CHECK(std::fabs(x - wx) <= 2e-4 * std::fabs(wx) + 5.0 * span + 0.01, "localX", what, ": x = ", x, " expected ", wx, " m east");
  CHECK(std::fabs(y - wy) <= 1e-4 * std::fabs(wy) + 10.0 * span + 0.01, "localY", what, ": y = ", y, " expected ", wy, " m north");
  op("convertLocalXYToLatLon");
  float la3 = 0, lo3 = 0;
  rofl::convertLocalXYToLatLon(la, lo, x, y, la3, lo3);
  double ulpA = 4e-7 * (std::fabs(la) + 1), ulpO = 4e-7 * (std::fabs(lo) + 1);
  CHECK(std::fabs((double)la3 - la2) <= ulpA && std::fabs((double)lo3 - lo2) <= ulpO, "roundtrip", what, ": back to (", la3, ",", lo3, ")");
  // and the other way round: a displacement in metres is recovered
  float dx = (float)r.uni(-20000, 20000), dy = (float)r.uni(-20000, 20000), bx = 0, by = 0;
  rofl::convertLocalXYToLatLon(la, lo, dx, dy, la3, lo3);
  rofl::convertLatLonToLocalXY(la, lo, la3, lo3, bx, by);
  // one unit in the last place of the degrees is up to 1.7 m
  double tx = 2 * 1.6e-5 * (double)perLon(la) + 1e-3, ty = 2 * 8e-6 * (double)perLat(la) + 1e-3;
  CHECK(std::fabs(bx - dx) <= tx && std::fabs(by - dy) <= ty, "roundtrip", "origin (", la, ",", lo, "): displacement (", dx, ",", dy, ") comes back as (", bx, ",", by, ")");
  count("local");
  if (std::fabs(la) > 30 && std::fabs(lo) < 30) count("local_midlat_lowlon");
  sig(hashStr(what));
}

const char* vmon_property() { return "C20"; }
uint64_t vmon_cases(bool thorough) { return thorough ? 4000000 : 100000; }
void vmon_case(uint64_t idx, Rng& r) {
  require("ecef", 1000);
  require("ecef_lon_beyond_180", 100);
  require("local", 1000);
  require("local_midlat_lowlon", 100);
  if (idx % 2) ecef(r); else local(r);
}
