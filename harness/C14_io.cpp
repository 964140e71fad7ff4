// C14: directory listings against the directory that was built, and time stamps against the local time around the call.
#include "vmon.h"

#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <filesystem>
#include <fstream>

#include <rofl/common/io.h>

// Stand-ins of the wall clock: while fakeOn is set every source of the time of day tells the same frozen instant.
static bool fakeOn = false;
static timespec fakeNow = {0, 0};
static int realClock(clockid_t id, struct timespec* ts) { return (int)syscall(SYS_clock_gettime, id, ts); }
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) {
  if (fakeOn && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
    *ts = fakeNow;
    return 0;
  }
  return realClock(id, ts);
}
extern "C" time_t time(time_t* t) {
  timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
extern "C" int gettimeofday(struct timeval* tv, void*) {
  timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (tv) {
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
  }
  return 0;
}
extern "C" int timespec_get(struct timespec* ts, int base) {
  if (base != TIME_UTC) return 0;
  clock_gettime(CLOCK_REALTIME, ts);
  return base;
}

using namespace vmon;
namespace fs = std::filesystem;

static std::string name(Rng& r) {
  static const std::string any = "abcXYZ0129_-. ~#%[]*?$\xc3\xa8\n\t\\\"'\x01\xff";
  switch (r.below(5)) {
    case 0: return "f" + std::to_string(r.below(300));
    case 1: return "." + std::to_string(r.below(50));
    case 2: return std::string((size_t)(r.chance(0.2) ? r.range(248, 255) : r.range(1, 200)), (char)('a' + r.below(26)));
    default: {
      std::string s;
      size_t n = 1 + r.below(8);
      for (size_t i = 0; i < n; ++i) s += any[r.below(any.size())];
      if (s == "." || s == "..") s = "dot";
      return s;
    }
  }
}

static void listing(Rng& r) {
  const std::string base = std::string(getenv("VMON_SCRATCH")) + "/io_case";
  fs::remove_all(base);
  std::string dir = base;
  if (r.chance(0.3)) dir += "/" + name(r);
  if (r.chance(0.1)) dir += "/sub dir";
  fs::create_directories(dir);
  std::set<std::string> regular, other;
  int n = (int)(r.chance(0.1) ? 0 : (r.chance(0.05) ? r.range(100, 400) : r.range(1, 20)));
  for (int i = 0; i < n; ++i) {
    std::string nm = name(r);
    if (regular.count(nm) || other.count(nm)) continue;
    std::string full = dir + "/" + nm;
    switch (r.below(9)) {
      case 0: {
        fs::create_directory(full);
        if (r.chance(0.7)) std::ofstream(full + "/inner.txt") << "x";
        other.insert(nm);
        break;
      }
      case 1:
        if (mkfifo(full.c_str(), 0600) == 0) other.insert(nm);
        break;
      case 2:
        fs::create_symlink(dir + "/nowhere_at_all", full);
        other.insert(nm);
        break;
      case 3:
        if (!regular.empty()) {
          fs::create_symlink(dir + "/" + *regular.begin(), full);
          regular.insert(nm);
        }
        break;
      case 4:
        fs::create_directory_symlink(dir, full);
        other.insert(nm);
        break;
      default: {
        std::ofstream o(full);
        if (r.chance(0.7)) o << "data";
        o.close();
        if (r.chance(0.15)) chmod(full.c_str(), (mode_t)r.pick(std::vector<int>{0, 0111, 0200, 0444, 0755}));
        regular.insert(nm);
      }
    }
  }
  bool slash = r.chance(0.3);
  std::string arg = slash ? dir + "/" : dir;
  std::vector<std::string> files, want;
  if (r.chance(0.3)) files = {"zz/previous", "!first"};
  if (r.chance(0.2)) {
    // the list may already name some of the files (the same directory listed before) or repeat other paths
    files.push_back("zz/previous");
    for (auto& f : regular)
      if (r.chance(0.6)) files.push_back(dir + "/" + f);
    r.shuffle(files);
    count("listings_again");
  }
  want = files;
  for (auto& f : regular) want.push_back(dir + "/" + f);
  std::sort(want.begin(), want.end());
  op("getDirectoryFiles");
  rofl::getDirectoryFiles(arg, files);
  auto norm = [](std::vector<std::string> v) { return v; };
  std::string text;
  for (size_t i = 0; i < files.size() && i < 12; ++i) text += files[i] + " | ";
  CHECK(norm(files) == want, "listing", "directory '", arg, "' with ", regular.size(), " regular files and ", other.size(), " other entries: returned ", files.size(), " expected ", want.size(), " paths: ", text);
  count("listings");
  count("regular_files", regular.size());
  count("other_entries", other.size());
  // a directory that does not exist yields no file
  std::vector<std::string> none;
  op("getDirectoryFiles absent");
  try {
    rofl::getDirectoryFiles(dir + "/not_there_at_all", none);
  } catch (const std::exception&) {
  }
  CHECK(none.empty(), "listing", "an absent directory returned files");
  uint64_t h = n;
  for (auto& f : regular) h = comb(h, hashStr(f));
  for (auto& f : other) h = comb(h, hashStr("o" + f));
  if (!regular.empty()) sig(h);
  if (wantSample()) sample(cat("directory with ", regular.size(), " regular files, ", other.size(), " others; trailing slash ", slash));
  fs::remove_all(base);
}

static std::string text(Rng& r) {
  static const std::string any = "abcXYZ0129_-./% %Y%m%d%n%%~";
  std::string s;
  size_t n = r.below(12);
  for (size_t i = 0; i < n; ++i) s += any[r.below(any.size())];
  return s;
}
// calendar fields by arithmetic on the (shifted) epoch
static std::string civil(long long s) {
  long long days = s / 86400, sec = s % 86400;
  if (sec < 0) {
    sec += 86400;
    --days;
  }
  long long z = days + 719468, era = (z >= 0 ? z : z - 146096) / 146097, doe = z - era * 146097;
  long long yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, y = yoe + era * 400, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
  long long d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9;
  if (m <= 2) ++y;
  char b[120];
  snprintf(b, sizeof b, "%04lld%02lld%02lld_%02lld%02lld_%02lld", y, m, d, sec / 3600, sec / 60 % 60, sec % 60);
  return b;
}
static long long daysTo(long long y, int m, int d) {
  y -= m <= 2;
  long long era = y / 400, yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + doe - 719468;
}
// instants where calendars and clocks go wrong
static long long instant(Rng& r) {
  long long y = r.range(1971, 2099), t;
  switch (r.below(6)) {
    case 0: t = daysTo(y, 1, 1) * 86400 + r.range(-4 * 86400, 6 * 86400); break;  // days of the ISO week of the other year
    case 1: t = daysTo(y, 3, 1) * 86400 + r.range(-3 * 86400, 2 * 86400); break;  // leap day
    case 2: t = daysTo(y, (int)r.range(1, 12), 1) * 86400 + r.range(-3, 3); break;  // month and midnight turn
    case 3: t = daysTo(y, (int)r.range(1, 12), (int)r.range(1, 28)) * 86400 + r.range(0, 24) * 3600 + r.range(-2, 2); break;  // hours turn
    case 4: t = 2147483647LL + r.range(-5, 5); break;
    default: t = r.range(86400, 4102444800LL);
  }
  return t;
}
static void stamp(Rng& r) {
  std::string pre = text(r), post = text(r);
  bool dst = r.chance(0.25), frozen = r.chance(0.75);
  // offsets of up to 23 hours move the local time of "now" over two days
  int off = (int)r.range(-23 * 3600, 23 * 3600);
  if (r.chance(0.3)) off = 0;
  char tz[64];
  int a = std::abs(off);
  if (dst) snprintf(tz, sizeof tz, "%s", r.pick(std::vector<std::string>{"CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "AEST-10AEDT,M10.1.0,M4.1.0/3"}).c_str());
  else snprintf(tz, sizeof tz, "VMO%s%d:%02d:%02d", off < 0 ? "-" : "+", a / 3600, a / 60 % 60, a % 60);
  setenv("TZ", tz, 1);
  tzset();
  op("generateStampedString");
  time_t t0, t1;
  std::string got;
  if (frozen) {
    fakeNow.tv_sec = (time_t)instant(r);
    fakeNow.tv_nsec = (long)r.range(0, 999999999);
    fakeOn = true;
    got = rofl::generateStampedString(pre, post);
    fakeOn = false;
    t0 = t1 = fakeNow.tv_sec;
  } else {
    t0 = time(nullptr) - 1;
    got = rofl::generateStampedString(pre, post);
    t1 = time(nullptr) + 1;
  }
  bool ok = false;
  std::string last;
  for (time_t t = t0; t <= t1 && !ok; ++t) {
    if (dst) {
      std::tm f;
      localtime_r(&t, &f);
      last = pre + civil(daysTo(f.tm_year + 1900, f.tm_mon + 1, f.tm_mday) * 86400 + f.tm_hour * 3600 + f.tm_min * 60 + f.tm_sec) + post;
    } else {
      last = pre + civil((long long)t - off) + post;
    }
    ok = got == last;
  }
  CHECK(ok, "stamp", "stamped string '", got, "' expected about '", last, "' (TZ ", tz, ", clock ", (long long)t0, frozen ? " frozen)" : ")");
  if (r.chance(0.05)) {
    std::string d = rofl::generateStampedString();
    CHECK(d.size() == 16 && d[8] == '_' && d[13] == '_' && d.find_first_not_of("0123456789_") == std::string::npos, "stamp", "default stamp '", d, "'");
  }
  count("stamps");
  if (frozen) count("stamps_frozen_clock");
  if (dst) count("stamps_daylight_saving");
  if (wantSample()) sample(cat("clock ", (long long)t0, " TZ ", tz, " -> ", got));
  sig(comb(comb(hashStr(pre + "|" + post), off), frozen ? (uint64_t)t0 : 0));
}

const char* vmon_property() { return "C14"; }
uint64_t vmon_cases(bool thorough) { return thorough ? 60000 : 6000; }
void vmon_case(uint64_t idx, Rng& r) {
  require("regular_files", 1000);
  require("other_entries", 500);
  require("stamps", 500);
  require("stamps_frozen_clock", 300);
  require("stamps_daylight_saving", 100);
  if (idx % 2) listing(r); else stamp(r);
}
