// C15: statistics printed by the profiler against the recorded series; scoped timers against the clock around them.
#include "vmon.h"

#include <time.h>

#include <chrono>
#include <thread>

#include <rofl/common/profiler.h>

using namespace vmon;
using rofl::Profiler;

struct Row {
  double avg, var, mn, mx;
  unsigned long long count;
};
static std::map<std::string, Row> table(const std::string& only) {
  std::ostringstream o;
  o << std::setprecision(17);
  Profiler::getProfiler().printStats(o);
  std::map<std::string, Row> t;
  std::istringstream in(o.str());
  std::string line;
  while (std::getline(in, line)) {
    if (line.find(only) == std::string::npos) continue;
    // fields separated by " \t"; the label is the first one
    std::vector<std::string> f;
    size_t p = 0, q;
    while ((q = line.find(" \t", p)) != std::string::npos) {
      f.push_back(line.substr(p, q - p));
      p = q + 2;
    }
    CHECK(f.size() >= 6, "format", "statistics line '", line, "'");
    Row r{strtod(f[1].c_str(), 0), strtod(f[2].c_str(), 0), strtod(f[3].c_str(), 0), strtod(f[4].c_str(), 0), strtoull(f[5].c_str(), 0, 10)};
    CHECK(t.emplace(f[0], r).second, "format", "label '", f[0], "' printed twice");
  }
  return t;
}

static std::map<std::string, std::vector<double>> model;  // the profiler is a process-wide singleton

static void verify(const std::string& label, const char* when) {
  auto t = table(label);
  CHECK(t.count(label), "missing", when, ": label '", label, "' is not printed");
  const auto& v = model[label];
  const Row& g = t[label];
  long double s = 0;
  for (double x : v) s += x;
  long double m = s / v.size(), q = 0, absmax = 0;
  for (double x : v) {
    q += (x - m) * (x - m);
    absmax = std::max(absmax, (long double)std::fabs(x));
  }
  long double var = v.size() > 1 ? q / (v.size() - 1) : 0;
  std::string what = cat(when, ": series of ", v.size(), " ", show(v, 12), " printed avg ", g.avg, " var ", g.var, " min ", g.mn, " max ", g.mx, " count ", g.count);
  CHECK(g.count == v.size(), "count", what);
  CHECK(g.mn == *std::min_element(v.begin(), v.end()), "min", what);
  CHECK(g.mx == *std::max_element(v.begin(), v.end()), "max", what);
  CHECK(std::fabs(g.avg - (double)m) <= 1e-9 * (double)absmax + 1e-300, "mean", what, " expected mean ", (double)m);
  const double eps = 2.3e-16, kappa = var > 0 ? std::sqrt(1 + (double)(m * m / var)) : 0;
  double tolVar = (double)var * (1e-9 + 16 * v.size() * eps * kappa) + v.size() * std::pow(16 * eps * (double)absmax, 2) + 1e-300;
  CHECK(std::fabs(g.var - (double)var) <= tolVar, "variance", what, " expected variance ", (double)var);
  count("rows_checked");
}

static void series(uint64_t idx, Rng& r) {
  int labels = (int)r.range(1, 4);
  bool longName = r.chance(0.2);
  std::vector<std::string> names;
  for (int i = 0; i < labels; ++i) names.push_back(cat("case", idx, "_", longName ? std::string((size_t)r.range(1, 600), 'n') : std::string(), "_", i));
  if (r.chance(0.2)) {  // labels that are different but look alike
    const std::string stem = cat("case", idx, "_x");
    names = {stem, stem + " ", cat("CASE", idx, "_x"), cat("case", idx, "_X"), " " + stem};
    names.resize((size_t)labels + 1);
    count("similar_labels");
  }
  int n = (int)(idx % 700 == 1 ? r.range(66000, 140000) : r.chance(0.05) ? r.range(200, 2000) : r.range(1, 40));
  int kind = (int)r.below(7);
  double base = r.uni(0, 1000);
  uint64_t h = kind;
  for (int k = 0; k < n; ++k) {
    double x;
    switch (kind) {
      case 0: x = r.uni(0, 100); break;
      case 1: x = base; break;
      case 2: x = base + r.gauss(); break;
      case 4: x = std::floor(base) * 1e6 + r.gauss(); break;  // small spread around a large mean
      case 3: x = std::pow(10.0, r.uni(-6, 6)); break;
      case 5: x = -std::pow(10.0, r.uni(-6, 9)); break;
      default: x = (double)r.range(-5, 5);
    }
    std::string l = r.pick(names);
    op("updateStat");
    Profiler::getProfiler().updateStat(l, x);
    model[l].push_back(x);
    h = comb(h, (uint64_t)(x * 1000));
    count("updates");
    if (n < 50 || (n < 5000 && k % 97 == 0) || k % 20011 == 0) verify(l, "after updateStat");
  }
  for (auto& l : names)
    if (!model[l].empty()) verify(l, "at the end");
  for (auto& l : names) model.erase(l);
  if (n > 2) sig(h);
  if (wantSample()) sample(cat(n, " measures of kind ", kind, " over ", labels, " labels"));
}

static double now() { return std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void spin(double ms) {
  double t = now();
  while (now() - t < ms) {
  }
}
static void timers(uint64_t idx, Rng& r) {
  std::string l = cat("timer", idx);
  int reps = (int)r.range(1, 4);
  double lo = 1e300, hi = 0;
  for (int k = 0; k < reps; ++k) {
    double a0 = now(), a1, b0;
    {
      op("ScopedTimer");
      rofl::ScopedTimer t(l);
      a1 = now();
      if (r.chance(0.5)) {
        rofl::ScopedTimer inner(l + "_inner");
        spin(0.2);
      }
      double e0 = now();
      double e = t.elapsedTimeMs();
      double e1 = now();
      CHECK(e >= e0 - a1 - 1e-6 && e <= e1 - a0 + 1e-6, "elapsed", "elapsed ", e, " ms, clock says between ", e0 - a1, " and ", e1 - a0);
      spin(r.uni(0, 0.5));
      b0 = now();
    }
    double b1 = now();
    lo = std::min(lo, b0 - a1);
    hi = std::max(hi, b1 - a0);
  }
  auto t = table(l);
  CHECK(t.count(l) && t[l].count == (unsigned)reps, "timer", "a timer label used ", reps, " times has count ", t.count(l) ? t[l].count : 0);
  CHECK(t[l].mn >= lo - 1e-6 && t[l].mx <= hi + 1e-6, "timer", "recorded times [", t[l].mn, ",", t[l].mx, "] ms, clock says within [", lo, ",", hi, "]");
  count("timers", reps);
}
static void hereTimed(double ms) {
  ROFL_COMMON_PROFILER_SCOPED_TIMER_HERE
  spin(ms);
}
static void twoTimed() {
  { ROFL_COMMON_PROFILER_SCOPED_TIMER_HERE }
  { ROFL_COMMON_PROFILER_SCOPED_TIMER_HERE }
  ROFL_COMMON_PROFILER_SCOPED_TIMER_HERE
}
static void here() {
  static int calls = 0;
  twoTimed();
  ++calls;
  std::set<std::string> two;
  for (auto& p : table("twoTimed")) {
    CHECK(p.second.count == (unsigned long long)calls, "macro", "macro label '", p.first, "' has ", p.second.count, " measures after ", calls, " calls");
    two.insert(p.first);
  }
  CHECK(two.size() == 3, "macro", "three scoped timer macros on three lines recorded under ", two.size(), " labels");
  auto before = table("hereTimed");
  std::set<std::string> known;
  for (auto& p : before)
    if (p.first.find("hereTimed") != std::string::npos) known.insert(p.first);
  unsigned long long c0 = known.empty() ? 0 : before[*known.begin()].count;
  op("scoped timer macro");
  double t0 = now();
  hereTimed(2.0);
  double t1 = now() - t0;
  auto after = table("hereTimed");
  std::string l;
  for (auto& p : after)
    if (p.first.find("hereTimed") != std::string::npos) l = p.first;
  CHECK(!l.empty() && after[l].count == c0 + 1, "macro", "the scoped timer macro did not record one measure of its function");
  CHECK(after[l].mn >= 2.0 - 1e-3, "macro", "the scoped timer macro recorded ", after[l].mn, " ms for a scope that took at least 2 ms");
  CHECK(after[l].avg * after[l].count <= 1e9 && (c0 > 0 || after[l].mx <= t1 + 1e-3), "macro", "the scoped timer macro recorded ", after[l].mx, " ms for a scope of at most ", t1);
  count("macro_scopes");
}

const char* vmon_property() { return "C15"; }
uint64_t vmon_cases(bool thorough) { return thorough ? 20000 : 2000; }
void vmon_case(uint64_t idx, Rng& r) {
  require("updates", 5000);
  require("timers", 50);
  require("macro_scopes", 5);
  if (idx % 80 < 8) here();
  else if (idx % 10 == 9) timers(idx, r);
  else series(idx, r);
}
