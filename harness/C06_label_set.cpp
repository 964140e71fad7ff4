// C06: LabelSet against std::set and the laws of set algebra.
#include "vmon.h"

#include <iterator>
#include <rofl/common/label_set.h>

using namespace vmon;
using LS = rofl::LabelSet;
using SS = std::set<int>;

static void same(const LS& l, const SS& s, const char* key, const std::string& what) {
  std::vector<int> a(l.begin(), l.end()), b(s.begin(), s.end());
  CHECK(a == b, key, what, ": holds ", show(a), " expected ", show(b));
  CHECK(l.size() == s.size() && l.empty() == s.empty(), key, what, ": size() ", l.size(), " empty() ", l.empty(), " for ", show(b));
}

static int label(Rng& r, int span) {
  if (r.chance(0.04)) return r.pick(std::vector<int>{std::numeric_limits<int>::min(), std::numeric_limits<int>::max(), -1, 0});
  return (int)r.range(-span, span);
}

static void run(Rng& r) {
  int span = r.pick(std::vector<int>{2, 4, 10, 100, 100000});
  const int K = 4;
  std::vector<LS> l(K);
  std::vector<SS> s(K);
  int steps = (int)r.range(10, 120);
  uint64_t h = span;
  for (int st = 0; st < steps; ++st) {
    int i = (int)r.below(K), j = (int)r.below(K), k = (int)r.below(K);
    int x = label(r, span);
    std::string ctxt = cat("A=", show(s[i]), " B=", show(s[j]), " x=", x);
    int what = (int)r.below(13);
    h = comb(h, what * 64 + i * 16 + j * 4 + k);
    switch (what) {
      case 0: case 1: case 2: {
        op("insert");
        bool was = s[i].count(x) > 0;
        bool ret = l[i].insert(x);
        s[i].insert(x);
        CHECK(ret == was, "insert", "insert() returned ", ret, " but membership before was ", was, ": ", ctxt);
        same(l[i], s[i], "insert", "insert " + ctxt);
        count("insert");
        break;
      }
      case 3: {
        op("remove");
        if (r.chance(0.5) && !s[i].empty()) x = *std::next(s[i].begin(), r.below(s[i].size()));
        l[i].remove(x);
        s[i].erase(x);
        same(l[i], s[i], "remove", "remove " + ctxt);
        count("remove");
        break;
      }
      case 4: {
        op("unionSet(set)");
        SS u = s[i];
        u.insert(s[j].begin(), s[j].end());
        LS lu = l[i].unionSet(l[j]);
        same(lu, u, "union", "union " + ctxt);
        same(l[i], s[i], "operand", "left operand of union " + ctxt);
        same(l[j], s[j], "operand", "right operand of union " + ctxt);
        l[k] = lu;
        s[k] = u;
        count("union");
        break;
      }
      case 5: {
        op("intersectionSet");
        SS u;
        std::set_intersection(s[i].begin(), s[i].end(), s[j].begin(), s[j].end(), std::inserter(u, u.end()));
        LS lu = l[i].intersectionSet(l[j]);
        same(lu, u, "intersection", "intersection " + ctxt);
        same(l[i], s[i], "operand", "left operand of intersection " + ctxt);
        same(l[j], s[j], "operand", "right operand of intersection " + ctxt);
        if (r.chance(0.5)) {
          l[k] = lu;
          s[k] = u;
        }
        count("intersection");
        break;
      }
      case 6: {
        op("differenceSet(set)");
        SS u;
        std::set_difference(s[i].begin(), s[i].end(), s[j].begin(), s[j].end(), std::inserter(u, u.end()));
        LS lu = l[i].differenceSet(l[j]);
        same(lu, u, "difference", "difference " + ctxt);
        same(l[i], s[i], "operand", "left operand of difference " + ctxt);
        same(l[j], s[j], "operand", "right operand of difference " + ctxt);
        if (r.chance(0.5)) {
          l[k] = lu;
          s[k] = u;
        }
        count("difference");
        break;
      }
      case 7: {
        op("unionSet(label)/differenceSet(label)");
        if (r.chance(0.5) && !s[i].empty()) x = *std::next(s[i].begin(), r.below(s[i].size()));
        SS u = s[i], d = s[i];
        u.insert(x);
        d.erase(x);
        same(l[i].unionSet(x), u, "unionLabel", "union with a label " + ctxt);
        same(l[i].differenceSet(x), d, "differenceLabel", "difference with a label " + ctxt);
        same(l[i], s[i], "operand", "operand of label algebra " + ctxt);
        count("label_algebra");
        break;
      }
      case 8: case 9: {
        op("== !=");
        if (r.chance(0.3)) {  // near-equal pair: prefix, one label more, one replaced
          l[j] = l[i];
          s[j] = s[i];
          if (r.chance(0.5)) {
            int big = r.chance(0.5) || s[i].empty() ? x : *s[i].rbegin();
            if (r.chance(0.5) && big < std::numeric_limits<int>::max()) ++big;
            if (r.chance(0.5)) { l[j].insert(big); s[j].insert(big); }
            else { l[j].remove(big); s[j].erase(big); }
          }
        }
        bool eq = s[i] == s[j];
        CHECK((l[i] == l[j]) == eq, "equal", "operator== is ", !eq, ": A=", show(s[i]), " B=", show(s[j]));
        CHECK((l[j] == l[i]) == eq, "equal", "operator== is not symmetric: A=", show(s[i]), " B=", show(s[j]));
        CHECK((l[i] != l[j]) == !eq, "notequal", "operator!= is ", eq, ": A=", show(s[i]), " B=", show(s[j]));
        CHECK((l[j] != l[i]) == !eq, "notequal", "operator!= is not symmetric: A=", show(s[i]), " B=", show(s[j]));
        count("comparisons");
        count(eq ? "comparisons_equal" : "comparisons_different");
        break;
      }
      case 10: {
        op("inside");
        for (int q = 0; q < 10; ++q) {
          int y = label(r, span);
          if (!s[i].empty() && q < 5) y = q == 0 ? *s[i].begin() : q == 1 ? *s[i].rbegin() : *std::next(s[i].begin(), r.below(s[i].size()));
          CHECK(l[i].inside(y) == (s[i].count(y) > 0), "inside", "inside(", y, ") wrong: ", ctxt);
        }
        count("inside", 10);
        break;
      }
      case 11: {
        op("construct/copy/clear");
        std::vector<int> v;
        int n = r.chance(0.03) ? (int)r.range(100, 1500) : (int)r.below(12);
        if (n > 100) count("large_sets");
        for (int q = 0; q < n; ++q) v.push_back(label(r, span));
        LS c(v.begin(), v.end());
        same(c, SS(v.begin(), v.end()), "construct", cat("range constructor ", show(v)));
        LS d(c);
        d.insert(x);
        same(c, SS(v.begin(), v.end()), "copy", "modifying a copy changed the original");
        d.clear();
        same(d, SS(), "clear", "clear()");
        l[k] = c;
        s[k] = SS(v.begin(), v.end());
        count("construct");
        break;
      }
      case 12: {
        op("print");
        std::ostringstream o;
        if (r.chance(0.5)) l[i].print(o); else o << l[i];
        std::vector<int> nums, want(s[i].begin(), s[i].end());
        std::string t = o.str();
        for (auto& ch : t)
          if (ch != '-' && !(ch >= '0' && ch <= '9')) ch = ' ';
        std::istringstream in(t);
        long long v;
        while (in >> v) nums.push_back((int)v);
        CHECK(nums == want, "print", "printed '", o.str(), "' for ", show(want));
        count("print");
        break;
      }
    }
  }
  for (int i = 0; i < K; ++i) same(l[i], s[i], "final", "final content");
  sig(h);
  if (wantSample()) sample(cat("labels within +-", span, ", ", steps, " operations; final sets ", show(s[0]), show(s[1]), show(s[2]), show(s[3])));
}

const char* vmon_property() { return "C06"; }
uint64_t vmon_cases(bool thorough) { return thorough ? 200000 : 12000; }
void vmon_case(uint64_t, Rng& r) {
  require("comparisons_equal", 100);
  require("comparisons_different", 100);
  require("union", 100);
  require("difference", 100);
  run(r);
}
