// C05: DisjointSet as a partition, against explicit member lists, after every operation of a history.
#include "vmon.h"

#include <rofl/common/disjoint_set.h>

using namespace vmon;
using DS = rofl::DisjointSet;

struct Model {
  std::vector<int> cls;                 // class of each node
  std::map<int, std::vector<int>> mem;  // members of each class
  void add() {
    int id = (int)cls.size();
    cls.push_back(id);
    mem[id].push_back(id);
  }
  bool same(int a, int b) const { return cls[a] == cls[b]; }
  void join(int a, int b) {
    int ca = cls[a], cb = cls[b];
    if (ca == cb) return;
    if (mem[ca].size() < mem[cb].size()) std::swap(ca, cb);
    for (int x : mem[cb]) {
      cls[x] = ca;
      mem[ca].push_back(x);
    }
    mem.erase(cb);
  }
};

static void full(DS& ds, const Model& m, const std::string& what) {
  op("find sweep");
  std::map<int, int> rep;
  for (size_t i = 0; i < m.cls.size(); ++i) {
    int r = ds.find((int)i);
    CHECK(r >= 0 && r < (int)m.cls.size(), "find", "find(", i, ")=", r, " is not a node: ", what);
    CHECK(m.same(r, (int)i), "find", "find(", i, ")=", r, " is not in the set of ", i, ": ", what);
    auto it = rep.find(m.cls[i]);
    if (it == rep.end()) rep[m.cls[i]] = r;
    else CHECK(it->second == r, "find", "two members of one set have representatives ", it->second, " and ", r, ": ", what);
    CHECK(ds.size((int)i) == m.mem.at(m.cls[i]).size(), "sizeof", "size(", i, ")=", ds.size((int)i), " but its set has ", m.mem.at(m.cls[i]).size(), " nodes: ", what);
  }
  op("parents");
  std::vector<int> par;
  ds.parents(std::back_inserter(par));
  std::set<int> ps(par.begin(), par.end()), want;
  for (auto& k : rep) want.insert(k.second);
  CHECK(ps.size() == par.size() && ps == want, "parents", "parents() lists ", show(par), " instead of one representative per set: ", what);
  CHECK(ds.setNum() == (int)m.mem.size(), "setNum", "setNum() ", ds.setNum(), " but there are ", m.mem.size(), " sets: ", what);
  CHECK(ds.nodeNum() == m.cls.size() && ds.size() == m.cls.size(), "nodeNum", "nodeNum() ", ds.nodeNum(), " expected ", m.cls.size(), ": ", what);
  count("full_sweeps");
}

static void run(Rng& r) {
  int n0 = (int)(r.chance(0.1) ? r.range(2000, 12000) : r.chance(0.1) ? r.range(60, 600) : r.range(0, 60));
  Model m;
  DS ds;
  std::string what = cat("start ", n0);
  op("init");
  int how = (int)r.below(3);
  if (how == 0) {
    ds = DS(n0);
  } else if (how == 1) {
    ds.initSets(n0);
  } else {
    n0 = 0;
  }
  for (int i = 0; i < n0; ++i) m.add();
  int steps = (int)r.range(10, n0 > 1000 ? 6000 : n0 > 60 ? 1200 : 150);
  int style = (int)r.below(6);  // random pairs, chain, star, doubling, clusters, rounds of equal halves (deep trees)
  const bool sweeps = style != 5 || r.chance(0.3);  // a sweep over find flattens the trees
  if (style == 5) steps *= 2, count("balanced_histories");
  int level = 0, block = 0;
  int k = 0;
  uint64_t h = n0;
  double pMake = n0 == 0 ? 0.5 : r.uni(0, 0.2);
  for (int s = 0; s < steps; ++s) {
    int n = (int)m.cls.size();
    if (n == 0 || r.chance(pMake)) {
      op("makeSet");
      int id = ds.makeSet();
      CHECK(id == n, "makeSet", "makeSet() returned ", id, " expected the next id ", n, ": ", what);
      m.add();
      CHECK(ds.size(id) == 1 && ds.find(id) == id, "makeSet", "the new node is not a singleton: ", what);
      h = comb(h, 1);
      count("makeSet");
    } else if (r.chance(std::min(0.02, 1.5 / steps)) && s > 5) {
      op("initSets again");
      int nn = (int)r.range(0, 40);
      ds.initSets(nn);
      m = Model();
      for (int i = 0; i < nn; ++i) m.add();
      what += cat(" init(", nn, ")");
      h = comb(h, 1000 + nn);
      count("reinit");
    } else if (r.chance(0.6)) {
      int a, b;
      switch (style) {
        case 1: a = k % n; b = (k + 1) % n; ++k; break;
        case 2: a = 0; b = k++ % n; break;
        case 3: a = (int)r.below(n); b = (a ^ (1 << r.below(14))) % n; break;
        case 5:
          if ((block * 2 + 1) << level >= n) block = 0, ++level;
          if ((1 << level) >= n) level = 0;
          a = ((block * 2) << level) + (r.chance(0.8) ? 0 : (int)r.below(1u << level));
          b = std::min(n - 1, ((block * 2 + 1) << level) + (r.chance(0.8) ? 0 : (int)r.below(1u << level)));
          a = std::min(a, n - 1);
          ++block;
          break;
        case 4: a = (int)r.below(n); b = std::min(n - 1, a / 8 * 8 + (int)r.below(8)); break;
        default: a = (int)r.below(n); b = (int)r.below(n);
      }
      if (r.chance(style == 5 ? 0.1 : 0.5)) std::swap(a, b);
      bool was = m.same(a, b);
      if (what.size() < 500) what += cat(" j", a, "-", b);
      op("join");
      int root = ds.join(a, b);
      m.join(a, b);
      if (was) {
        CHECK(root == n, "join", "joining two nodes of one set returned ", root, " instead of ", n, ": ", what);
        count("join_noop");
      } else {
        CHECK(root >= 0 && root < n && ds.find(a) == root && ds.find(b) == root, "join", "join returned ", root, " but find gives ", ds.find(a), ",", ds.find(b), ": ", what);
        count("join");
      }
      CHECK(ds.size(a) == m.mem[m.cls[a]].size(), "sizeof", "after join size(", a, ")=", ds.size(a), " expected ", m.mem[m.cls[a]].size(), ": ", what);
      h = comb(h, (uint64_t)a * 65537 + b);
    } else if (r.chance(0.1)) {  // ids that do not exist are refused and change nothing
      int bad = r.pick(std::vector<int>{-1, n, n + 1, -1000000, n + 100000, std::numeric_limits<int>::max(), std::numeric_limits<int>::min()});
      int other = r.chance(0.5) ? (int)r.below(n) : bad;
      op("find invalid");
      CHECK(ds.find(bad) == n, "invalid", "find(", bad, ") of ", n, " nodes returned ", ds.find(bad), ": ", what);
      op("join invalid");
      int res = r.chance(0.5) ? ds.join(bad, other) : ds.join(other, bad);
      CHECK(res == n, "invalid", "join with the invalid id ", bad, " returned ", res, ": ", what);
      op("size invalid");
      CHECK(ds.size(bad) == 0, "invalid", "size(", bad, ") of a node that does not exist is not 0: ", what);
      if (m.cls.size() < 600 || r.chance(0.1)) full(ds, m, what);
      count("invalid_ids");
    } else {
      int a = (int)r.below(n), b = (int)r.below(n);
      op("find");
      int fa = ds.find(a), fb = ds.find(b);
      CHECK((fa == fb) == m.same(a, b), "find", "find(", a, ")=", fa, " find(", b, ")=", fb, " but same set is ", m.same(a, b), ": ", what);
      CHECK(m.same(fa, a), "find", "the representative of ", a, " is outside its set: ", what);
      count("find");
    }
    CHECK(ds.setNum() == (int)m.mem.size(), "setNum", "setNum() ", ds.setNum(), " but there are ", m.mem.size(), " sets: ", what);
    CHECK(ds.nodeNum() == m.cls.size(), "nodeNum", "nodeNum() wrong: ", what);
    if (sweeps && m.cls.size() < 100 && s % 7 == 0) full(ds, m, what);
  }
  full(ds, m, what);
  maximum("nodes", (double)m.cls.size());
  if (m.cls.size() > 2 && m.mem.size() < m.cls.size()) sig(h);
  if (wantSample()) sample(cat(what.substr(0, 200), " -> ", m.cls.size(), " nodes ", m.mem.size(), " sets"));
}

// more nodes than fit in 16 bits, all joined in the end
static void huge(Rng& r) {
  int n = (int)r.range(66000, 90000);
  DS ds(n);
  Model m;
  for (int i = 0; i < n; ++i) m.add();
  std::vector<int> order(n);
  for (int i = 0; i < n; ++i) order[i] = i;
  int style = (int)r.below(3);
  if (style != 1) r.shuffle(order);
  std::string what = cat("all of ", n, " nodes joined, style ", style);
  auto join = [&](int a, int b) {
    op("join");
    int root = ds.join(a, b);
    CHECK(root >= 0 && root < n, "join", "join(", a, ",", b, ") returned ", root, ": ", what);
    m.join(a, b);
  };
  if (style == 0) for (int step = 1; step < n; step *= 2)
      for (int i = 0; i + step < n; i += 2 * step) join(order[i], order[i + step]);
  else for (int i = 1; i < n; ++i) join(order[i - 1], order[i]);
  CHECK(ds.size(order[0]) == (size_t)n && ds.setNum() == 1, "sizeof", "size() is ", ds.size(order[0]), ", setNum() ", ds.setNum(), ": ", what);
  full(ds, m, what);
  maximum("nodes", n);
  count("huge_sets");
}

const char* vmon_property() { return "C05"; }
uint64_t vmon_cases(bool thorough) { return thorough ? 60000 : 3000; }
void vmon_case(uint64_t idx, Rng& r) {
  if (idx % 1000 == 500) return huge(r);
  require("join", 1000);
  require("makeSet", 100);
  require("invalid_ids", 50);
  run(r);
}
