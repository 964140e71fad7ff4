// C01: MinMaxHeap against a sorted multiset model, after every single operation.
#include "vmon.h"

#include <deque>
#include <functional>
#include <string>

#include <rofl/common/min_max_heap.h>

using namespace vmon;

struct Item {
  int key = 0;
  int id = 0;
};
struct ByKey {
  bool operator()(const Item& a, const Item& b) const { return a.key < b.key; }
};
struct ByKeyDesc {
  bool operator()(const Item& a, const Item& b) const { return a.key > b.key; }
};
struct ByMod {  // stateful comparator
  int m;
  explicit ByMod(int mm = 7) : m(mm) {}
  bool operator()(const Item& a, const Item& b) const { return ((a.key % m) + m) % m < ((b.key % m) + m) % m; }
};

// The model keeps the items in a multiset ordered by the same comparator; identity is the id.
template <typename Cmp, typename Heap>
struct Monitor {
  Heap heap;
  Cmp cmp;
  std::multiset<Item, Cmp> model;
  std::vector<Item> trace;
  std::string log;
  explicit Monitor(const Cmp& c) : heap(c), cmp(c), model(c) {}

  bool equiv(const Item& a, const Item& b) const { return !cmp(a, b) && !cmp(b, a); }
  std::string state() const { return cat("size ", model.size(), " after ", log.size() > 600 ? "..." + log.substr(log.size() - 600) : log); }

  void observe() {
    op("size");
    CHECK(heap.size() == model.size(), "size", "size() ", heap.size(), " != ", state());
    CHECK(heap.empty() == model.empty(), "empty", "empty() wrong: ", state());
    if (model.empty()) return;
    op("top/bottom");
    const Item& t = heap.top();
    CHECK(equiv(t, *model.begin()), "top", "top() key ", t.key, " but the least key is ", model.begin()->key, ": ", state());
    const Item& b = heap.bottom();
    CHECK(equiv(b, *model.rbegin()), "bottom", "bottom() key ", b.key, " but the greatest key is ", model.rbegin()->key, ": ", state());
    op("nextTop/nextBottom");
    auto second = model.size() == 1 ? model.begin() : std::next(model.begin());
    const Item& nt = heap.nextTop();
    CHECK(equiv(nt, *second), "nextTop", "nextTop() key ", nt.key, " but the second least is ", second->key, ": ", state());
    auto last2 = model.size() == 1 ? model.rbegin() : std::next(model.rbegin());
    const Item& nb = heap.nextBottom();
    CHECK(equiv(nb, *last2), "nextBottom", "nextBottom() key ", nb.key, " but the second greatest is ", last2->key, ": ", state());
  }
  void push(const Item& it) {
    if (model.size() < 64) log += cat("+", it.key, " ");
    op("push");
    heap.push(it);
    model.insert(it);
    count("push");
  }
  void removeFromModel(const Item& it, const char* what) {
    auto r = model.equal_range(it);
    for (auto i = r.first; i != r.second; ++i)
      if (i->id == it.id && i->key == it.key) {
        model.erase(i);
        return;
      }
    fail("conservation", what, " item (", it.key, ",", it.id, ") that is not in the heap: ", state());
  }
  void popTop() {
    Item t = heap.top();
    if (model.size() < 64) log += "T ";
    op("popTop");
    heap.popTop();
    removeFromModel(t, "top() returned");
    count("popTop");
  }
  void popBottom() {
    Item t = heap.bottom();
    if (model.size() < 64) log += "B ";
    op("popBottom");
    heap.popBottom();
    removeFromModel(t, "bottom() returned");
    count("popBottom");
  }
  void conservation() {  // the items held are exactly those pushed and not popped
    op("iterate");
    std::vector<std::pair<int, int>> a, b;
    for (auto it = heap.begin(); it != heap.end(); ++it) a.emplace_back(it->id, it->key);
    for (auto& x : model) b.emplace_back(x.id, x.key);
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    CHECK(a == b, "conservation", "the heap's content differs from pushed minus popped: ", state());
  }
};

template <typename Cmp, typename Heap>
static void randomSequence(Rng& rng, const Cmp& cmp, uint64_t tag) {
  Monitor<Cmp, Heap> m(cmp);
  static const int DIST[] = {1, 2, 3, 5, 10, 40, 1000, 1 << 30};
  int dist = DIST[rng.below(8)];
  int off = rng.chance(0.5) ? -dist / 2 : 0;
  int steps = rng.chance(0.15) ? 6000 : (int)rng.range(5, 400);
  int id = 0;
  double pPush = rng.uni(0.35, 0.75), pTop = rng.pick(std::vector<double>{0.0, 0.2, 0.5, 0.8, 1.0});
  int mode = (int)rng.below(4);
  uint64_t h = comb(tag, dist);
  size_t maxSize = 0;
  int phaseLeft = 0;
  bool growing = true;
  int mono = 0;
  int kind = (int)rng.below(5);
  for (int s = 0; s < steps; ++s) {
    bool doPush;
    if (mode == 0) {
      doPush = rng.chance(pPush);
    } else {  // sawtooth: grow and drain in runs
      if (phaseLeft == 0) {
        growing = !growing || m.model.empty();
        phaseLeft = (int)rng.range(1, mode == 1 ? 12 : (mode == 2 ? 80 : 2500));
      }
      --phaseLeft;
      doPush = growing;
    }
    if (m.model.empty()) doPush = true;
    if (doPush) {
      Item it;
      if (kind == 0) it.key = mono++ % dist + off;
      else if (kind == 1) it.key = off - (mono++ % dist);
      else it.key = (int)rng.below(dist) + off;
      it.id = id++;
      m.push(it);
      h = comb(h, it.key);
    } else if (rng.chance(pTop)) {
      m.popTop();
      h = comb(h, 1);
    } else {
      m.popBottom();
      h = comb(h, 2);
    }
    m.observe();
    maxSize = std::max(maxSize, m.model.size());
    if (s % 97 == 0) m.conservation();
  }
  m.conservation();
  if (!m.model.empty() && rng.chance(0.5)) {  // pushing an item of the heap itself, through the reference it returned
    for (int i = 0; i < 8; ++i) {
      const Item& own = rng.chance(0.25) ? m.heap.top() : rng.chance(0.33) ? m.heap.bottom() : rng.chance(0.5) ? m.heap.nextTop() : m.heap.nextBottom();
      Item it = own;
      op("push of its own item");
      m.heap.push(own);
      m.model.insert(it);
      m.observe();
    }
    m.conservation();
    count("push_own", 8);
  }
  if (rng.chance(0.3)) {  // assignment replaces the content
    op("assign");
    Monitor<Cmp, Heap> c(cmp);
    for (int i = (int)rng.range(0, 5); i > 0; --i) c.push(Item{(int)rng.below(9), -i});
    c.heap = m.heap;
    c.model = m.model;
    c.observe();
    c.conservation();
    c.push(Item{off, -9});
    c.observe();
    m.observe();
    m.conservation();
  }
  if (rng.chance(0.3)) {  // a copy is independent and equal
    op("copy");
    Monitor<Cmp, Heap> c(m);
    c.observe();
    int n = (int)std::min<size_t>(c.model.size(), 20);
    for (int i = 0; i < n; ++i) {
      if (rng.chance(0.5)) c.popTop(); else c.popBottom();
      c.observe();
    }
    m.conservation();
    m.observe();
  }
  if (rng.chance(0.5))
    while (!m.model.empty()) {
      if (rng.chance(pTop)) m.popTop(); else m.popBottom();
      m.observe();
    }
  maximum("heap_size", (double)maxSize);
  if (maxSize >= 3) sig(h);
  if (wantSample()) sample(cat("keys<", dist, " mode ", mode, " steps ", steps, " max size ", maxSize, " ops: ", m.log.substr(0, 200)));
}

// All key sequences over a small alphabet followed by all drain patterns.
static const int EXN_Q = 6, EXN_T = 7;
static void exhaustive(uint64_t block, uint64_t nblocks, int n, int k) {
  uint64_t total = 1;
  for (int i = 0; i < n; ++i) total *= k;
  for (uint64_t c = block; c < total; c += nblocks) {
    int keys[16];
    uint64_t x = c;
    for (int i = 0; i < n; ++i) {
      keys[i] = (int)(x % k);
      x /= k;
    }
    for (uint64_t drain = 0; drain < (1ull << n); ++drain) {
      Monitor<ByKey, rofl::MinMaxHeap<Item, ByKey>> m{ByKey()};
      for (int i = 0; i < n; ++i) {
        m.push(Item{keys[i], i});
        if (drain == 0) m.observe();
      }
      for (int i = 0; i < n; ++i) {
        if (drain >> i & 1) m.popTop(); else m.popBottom();
        m.observe();
      }
    }
    count("exhaustive_sequences");
    sig(comb(0xE0000 + n * 100 + k, c));
  }
}

// Heaps deep enough for any fixed-width shortcut on positions or levels to show.
static void hugeSequence(Rng& rng) {
  Monitor<ByKey, rofl::MinMaxHeap<Item, ByKey>> m{ByKey()};
  int n = (int)rng.range(66000, ctx().thorough ? 600000 : 140000), id = 0, kind = (int)rng.below(4);
  for (int i = 0; i < n; ++i) {
    int key = kind == 0 ? i : kind == 1 ? -i : kind == 2 ? (int)rng.below(1000) : (int)rng.below(1 << 30);
    m.push(Item{key, id++});
    if (i % 7 == 0 || i > n - 2000) m.observe();
  }
  for (int i = 0; i < 6000; ++i) {
    if (rng.chance(0.5)) m.popTop(); else m.popBottom();
    if (rng.chance(0.4)) m.push(Item{(int)rng.below(1 << 30), id++});
    m.observe();
  }
  m.conservation();
  maximum("heap_size", (double)n);
  count("huge_sequences");
  sig(comb(0x4B, n));
}

// Millions of items: filled, then drained from both ends against the sorted list of the same keys.
static void giantDrain(Rng& rng) {
  size_t n = (size_t)(ctx().thorough ? rng.range(5000000, 12000000) : rng.range(2150000, 2700000));
  int kind = (int)rng.below(3);
  std::vector<int> keys(n);
  for (size_t i = 0; i < n; ++i) keys[i] = kind == 0 ? (int)rng.below(1u << 31) : kind == 1 ? (i % 2 ? (int)i : -(int)i) : (int)rng.below(5000);
  rofl::MinMaxHeap<int> h;
  op("push");
  for (int k : keys) h.push(k);
  CHECK(h.size() == n, "size", "size() ", h.size(), " after ", n, " insertions");
  std::sort(keys.begin(), keys.end());
  double bias = rng.pick(std::vector<double>{0.05, 0.5, 0.95});
  size_t lo = 0, hi = n, at = 0;
  op("giant drain");
  while (lo < hi) {
    CHECK(h.top() == keys[lo] && h.bottom() == keys[hi - 1], "top", "of ", hi - lo, " items left from ", n, ": top ", h.top(), " bottom ", h.bottom(), " expected ", keys[lo], " and ", keys[hi - 1]);
    if (++at % 64 == 0 && hi - lo > 1)
      CHECK(h.nextTop() == keys[lo + 1] && h.nextBottom() == keys[hi - 2], "nextTop", "of ", hi - lo, " items left from ", n, ": next top ", h.nextTop(), " next bottom ", h.nextBottom(), " expected ", keys[lo + 1], " and ", keys[hi - 2]);
    if (rng.chance(bias)) {
      h.popTop();
      ++lo;
    } else {
      h.popBottom();
      --hi;
    }
  }
  CHECK(h.empty() && h.size() == 0, "size", "not empty after removing all of ", n, " items");
  maximum("heap_size", (double)n);
  count("giant_drains");
  sig(comb(0x61, n));
}

// Other value types: std::string, double, default comparator and a greater<> heap on a deque.
template <typename V, typename Heap, typename Less>
static void scalarSequence(Rng& rng, std::function<V(Rng&)> gen, uint64_t tag) {
  Heap h;
  std::multiset<V, Less> model;
  int steps = (int)rng.range(10, 800);
  double p = rng.uni(0.4, 0.7);
  for (int s = 0; s < steps; ++s) {
    if (model.empty() || rng.chance(p)) {
      V v = gen(rng);
      op("push");
      h.push(v);
      model.insert(v);
    } else if (rng.chance(0.5)) {
      op("popTop");
      h.popTop();
      model.erase(model.begin());
    } else {
      op("popBottom");
      h.popBottom();
      model.erase(std::prev(model.end()));
    }
    CHECK(h.size() == model.size(), "size", "size() ", h.size(), " expected ", model.size());
    if (model.empty()) continue;
    CHECK(h.top() == *model.begin(), "top", "top() ", h.top(), " expected ", *model.begin(), " at size ", model.size());
    CHECK(h.bottom() == *model.rbegin(), "bottom", "bottom() ", h.bottom(), " expected ", *model.rbegin(), " at size ", model.size());
    CHECK(h.nextTop() == (model.size() == 1 ? *model.begin() : *std::next(model.begin())), "nextTop", "nextTop() ", h.nextTop(), " at size ", model.size());
    CHECK(h.nextBottom() == (model.size() == 1 ? *model.begin() : *std::next(model.rbegin())), "nextBottom", "nextBottom() ", h.nextBottom(), " at size ", model.size());
  }
  std::multiset<V, Less> held(h.begin(), h.end());
  CHECK(held == model, "conservation", "the heap's content differs from pushed minus popped (", tag, ")");
  count("scalar_sequences");
  sig(comb(tag, rng.next()));
}

const char* vmon_property() { return "C01"; }
static const uint64_t NEX = 64;
uint64_t vmon_cases(bool thorough) { return NEX + 5 + (thorough ? 60000 : 1500); }
void vmon_case(uint64_t idx, Rng& rng) {
  require("push", 1000);
  require("popTop", 1000);
  require("popBottom", 1000);
  if (idx < NEX) {
    for (int n = 1; n <= (ctx().thorough ? EXN_T : EXN_Q); ++n) exhaustive(idx, NEX, n, ctx().thorough ? 4 : 3);
    return;
  }
  if (idx == NEX) return giantDrain(rng);
  if (idx < NEX + 5) return hugeSequence(rng);
  if (ctx().thorough && idx < NEX + 10) return giantDrain(rng);
  switch (idx % 8) {
    case 0: case 1:
      randomSequence<ByKey, rofl::MinMaxHeap<Item, ByKey>>(rng, ByKey(), 1);
      break;
    case 2:
      randomSequence<ByKeyDesc, rofl::MinMaxHeap<Item, ByKeyDesc>>(rng, ByKeyDesc(), 2);
      break;
    case 3:
      randomSequence<ByMod, rofl::MinMaxHeap<Item, ByMod>>(rng, ByMod((int)rng.range(1, 30)), 3);
      break;
    case 4:
      randomSequence<ByKey, rofl::MinMaxHeap<Item, ByKey, std::deque>>(rng, ByKey(), 4);
      break;
    case 5:
      scalarSequence<std::string, rofl::MinMaxHeap<std::string>, std::less<std::string>>(rng, [](Rng& r) { return std::string((size_t)r.below(30), (char)('a' + r.below(3))); }, 5);
      break;
    case 6:
      scalarSequence<double, rofl::MinMaxHeap<double, std::greater<double>>, std::greater<double>>(rng, [](Rng& r) { return r.chance(0.5) ? (double)r.range(-3, 3) : r.uni(-1, 1); }, 6);
      break;
    case 7:
      scalarSequence<int, rofl::MinMaxHeap<int>, std::less<int>>(rng, [](Rng& r) { return r.chance(0.1) ? (int)r.next() : (int)r.range(-8, 8); }, 7);
      break;
  }
}
