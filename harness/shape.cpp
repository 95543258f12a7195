// C09: shape and cost.  After every operation of adversarial histories the nodes
// held are counted (through the allocator), each leaf's fill is measured (through
// the addresses of its elements), and the number of comparator calls of every
// find/insert/erase is compared with the bound the shape implies.  The flavour
// "steps" (compiled with block coverage) counts the basic blocks each operation
// executes, so that walks and searches that compare no keys count as well.
#ifndef PART
#define PART 0
#endif
#if PART != 0
#define PBT_NO_MAIN
#endif
#include <algorithm>
#include <cmath>
#include <fast_containers/btree.hpp>
#include <map>

#include "codecs.hpp"
#include "pbt.hpp"

using namespace kressler::fast_containers;
using pbt::Case;
using pbt::Op;
using pbt::Rng;
using pbt::Stats;

#ifdef STEPS
extern uint64_t g_steps;  // basic blocks executed
#if PART == 0
uint64_t g_steps = 0;
extern "C" __attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc() { ++g_steps; }
#endif
#endif

namespace {
std::map<uintptr_t, size_t> g_blocks;  // live node blocks
uint64_t g_cmp = 0;                    // comparator calls

template <class T>
struct LedgerAlloc {
  using value_type = T;
  LedgerAlloc() = default;
  template <class U>
  LedgerAlloc(const LedgerAlloc<U>&) {}
  T* allocate(size_t n) {
    T* p = std::allocator<T>().allocate(n);
    g_blocks[reinterpret_cast<uintptr_t>(p)] = n * sizeof(T);
    return p;
  }
  void deallocate(T* p, size_t n) {
    g_blocks.erase(reinterpret_cast<uintptr_t>(p));
    std::allocator<T>().deallocate(p, n);
  }
  template <class U>
  bool operator==(const LedgerAlloc<U>&) const { return true; }
};
template <class K>
struct CntLess {
  bool operator()(const K& a, const K& b) const {
    ++g_cmp;
    return a < b;
  }
};
template <class K>
struct CntGreater {
  bool operator()(const K& a, const K& b) const {
    ++g_cmp;
    return b < a;
  }
};

enum Op_ { Insert, EraseKey, EraseAt, RankRange, Clear, BulkInsert, BulkErase, EraseIf, PopEnds, DrainLeaves, Churn, Find, EraseAll, Split, kN };
const char* names[] = {"insert", "erase_key", "erase_at", "rank_range", "clear", "bulk_insert", "bulk_erase", "erase_if",
                       "pop_ends", "drain_leaves", "churn", "find", "erase_all", "stuff_one_leaf"};

template <class Tree>
struct Tree_is_linear;
template <class K, class V, size_t L, size_t I, class C, SearchMode S, class A>
struct Tree_is_linear<btree<K, V, L, I, C, S, A>> {
  static constexpr bool value = S != SearchMode::Binary;
};

std::map<std::string, double> g_step_max;
double g_max_rg = 0, g_max_find = 0, g_max_ins = 0, g_max_er = 0;

template <class Tree, size_t L, size_t I, bool Counted>
struct Sess {
  using K = typename Tree::key_type;
  using V = typename Tree::mapped_type;
  Tree t;
  std::set<int64_t> m;
  Stats& st;
  int64_t u;
  size_t peak = 0;
  uint64_t merges = 0;
  bool desc;
  Sess(const Case& c, Stats& s, bool d) : st(s), u(std::max<int64_t>(1, c.param(0, 100))), desc(d) {}
  int64_t norm(int64_t x) const { return ((x % u) + u) % u; }
  static K key(int64_t id) {
    if constexpr (std::is_same_v<K, std::string>) {
      char b[24];
      snprintf(b, sizeof b, "%08lld", static_cast<long long>(id));
      return b;
    } else {
      return static_cast<K>(id);
    }
  }
  static V val(int64_t id) {
    if constexpr (std::is_arithmetic_v<V>) return static_cast<V>(id);
    else return V{};
  }

  static constexpr size_t minl = L / 4, mini = I / 4;
  // Most leaves / levels / internal nodes a tree of n elements may have.
  static size_t max_leaves(size_t n) { return std::max<size_t>(1, n / minl); }
  static size_t max_internal(size_t leaves, size_t& levels) {
    size_t sum = 0, level = leaves;
    levels = 1;
    while (level > 1) {
      level = std::max<size_t>(1, level / mini);
      sum += level;
      ++levels;
    }
    return sum;
  }
  static size_t levels_of(size_t n) {
    size_t lv;
    max_internal(max_leaves(std::max<size_t>(n, 1)), lv);
    return lv;
  }
  static double node_cost() {
    // comparator calls to search one node: linear up to N+1, binary log2(N)+1
    double n = static_cast<double>(std::max(L, I));
    return Tree_linear ? n + 2 : std::log2(n) + 3;
  }
  static constexpr bool Tree_linear = Tree_is_linear<Tree>::value;

  std::vector<size_t> leaf_fill() {
    std::vector<size_t> fill;
    uintptr_t lo = 0, hi = 0;
    for (auto it = t.begin(); it != t.end(); ++it) {
      uintptr_t a = reinterpret_cast<uintptr_t>(&it->second);
      if (a < lo || a >= hi) {
        auto b = g_blocks.upper_bound(a);
        CHECK_MSG(b != g_blocks.begin(), "element outside every node");
        --b;
        CHECK_MSG(a < b->first + b->second, "element outside every node");
        lo = b->first;
        hi = lo + b->second;
        fill.push_back(0);
      }
      ++fill.back();
    }
    return fill;
  }

  void shape(bool walk) {
    CHECK_MSG(t.size() == m.size(), "size " << t.size() << " expected " << m.size());
    size_t n = m.size(), lv;
    if (n == 0) {
      CHECK_MSG(g_blocks.size() <= 1, "an empty tree holds " << g_blocks.size() << " nodes");
      return;
    }
    size_t ml = max_leaves(n);
    size_t mi = max_internal(ml, lv);
    CHECK_MSG(g_blocks.size() <= ml + mi, n << " elements held in " << g_blocks.size() << " nodes, at most " << ml + mi << " if all are a quarter full");
    if (!walk) return;
    auto f = leaf_fill();
    size_t total = 0;
    for (size_t x : f) {
      total += x;
      CHECK_MSG(x <= L, "leaf holds " << x << " elements of at most " << L);
      if (f.size() > 1) CHECK_MSG(x >= minl, "a leaf holds only " << x << " of " << L << " elements (" << n << " elements in " << f.size() << " leaves)");
    }
    CHECK(total == n);
    size_t internal = g_blocks.size() - f.size();
    size_t bi = max_internal(f.size(), lv);
    CHECK_MSG(internal <= bi, internal << " internal nodes above " << f.size() << " leaves, at most " << bi << " if all are a quarter full");
    CHECK_MSG(f.size() == 1 || internal >= 1, "several leaves without internal node");
    st.hit("shape_walks");
#ifdef STEPS
    uint64_t x = 0;
    constant("begin", [&] { x += t.begin() == t.end(); });
    constant("rbegin", [&] { x += t.rbegin() == t.rend(); });
    constant("size", [&] { x += t.size() + t.empty(); });
    constant("the last element", [&] { auto e = t.end(); --e; x += static_cast<uint64_t>(e == t.begin()); });
    uint64_t was = g_steps, mid = 0;
    for (auto it = t.begin(); it != t.end(); ++it) {
      uint64_t b = g_steps;
      auto nx = it;
      ++nx;
      mid = std::max(mid, g_steps - b);
    }
    steps("one step of a walk", static_cast<double>(mid), 400, 1);
    steps("a walk", static_cast<double>(g_steps - was), 400.0 * static_cast<double>(n) + 400, 1);
    constant("swap", [&] { Tree o; t.swap(o); t.swap(o); });
    constant("move", [&] { Tree o(std::move(t)); t = std::move(o); });
    if (x == ~uint64_t{0}) st.hit("never");
#endif
  }

  // Basic blocks that moving one element or searching past it may take.
  static constexpr double kStepCost = std::is_trivially_copyable_v<K> && std::is_trivially_copyable_v<V> ? 4 : 16;
#ifdef STEPS
  static double step_unit(size_t n) { return static_cast<double>(levels_of(n)) * static_cast<double>(std::max(L, I) + 8) * kStepCost; }
  // An operation that is documented as constant: it may not depend on the size at all.
  template <class F>
  static void constant(const char* what, F&& f) {
    uint64_t was = g_steps;
    f();
    uint64_t d = g_steps - was;
    steps(what, static_cast<double>(d), 400, 1);
  }
  static void steps(const char* what, double d, double bound, double factor) {
    double& mx = g_step_max[what];
    mx = std::max(mx, d * factor / bound);
    CHECK_MSG(d <= bound, what << " took " << d << " steps, bound " << bound);
  }
#endif
  template <class F>
  void cost(const char* what, double factor, size_t n, F&& f, double& mx) {
    g_cmp = 0;
#ifdef STEPS
    uint64_t was = g_steps;
    f();
    steps(what, static_cast<double>(g_steps - was), factor / 2 * step_unit(std::max<size_t>(n, 1)) + 400, factor);
#else
    f();
#endif
    if constexpr (Counted) {
      double unit = static_cast<double>(levels_of(n)) * node_cost();
      double c = static_cast<double>(g_cmp);
      mx = std::max(mx, c / unit);
      CHECK_MSG(c <= factor * unit + 16, what << " made " << g_cmp << " comparisons in a tree of " << n << " elements (bound " << factor * unit + 16 << ")");
    }
  }

  void ins(int64_t id) {
    id = norm(id);
    bool was = !m.insert(id).second, r = false;
    cost("insert", 3, m.size(), [&] { r = t.insert(key(id), val(id)).second; }, g_max_ins);
    CHECK(r == !was);
  }
  void era(int64_t id) {
    id = norm(id);
    size_t was = m.erase(id), r = 0;
    cost("erase(key)", 4, m.size() + 1, [&] { r = t.erase(key(id)); }, g_max_er);
    CHECK(r == was);
  }
  void era_it(int64_t id) {
    auto it = t.find(key(id));
    CHECK(it != t.end());
    m.erase(id);
    cost("erase(iterator)", 4, m.size() + 1, [&] { t.erase(it); }, g_max_er);
  }
  int64_t pick(int64_t a) const {
    auto i = m.lower_bound(norm(a));
    return i == m.end() ? *m.rbegin() : *i;
  }

  void apply(const Op& o) {
    switch (o.code) {
      case Insert: ins(o.a); break;
      case EraseKey: era(o.a); break;
      case EraseAt: if (!m.empty()) era_it(pick(o.a)); break;
      case RankRange: {
        size_t n = m.size(), f = n ? static_cast<size_t>(o.a) % (n + 1) : 0, k = std::min(static_cast<size_t>(o.b), n - f);
        auto a = std::next(m.begin(), static_cast<int64_t>(f)), b = std::next(a, static_cast<int64_t>(k));
        if (desc) {  // the tree's order is the reverse: erase the same ids
          auto ia = b == m.begin() ? t.end() : t.end();
          (void)ia;
          if (k == 0) break;
          auto first = t.find(key(*std::prev(b))), last = f == 0 ? t.end() : t.find(key(*std::prev(a)));
          cost("erase(range)", 4.0 * static_cast<double>(k + 1), n, [&] { t.erase(first, last); }, g_max_rg);
        } else {
          auto first = a == m.end() ? t.end() : t.find(key(*a)), last = b == m.end() ? t.end() : t.find(key(*b));
          cost("erase(range)", 4.0 * static_cast<double>(k + 1), n, [&] { t.erase(first, last); }, g_max_rg);
        }
        m.erase(a, b);
        break;
      }
      case Clear: t.clear(); m.clear(); break;
      case BulkInsert:
        for (int64_t i = 0; i < o.b; ++i) ins(o.a + i * (o.c ? o.c : 1));
        break;
      case BulkErase:
        for (int64_t i = 0; i < o.b; ++i) {
          era(o.a + i * (o.c ? o.c : 1));
          if ((i & 63) == 63) shape(false);
        }
        break;
      case EraseIf: {
        std::vector<int64_t> v(m.begin(), m.end());
        if (o.a & 1) std::reverse(v.begin(), v.end());
        int64_t p = std::max<int64_t>(2, o.b), q = o.c;
        for (size_t i = 0; i < v.size(); ++i) {
          if (static_cast<int64_t>(i) % p < q) {
            if (o.a & 2) era_it(v[i]);
            else era(v[i]);
            if ((i & 63) == 63) shape(false);
          }
        }
        break;
      }
      case PopEnds:
        for (int64_t i = 0; i < o.b && !m.empty(); ++i) {
          if (o.a == 0 || (o.a == 2 && (i & 1))) era_it(*m.begin());
          else era_it(*m.rbegin());
        }
        break;
      case DrainLeaves: {
        // Take every leaf (or every o.b-th) down to o.a elements above nothing,
        // from the front, the back or the middle of the leaf.
        auto f = leaf_fill();
        std::vector<int64_t> ids;
        if (desc) ids.assign(m.rbegin(), m.rend());
        else ids.assign(m.begin(), m.end());
        size_t pos = 0;
        std::vector<int64_t> kill;
        for (size_t i = 0; i < f.size(); ++i) {
          size_t keep = static_cast<size_t>(o.a) % (L / 2 + 1);
          if (static_cast<int64_t>(i) % std::max<int64_t>(1, o.b) == 0 && f[i] > keep) {
            size_t rm = f[i] - keep, off = (o.c % 3 == 0) ? 0 : (o.c % 3 == 1) ? f[i] - rm : (f[i] - rm) / 2;
            for (size_t j = 0; j < rm; ++j) kill.push_back(ids[pos + off + j]);
          }
          pos += f[i];
        }
        if (o.c >= 3) std::reverse(kill.begin(), kill.end());
        size_t cnt = 0;
        for (int64_t id : kill) {
          era(id);
          if ((++cnt & 31) == 0) shape(false);
        }
        if (!kill.empty()) st.hit("drained_leaves");
        break;
      }
      case Churn:  // hover around one spot
        for (int64_t i = 0; i < o.b; ++i) {
          if ((i / std::max<int64_t>(1, o.c)) & 1) era(o.a + i % std::max<int64_t>(1, o.c));
          else ins(o.a + i % std::max<int64_t>(1, o.c));
          if ((i & 15) == 15) shape(false);
        }
        break;
      case Split:
        for (int64_t i = 0; i < o.b; ++i) ins(o.a + i);
        break;
      case Find:
        for (int64_t i = 0; i < 6; ++i) {
          K k = key(norm(o.a + i * o.b));
          bool in = m.count(norm(o.a + i * o.b));
          cost("find", 2, std::max<size_t>(1, m.size()), [&] { CHECK((t.find(k) != t.end()) == in); }, g_max_find);
          cost("lower_bound", 2, std::max<size_t>(1, m.size()), [&] { t.lower_bound(k); }, g_max_find);
          cost("upper_bound", 2.5, std::max<size_t>(1, m.size()), [&] { t.upper_bound(k); }, g_max_find);
          cost("contains", 2, std::max<size_t>(1, m.size()), [&] { CHECK(t.contains(k) == in); }, g_max_find);
        }
        break;
      case EraseAll:
        while (!m.empty()) {
          int64_t id = (o.a == 0) ? *m.begin() : (o.a == 1) ? *m.rbegin() : pick(o.b + static_cast<int64_t>(m.size()) * 7919);
          era(id);
          if ((m.size() & 63) == 0) shape(false);
        }
        break;
      default: break;
    }
  }
  void run(const Case& c) {
    size_t before = 0;
    for (auto& o : c.ops) {
      Op q = o;
      q.code = ((o.code % kN) + kN) % kN;
      before = g_blocks.size();
      apply(q);
      if (g_blocks.size() < before) ++merges;
      peak = std::max(peak, m.size());
      shape(true);
      st.hit(names[q.code]);
      st.mixin(m.size() * 31 + g_blocks.size());
    }
    st.nontrivial = peak > L * 2 && merges > 0;
    if (peak > L * I) st.hit("case_three_levels_or_more");
  }
};

template <class K, class V, size_t L, size_t I, class C, SearchMode S, bool Counted>
void reg(const char* name, bool desc, unsigned w = 1) {
  using Tree = btree<K, V, L, I, C, S, LedgerAlloc<std::pair<K, V>>>;
  pbt::configs().push_back(
      {name,
       [](Rng& r) {
         Case c;
         const int64_t l = L, i = I;
         const int64_t t[] = {l * 3, l * i / 2, l * i * 2, l * i * i / 3, l * i * i};
         int64_t u = t[r.below(5)];
         if (u > 5000) u = r.chance(1, 4) ? std::min<int64_t>(u, 20000) : r.range(500, 5000);
#ifdef STEPS
         const bool big = r.chance(1, 40);  // only a large tree tells a walk over all leaves from a descent
         if (big) u = r.range(10000, 60000);
#else
         const bool big = false;
#endif
         if constexpr (sizeof(K) == 1) u = 256;
         c.params = {u};
         auto k = [&] { return static_cast<int64_t>(r.below(static_cast<uint64_t>(u))); };
         static const int64_t strides[] = {1, 1, -1, 2, 3, 7, 101};
         c.ops.push_back({BulkInsert, k(), r.chance(1, 2) ? u : r.range(1, u), strides[r.below(7)]});
         int64_t n = big ? r.range(2, 8) : r.size(2, 40);
         for (int64_t j = 0; j < n; ++j) {
           switch (r.below(16)) {
             case 0: c.ops.push_back({BulkInsert, k(), r.size(1, u), strides[r.below(7)]}); break;
             case 1: c.ops.push_back({BulkErase, k(), r.size(1, u), strides[r.below(7)]}); break;
             case 2: case 3: c.ops.push_back({EraseIf, r.range(0, 3), r.range(2, 2 * l), r.range(1, 2 * l - 1)}); break;
             case 4: c.ops.push_back({RankRange, k(), r.size(0, u), 0}); break;
             case 5: c.ops.push_back({PopEnds, r.range(0, 2), r.size(1, u / 2 + 1), 0}); break;
             case 6: case 7: case 8: c.ops.push_back({DrainLeaves, r.range(0, l / 2), r.chance(1, 2) ? 1 : r.range(2, 6), r.range(0, 5)}); break;
             case 9: c.ops.push_back({Churn, k(), r.range(1, 120), r.range(1, l)}); break;
             case 10: c.ops.push_back({Find, k(), r.range(1, 50), 0}); break;
             case 11: c.ops.push_back({r.chance(1, 3) ? (r.chance(1, 2) ? Clear : EraseAll) : Find, r.range(0, 2), k(), 0}); break;
             case 12: c.ops.push_back({Split, k(), r.range(1, l * 3), 0}); break;
             case 13: c.ops.push_back({EraseAt, k(), 0, 0}); break;
             case 14: c.ops.push_back({EraseKey, k(), 0, 0}); break;
             default: c.ops.push_back({Insert, k(), 0, 0}); break;
           }
         }
         return c;
       },
       [desc](const Case& c, Stats& s) {
         g_blocks.clear();
         {
           Sess<Tree, L, I, Counted> ss(c, s, desc);
           ss.run(c);
         }
         CHECK_MSG(g_blocks.empty(), g_blocks.size() << " nodes left after destruction");
         if (getenv("SHAPE_DEBUG"))
          for (auto& [k, v] : g_step_max) fprintf(stderr, "STEP %s %s %.3f\n", c.cfg.c_str(), k.c_str(), v);
        if (getenv("SHAPE_DEBUG")) fprintf(stderr, "%s find %.2f ins %.2f erase %.2f\n", c.cfg.c_str(), g_max_find, g_max_ins, g_max_er);
       },
       w});
}
constexpr auto Bin = SearchMode::Binary;
constexpr auto Lin = SearchMode::Linear;
constexpr auto Simd = SearchMode::SIMD;
struct R {
  R() {
#if PART == 0
    reg<int64_t, int, 8, 8, CntLess<int64_t>, Bin, true>("i64_8_8_bin", false, 3);
    reg<int64_t, int, 9, 10, CntGreater<int64_t>, Lin, true>("i64_9_10_greater_lin", true, 2);
#elif PART == 1
    reg<std::string, std::string, 16, 8, CntLess<std::string>, Bin, true>("str_16_8_bin", false, 1);
    reg<int, int, 8, 24, std::less<int>, Simd, false>("i32_8_24_simd", false, 2);
#elif PART == 2
    reg<int64_t, codec::Blob<40>, 64, 16, CntLess<int64_t>, Lin, true>("i64_64_16_lin", false, 1);
    reg<int, int, 23, 13, CntGreater<int>, Bin, true>("i32_23_13_greater_bin", true, 2);
    reg<int, int, 10, 11, CntLess<int>, Bin, true>("i32_10_11_bin", false, 2);
#endif
  }
} r_;
}  // namespace
