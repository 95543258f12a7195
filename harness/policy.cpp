// C17: policy allocators route leaf nodes, internal nodes and plain values to
// their pools; trees of several types share pools.  Oracle: a twin tree per tree
// whose allocator counts leaf and internal nodes itself, std::map for contents,
// and the mapping each address lies in.
#ifndef PART
#define PART 0
#endif
#if PART != 0
#define PBT_NO_MAIN
#endif
#define ALLOCATOR_STATS
#include <fast_containers/btree.hpp>
#include <fast_containers/hugepage_allocator.hpp>
#include <fast_containers/policy_based_hugepage_allocator.hpp>

#include <map>
#include <memory>
#include <optional>
#include <set>

#include "codecs.hpp"
#include "pbt.hpp"
#include "vmem.hpp"

namespace {
using namespace kressler::fast_containers;
using codec::KeyCodec;
using codec::show;
using codec::ValCodec;
using pbt::Case;
using pbt::Op;
using pbt::Rng;
using pbt::Stats;
using std::greater;
using std::less;
using std::string;

// ---- pools and policies ------------------------------------------------------
constexpr int kPools = 3;
constexpr size_t kGrow[kPools] = {5 * 4096, 7 * 4096, 11 * 4096}, kInit[kPools] = {4 * 4096, 6 * 4096, 10 * 4096};
struct Pair {
  int leaf, internal;
};
constexpr Pair kPairs[] = {{0, 1}, {0, 2}, {2, 1}, {1, 0}, {2, 2}, {0, 1}};
constexpr int kN = 6;

struct Count {
  int64_t leaf_bytes = 0, internal_bytes = 0;
  uint64_t leaf_allocs = 0, internal_allocs = 0, leaf_frees = 0, internal_frees = 0;
};
inline Count g_count[kN];

// Is T an internal node?  Decided from what the tree does with the type, not by
// the library's own trait: leaves are the nodes that store values.
template <class T>
concept HasKids = requires(T& t) { t.children_are_leaves; };
template <class T>
concept HasNext = requires(T& t) { t.next_leaf; };
using NodeTree = btree<int64_t, int32_t, 8, 8>;
// False if the members have other names in this tree: then the trait has to do.
constexpr bool kNamesKnown = HasKids<NodeTree::internal_node> && HasNext<NodeTree::leaf_node>;

template <class T>
struct TwinAlloc {
  using value_type = T;
  using is_always_equal = std::false_type;
  using propagate_on_container_move_assignment = std::true_type;
  using propagate_on_container_swap = std::true_type;
  int pair;  // canonical: pairs with the same pools compare equal
  int slot;
  explicit TwinAlloc(int p) : pair(p == 5 ? 0 : p), slot(p) {}
  template <class U>
  TwinAlloc(const TwinAlloc<U>& o) : pair(o.pair), slot(o.slot) {}
  static constexpr bool internal = kNamesKnown ? HasKids<T> && !HasNext<T> : has_children_are_leaves_v<T>;
  T* allocate(size_t n) {
    Count& c = g_count[pair];
    (internal ? c.internal_bytes : c.leaf_bytes) += static_cast<int64_t>(n * sizeof(T));
    (internal ? c.internal_allocs : c.leaf_allocs)++;
    return static_cast<T*>(::operator new(n * sizeof(T), std::align_val_t(64)));
  }
  void deallocate(T* p, size_t n) {
    Count& c = g_count[pair];
    (internal ? c.internal_bytes : c.leaf_bytes) -= static_cast<int64_t>(n * sizeof(T));
    (internal ? c.internal_frees : c.leaf_frees)++;
    ::operator delete(p, std::align_val_t(64));
  }
  template <class U>
  bool operator==(const TwinAlloc<U>& o) const { return pair == o.pair; }
};
template <class T>
using PA = PolicyBasedHugePageAllocator<T, TwoPoolPolicy>;

struct Env {
  std::shared_ptr<HugePagePool> pool[kPools];
  uint64_t direct_allocs[kPools] = {}, direct_frees[kPools] = {};
  int64_t direct_bytes[kPools] = {};
  // The low bit of how: hugepages for pool 1; the next: the first two pools come from the factory function.
  Env(int64_t how) {
    vmem::begin();
    for (auto& c : g_count) c = Count();
    const bool huge = how & 1, made = how & 2;
    if (made) {
      factory(static_cast<size_t>(how >> 2) & 1023, huge);
      auto a = make_two_pool_allocator<int64_t, int64_t>(kInit[0], kInit[1], false, kGrow[0], kGrow[1]);
      pool[0] = a.get_policy().leaf_pool_;
      pool[1] = a.get_policy().internal_pool_;
    }
    for (int i = made ? 2 : 0; i < kPools; ++i) pool[i] = std::make_shared<HugePagePool>(kInit[i], huge && i == 1, kGrow[i]);
  }
  // Each pool has the sizes that were given for it.
  static void factory(size_t x, bool huge) {
    const size_t in[2] = {4096 * (x % 32 + 1), 4096 * (x / 32 % 32 + 40)}, gr[2] = {in[1] + 4096 * 33, in[0] + 4096 * 90};
    auto a = make_two_pool_allocator<string, int64_t>(in[0], in[1], huge, gr[0], gr[1]);
    std::shared_ptr<HugePagePool> q[2] = {a.get_policy().leaf_pool_, a.get_policy().internal_pool_};
    CHECK(q[0] && q[1] && q[0] != q[1]);
    for (int i = 0; i < 2; ++i) {
      const char* n = i ? "internal" : "leaf";
      CHECK_MSG(q[i]->using_hugepages() == huge, n << " pool made with hugepages " << huge << " has " << q[i]->using_hugepages());
      auto mapped = [&](size_t bytes) {
        const void* p = q[i]->allocate(bytes, 8);
        auto* r = vmem::find(reinterpret_cast<uintptr_t>(p), bytes);
        CHECK_MSG(r && r->huge == huge, n << " pool: block outside its mappings");
        return r->len;
      };
      size_t unit = huge ? vmem::kHuge : vmem::kPage, first = mapped(in[i]);
      CHECK_MSG(first == vmem::up(in[i], unit), n << " pool made with " << in[i] << " bytes maps " << first);
      if (first > in[i]) mapped(first - in[i]);
      size_t next = mapped(64);
      CHECK_MSG(next == vmem::up(gr[i], unit), n << " pool made to grow by " << gr[i] << " bytes grows by " << next);
    }
  }
  TwoPoolPolicy policy(int p) { return TwoPoolPolicy(pool[kPairs[p].leaf], pool[kPairs[p].internal]); }
  // The pool a block belongs to, from the size of its mapping.
  static int owner(const void* q, size_t n) {
    auto* r = vmem::find(reinterpret_cast<uintptr_t>(q), n);
    if (!r) return -1;
    if (r->huge) return 1;
    for (int i = 0; i < kPools; ++i)
      if (r->req == kGrow[i] || r->req == kInit[i]) return i;
    return -2;
  }
  void check_usage() {
    for (int i = 0; i < kPools; ++i) {
      int64_t bytes = direct_bytes[i];
      uint64_t al = direct_allocs[i], fr = direct_frees[i];
      for (int p = 0; p < 5; ++p) {
        if (kPairs[p].leaf == i) bytes += g_count[p].leaf_bytes, al += g_count[p].leaf_allocs, fr += g_count[p].leaf_frees;
        if (kPairs[p].internal == i) bytes += g_count[p].internal_bytes, al += g_count[p].internal_allocs, fr += g_count[p].internal_frees;
      }
      CHECK_MSG(static_cast<int64_t>(pool[i]->get_current_usage()) == bytes,
                "pool " << i << " has " << static_cast<int64_t>(pool[i]->get_current_usage()) << " bytes in use, but its users hold " << bytes);
      CHECK_MSG(pool[i]->get_allocations() == al, "pool " << i << " served " << pool[i]->get_allocations() << " requests instead of " << al);
      CHECK_MSG(pool[i]->get_deallocations() == fr, "pool " << i << " took back " << pool[i]->get_deallocations() << " blocks instead of " << fr);
    }
  }
};

// ---- trees of several types behind one interface ---------------------------
struct ITree {
  int pair = 0;
  virtual ~ITree() = default;
  virtual bool alive() const = 0;
  virtual void create(Env&, int pair) = 0;
  virtual void drop() = 0;
  virtual void insert(int64_t from, int64_t step, int64_t n) = 0;
  virtual void erase(int64_t from, int64_t step, int64_t n) = 0;
  virtual void erase_range(int64_t a, int64_t b) = 0;
  virtual void clear() = 0;
  virtual void copy_ctor(ITree&) = 0;
  virtual void move_ctor(ITree&) = 0;
  virtual void copy_assign(ITree&) = 0;
  virtual void move_assign(ITree&) = 0;
  virtual void swap(ITree&) = 0;
  virtual void verify(Env&, bool deep) = 0;
  virtual size_t size() const = 0;
  virtual bool alloc_equals(const ITree&) const = 0;
};
inline int canon(int p) { return p == 5 ? 0 : p; }

template <class K, class V, size_t L, size_t I, class C, SearchMode S>
struct Box : ITree {
  using Tree = btree<K, V, L, I, C, S, PA<std::pair<K, V>>>;
  using Twin = btree<K, V, L, I, C, S, TwinAlloc<std::pair<K, V>>>;
  std::unique_ptr<Tree> t;
  std::unique_ptr<Twin> w;
  std::map<K, V, C> m;
  int mode;
  int64_t u;
  Box(int md, int64_t universe) : mode(md), u(std::min<int64_t>(universe, KeyCodec<K>::universe)) {}
  K key(int64_t i) const { return KeyCodec<K>::make(((i % u) + u) % u, mode); }
  static V val(int64_t i) { return ValCodec<V>::make(i); }
  Box& as(ITree& o) { return static_cast<Box&>(o); }
  bool alive() const override { return t != nullptr; }
  size_t size() const override { return m.size(); }
  void create(Env& e, int p) override {
    drop();
    pair = p;
    t = std::make_unique<Tree>(PA<std::pair<K, V>>(e.policy(p)));
    w = std::make_unique<Twin>(TwinAlloc<std::pair<K, V>>(p));
  }
  void drop() override {
    t.reset();
    w.reset();
    m.clear();
  }
  void insert(int64_t from, int64_t step, int64_t n) override {
    for (int64_t i = 0; i < n; ++i) {
      K k = key(from + i * step);
      V v = val(from * 3 + i);
      bool a = m.emplace(k, v).second;
      CHECK(t->insert(k, v).second == a);
      w->insert(k, v);
    }
  }
  void erase(int64_t from, int64_t step, int64_t n) override {
    for (int64_t i = 0; i < n; ++i) {
      K k = key(from + i * step);
      size_t a = m.erase(k);
      CHECK(t->erase(k) == a);
      w->erase(k);
    }
  }
  void erase_range(int64_t x, int64_t y) override {
    K a = key(x), b = key(y);
    C c;
    if (c(b, a)) std::swap(a, b);
    t->erase(t->lower_bound(a), t->upper_bound(b));
    w->erase(w->lower_bound(a), w->upper_bound(b));
    m.erase(m.lower_bound(a), m.upper_bound(b));
  }
  void clear() override {
    t->clear();
    w->clear();
    m.clear();
  }
  void copy_ctor(ITree& x) override {
    Box& o = as(x);
    drop();
    t = std::make_unique<Tree>(*o.t);
    w = std::make_unique<Twin>(*o.w);
    m = o.m;
    pair = o.pair;
  }
  void move_ctor(ITree& x) override {
    Box& o = as(x);
    drop();
    t = std::make_unique<Tree>(std::move(*o.t));
    w = std::make_unique<Twin>(std::move(*o.w));
    m = std::move(o.m);
    o.m.clear();
    pair = o.pair;
  }
  void copy_assign(ITree& x) override {
    Box& o = as(x);
    *t = *o.t;
    *w = *o.w;
    m = o.m;
  }
  void move_assign(ITree& x) override {
    Box& o = as(x);
    *t = std::move(*o.t);
    *w = std::move(*o.w);
    m = std::move(o.m);
    o.m.clear();
    pair = o.pair;
  }
  void swap(ITree& x) override {
    Box& o = as(x);
    t->swap(*o.t);
    w->swap(*o.w);
    m.swap(o.m);
    std::swap(pair, o.pair);
  }
  bool alloc_equals(const ITree& x) const override { return t->get_allocator() == static_cast<const Box&>(x).t->get_allocator(); }
  void verify(Env& e, bool deep) override {
    if (!t) return;
    CHECK_MSG(t->size() == m.size(), "size " << t->size() << ", expected " << m.size());
    auto pol = t->get_allocator().get_policy();
    CHECK_MSG(pol.leaf_pool_ == e.pool[kPairs[pair].leaf] && pol.internal_pool_ == e.pool[kPairs[pair].internal],
              "the tree's allocator does not refer to the pools it was given");
    size_t n = 0;
    auto it = t->begin();
    for (auto& [k, v] : m) {
      CHECK_MSG(it != t->end(), "iteration ends early");
      CHECK_MSG(!t->key_comp()(it->first, k) && !t->key_comp()(k, it->first) && it->second == v, "element " << n << " (" << show(k) << ") disturbed");
      if (deep || n % 16 == 0) {
        int own = Env::owner(&it->second, sizeof(V));
        CHECK_MSG(own == kPairs[pair].leaf, "an element lies in pool " << own << " instead of leaf pool " << kPairs[pair].leaf);
      }
      ++it;
      ++n;
    }
    CHECK(it == t->end());
  }
};

// Allocated directly from the shared pools, as raw memory: nodes of a tree with something added, and stand-ins that only have the
// member the policy recognises a node by.
struct LeafLike : NodeTree::leaf_node {
  char x[20];
};
struct ConstLeafLike {
  const LeafLike* const next_leaf = nullptr;
  int y = 0;
};
struct InnerLike : NodeTree::internal_node {
  char x[20];
};
struct BareInner {
  bool children_are_leaves;
  char x[60];
};
// False if the member has another name in this tree: then the stand-ins are plain types.
constexpr bool kStandInsAreNodes = has_children_are_leaves_v<BareInner> || !has_children_are_leaves_v<NodeTree::internal_node>;
struct alignas(128) WideInner {
  const int children_are_leaves = 0;
  char x[60];
};
struct PlainLike {
  char x[24];
};
struct alignas(256) WidePlain {
  int next, leaf, children;
};

enum Op_ { Create, Destroy, Insert, Erase, EraseRange, Clear, CopyCtor, MoveCtor, CopyAssign, MoveAssign, Swap, Direct, DirectFree, Equality, BadCount, Rebound, kOps };
inline const char* names[] = {"create", "destroy", "insert", "erase", "erase_range", "clear", "copy_ctor", "move_ctor", "copy_assign",
                              "move_assign", "swap", "direct_alloc", "direct_free", "equality", "bad_count", "rebound"};

struct Session {
  Env e;
  std::vector<std::unique_ptr<ITree>> s;
  Stats& st;
  struct DBlock {
    void* p;
    int kind, pair;
    size_t size;
    uint8_t seed;
  };
  std::vector<DBlock> d;
  uint64_t steps = 0, transfers = 0, shared = 0;
  uint8_t seed = 1;

  template <class B>
  void add(const Case& c) {
    for (int i = 0; i < 2; ++i) s.push_back(std::make_unique<B>(static_cast<int>(c.param(0)), std::max<int64_t>(1, c.param(1, 60))));
  }
  Session(const Case& c, Stats& x) : e(c.param(2)), st(x) {}

  // Calls f.template operator()<T>() for the direct type number k.
  template <class F>
  static void with(int k, F&& f) {
    switch (((k % 7) + 7) % 7) {
      case 0: f.template operator()<LeafLike>(); break;
      case 1: f.template operator()<InnerLike>(); break;
      case 2: f.template operator()<PlainLike>(); break;
      case 3: f.template operator()<ConstLeafLike>(); break;
      case 4: f.template operator()<WideInner>(); break;
      case 6: f.template operator()<BareInner>(); break;
      default: f.template operator()<WidePlain>(); break;
    }
  }
  static bool inner_kind(int k) {
    int t = ((k % 7) + 7) % 7;
    return t == 1 || ((t == 4 || t == 6) && kStandInsAreNodes);
  }

  void direct_alloc(int k, int p, int via) {
    with(k, [&]<class T>() {
      // rebinding in any direction keeps the routing
      PA<PlainLike> a(e.policy(p));
      PA<InnerLike> b(a);
      PA<T> al = via % 3 == 0 ? PA<T>(e.policy(p)) : via % 3 == 1 ? PA<T>(a) : PA<T>(PA<WidePlain>(b));
      T* q = al.allocate(1);
      CHECK(q != nullptr);
      int want = inner_kind(k) ? kPairs[p].internal : kPairs[p].leaf;
      int own = Env::owner(q, sizeof(T));
      CHECK_MSG(own == want, "a " << (inner_kind(k) ? "internal node" : "leaf or plain value") << " was taken from pool " << own << " instead of " << want);
      CHECK_MSG(reinterpret_cast<uintptr_t>(q) % std::max<size_t>(64, alignof(T)) == 0, "block not aligned");
      memset(static_cast<void*>(q), ++seed, sizeof(T));
      d.push_back({q, k, p, sizeof(T), seed});
      e.direct_allocs[want]++;
      e.direct_bytes[want] += static_cast<int64_t>(sizeof(T));
    });
  }
  void check_block(const DBlock& b) {
    auto* q = static_cast<const uint8_t*>(b.p);
    for (size_t i = 0; i < b.size; ++i) CHECK_MSG(q[i] == b.seed, "a block allocated directly from a shared pool was overwritten");
  }
  void direct_free(size_t i, int via) {
    DBlock b = d[i];
    check_block(b);
    d[i] = d.back();
    d.pop_back();
    with(b.kind, [&]<class T>() {
      PA<T> al = via & 1 ? PA<T>(PA<LeafLike>(e.policy(b.pair))) : PA<T>(e.policy(b.pair));
      al.deallocate(static_cast<T*>(b.p), 1);
    });
    int want = inner_kind(b.kind) ? kPairs[b.pair].internal : kPairs[b.pair].leaf;
    e.direct_frees[want]++;
    e.direct_bytes[want] -= static_cast<int64_t>(b.size);
  }
  static bool same_pools(int p, int q) { return kPairs[p].leaf == kPairs[q].leaf && kPairs[p].internal == kPairs[q].internal; }
  void equality(int p, int q, int k1, int k2) {
    with(k1, [&]<class A>() {
      with(k2, [&]<class B>() {
        PA<A> a(e.policy(p));
        PA<B> b(e.policy(q));
        bool eq = same_pools(p, q);
        auto say = [&](bool got, const char* how) {
          CHECK_MSG(got == eq, "allocators over pools (" << kPairs[p].leaf << "," << kPairs[p].internal << ") and (" << kPairs[q].leaf << "," << kPairs[q].internal
                                                         << ") compare " << (got ? "equal" : "different") << " (" << how << ")");
        };
        say(a == b, "a == b");
        say(b == a, "b == a");
        say(!(a != b), "a != b");
        PA<B> c(a);
        CHECK_MSG(c == a && a == c && !(c != a), "a rebound copy differs from the allocator it was made from");
        PA<A> back(c);
        CHECK_MSG(back == a, "rebinding there and back gives another allocator");
        say(back == b, "rebound");
        PA<A> copy(a);
        CHECK(copy == a);
        PA<A> as(e.policy((p + 1) % kN));
        if constexpr (std::is_copy_assignable_v<PA<A>>) as = copy;
        else pbt::fail("allocators that propagate on assignment cannot be assigned");
        CHECK_MSG(as == a, "assignment of allocators does not make them equal");
        say(as == b, "assigned");
      });
    });
  }
  // A HugePageAllocator and its copies share a pool; one rebound from it has a
  // pool of its own with the same settings.  Oracle: a pool for each, used alike.
  struct Twin {
    std::unique_ptr<HugePagePool> pool;
    void check(const auto& a, const char* who) const {
      auto same = [&](size_t got, size_t want, const char* what) {
        CHECK_MSG(got == want, who << " HugePageAllocator: " << what << " is " << got << ", a pool of its own would have " << want);
      };
      same(a.get_allocations(), pool->get_allocations(), "allocations");
      same(a.get_deallocations(), pool->get_deallocations(), "deallocations");
      same(a.get_growth_events(), pool->get_growth_events(), "growth events");
      same(a.get_bytes_allocated(), pool->get_bytes_allocated(), "bytes allocated");
      same(a.get_current_usage(), pool->get_current_usage(), "current usage");
      same(a.get_peak_usage(), pool->get_peak_usage(), "peak usage");
      same(a.bytes_remaining(), pool->bytes_remaining(), "bytes remaining");
      same(a.using_hugepages(), pool->using_hugepages(), "use of hugepages");
    }
  };
  void rebound(uint64_t x, int k1, int k2) {
    if (k1 == k2) k2 = (k1 + 1) % 7;
    with(k1, [&]<class A>() {
      with(k2, [&]<class B>() {
        if constexpr (!std::is_same_v<A, B>) rebound<A, B>(x);
      });
    });
  }
  template <class A, class B>
  void rebound(uint64_t x) {
    Rng r(x);
    const size_t init = r.range(1, 12) * 1024, grow = r.range(1, 12) * 1024;
    const bool huge = r.chance(1, 6);
    HugePageAllocator<A> a(init, huge, grow);
    HugePageAllocator<B> b(a);
    HugePageAllocator<A> back(b);
    HugePageAllocator<A> copy(a);
    const Twin ta{std::make_unique<HugePagePool>(init, huge, grow)}, tb{std::make_unique<HugePagePool>(init, huge, grow)},
        tk{std::make_unique<HugePagePool>(init, huge, grow)};
    struct Block {
      void* p;
      void* twin;
      int who;
      size_t size;
      uint8_t fill;
    };
    std::vector<Block> live;
    auto held = [&](const Block& y) {
      for (size_t i = 0; i < y.size; ++i) CHECK_MSG(static_cast<uint8_t*>(y.p)[i] == y.fill, "a block of a HugePageAllocator was overwritten");
    };
    auto alloc = [&]<class T>(HugePageAllocator<T>& h, const Twin& t, int who) {
      Block y{h.allocate(1), t.pool->allocate(sizeof(T), std::max<size_t>(64, alignof(T))), who, sizeof(T), ++seed};
      CHECK_MSG(y.p && reinterpret_cast<uintptr_t>(y.p) % std::max<size_t>(64, alignof(T)) == 0, "block not aligned");
      memset(y.p, y.fill, y.size);
      live.push_back(y);
    };
    auto free = [&]<class T>(HugePageAllocator<T>& h, const Twin& t, const Block& y) {
      held(y);
      h.deallocate(static_cast<T*>(y.p), 1);
      t.pool->deallocate(y.twin, sizeof(T));
    };
    auto give = [&](size_t i) {
      const Block y = live[i];
      live[i] = live.back();
      live.pop_back();
      if (y.who == 1) free(b, tb, y);
      else if (y.who == 2) free(back, tk, y);
      else if (r.chance(1, 2)) free(a, ta, y);
      else free(copy, ta, y);
    };
    auto compare = [&] {
      ta.check(a, "the first");
      ta.check(copy, "a copied");
      tb.check(b, "a rebound");
      tk.check(back, "a twice rebound");
      CHECK_MSG(a == copy && !(a != copy), "a copied HugePageAllocator differs");
      CHECK_MSG(!(a == back) && a != back, "HugePageAllocators with different pools are equal");
    };
    const int64_t n = r.range(0, 40);
    for (int64_t i = 0; i < n; ++i) {
      const int who = static_cast<int>(r.below(3));
      if (!live.empty() && r.chance(2, 5)) give(r.below(live.size()));
      else if (who == 1) alloc(b, tb, 1);
      else if (who == 2) alloc(back, tk, 2);
      else if (r.chance(1, 2)) alloc(a, ta, 0);
      else alloc(copy, ta, 0);
      compare();
    }
    while (!live.empty()) give(live.size() - 1);
    compare();
  }
  void bad_count(int k, int p, size_t n) {
    with(k, [&]<class T>() {
      PA<T> al(e.policy(p));
      bool threw = false;
      try {
        (void)al.allocate(n);
      } catch (const std::invalid_argument&) {
        threw = true;
      }
      CHECK_MSG(threw, "a request for " << n << " objects was not refused with invalid_argument");
      T* one = al.allocate(1);
      threw = false;
      try {
        al.deallocate(one, n);
      } catch (const std::invalid_argument&) {
        threw = true;
      }
      CHECK_MSG(threw, "returning " << n << " objects was not refused with invalid_argument");
      al.deallocate(one, 1);
      int want = inner_kind(k) ? kPairs[p].internal : kPairs[p].leaf;
      e.direct_allocs[want]++;
      e.direct_frees[want]++;
      HugePageAllocator<T> h(4096, false, 4096);
      threw = false;
      try {
        (void)h.allocate(n);
      } catch (const std::invalid_argument&) {
        threw = true;
      }
      CHECK_MSG(threw, "HugePageAllocator did not refuse a request for " << n << " objects");
    });
  }
  void verify(bool deep) {
    vmem::check();
    for (auto& x : s) x->verify(e, deep);
    for (auto& b : d) check_block(b);
    e.check_usage();
  }
  void run(const Case& c) {
    for (size_t i = 0; i < s.size(); i += 2) s[i]->create(e, static_cast<int>(i / 2) % kN);
    for (auto& o : c.ops) {
      int code = ((o.code % kOps) + kOps) % kOps;
      st.hit(names[code]);
      auto abs = [](int64_t v) { return v < 0 ? -v : v; };
      size_t i = static_cast<size_t>(abs(o.a)) % s.size();
      ITree &x = *s[i], &y = *s[i ^ 1];
      int p = static_cast<int>(abs(o.b) % kN);
      switch (code) {
        case Create: x.create(e, p); break;
        case Destroy: x.drop(); break;
        case Insert: if (x.alive()) x.insert(o.b, 1 + abs(o.b) % 5, std::min<int64_t>(o.c, 400)); break;
        case Erase: if (x.alive()) x.erase(o.b, 1 + abs(o.b) % 3, std::min<int64_t>(o.c, 400)); break;
        case EraseRange: if (x.alive()) x.erase_range(o.b, o.c); break;
        case Clear: if (x.alive()) x.clear(); break;
        case CopyCtor: if (y.alive()) x.copy_ctor(y), ++transfers; break;
        case MoveCtor: if (y.alive()) x.move_ctor(y), ++transfers; break;
        case CopyAssign: if (x.alive() && y.alive()) x.copy_assign(y), ++transfers; break;
        case MoveAssign: if (x.alive() && y.alive()) x.move_assign(y), ++transfers; break;
        case Swap: if (x.alive() && y.alive()) x.swap(y), ++transfers; break;
        case Direct: if (d.size() < 200) direct_alloc(static_cast<int>(abs(o.a) % 7), p, static_cast<int>(abs(o.c))); break;
        case DirectFree: if (!d.empty()) direct_free(static_cast<size_t>(abs(o.a)) % d.size(), static_cast<int>(abs(o.c))); break;
        case Equality: equality(p, static_cast<int>(abs(o.c) % kN), static_cast<int>(abs(o.a) % 7), static_cast<int>(abs(o.a) / 7 % 7)); break;
        case Rebound: rebound(static_cast<uint64_t>(o.b), static_cast<int>(abs(o.a) % 7), static_cast<int>(abs(o.c) % 7)); break;
        case BadCount: bad_count(static_cast<int>(abs(o.a) % 7), p, o.c > 1 ? static_cast<size_t>(o.c) : o.c == 1 ? ~size_t{0} : 2); break;
      }
      if (x.alive() && y.alive()) CHECK_MSG(x.alloc_equals(y) == same_pools(x.pair, y.pair), "two trees' allocators compare wrongly");
      ++steps;
      size_t total = 0, many = 0;
      for (auto& z : s) {
        total += z->size();
        many += z->size() > 8;
      }
      if (many > 1) ++shared;
      verify(total < 200 || steps % 8 == 0);
      st.mixin(total * 31 + static_cast<uint64_t>(code));
    }
    verify(true);
    while (!d.empty()) direct_free(d.size() - 1, static_cast<int>(d.size()));
    for (auto& x : s) {
      x->drop();
      verify(false);
    }
    for (auto& pl : e.pool) {
      CHECK_MSG(pl->get_current_usage() == 0, "bytes still in use after all trees are gone");
      pl.reset();
    }
    vmem::check();
    CHECK_MSG(vmem::g.live.empty(), "mappings never released");
    st.nontrivial = shared > 1 && transfers > 0;
    vmem::reset();
  }
};

Case gen(Rng& r) {
  Case c;
  static const int64_t us[] = {6, 20, 60, 250, 700};
  int64_t u = us[r.below(5)];
  c.params = {r.range(0, codec::kKeyModes - 1), u, r.range(0, 1) + (r.chance(1, 3) ? 2 + 4 * r.range(0, 1023) : 0)};
  int64_t n = r.chance(1, 3) ? r.range(4, 20) : r.range(20, 60);
  auto k = [&] { return static_cast<int64_t>(r.below(static_cast<uint64_t>(u))); };
  for (int64_t i = 0; i < n; ++i) {
    unsigned w = static_cast<unsigned>(r.below(100));
    int64_t a = r.range(0, 35);
    if (w < 8) c.ops.push_back({Create, a, r.range(0, 5), 0});
    else if (w < 11) c.ops.push_back({Destroy, a, 0, 0});
    else if (w < 36) c.ops.push_back({Insert, a, k(), r.size(1, u)});
    else if (w < 46) c.ops.push_back({Erase, a, k(), r.size(1, u)});
    else if (w < 50) c.ops.push_back({EraseRange, a, k(), k()});
    else if (w < 52) c.ops.push_back({Clear, a, 0, 0});
    else if (w < 57) c.ops.push_back({CopyCtor, a, 0, 0});
    else if (w < 62) c.ops.push_back({MoveCtor, a, 0, 0});
    else if (w < 67) c.ops.push_back({CopyAssign, a, 0, 0});
    else if (w < 72) c.ops.push_back({MoveAssign, a, 0, 0});
    else if (w < 77) c.ops.push_back({Swap, a, 0, 0});
    else if (w < 86) c.ops.push_back({Direct, a, r.range(0, 5), r.range(0, 5)});
    else if (w < 91) c.ops.push_back({DirectFree, r.range(0, 300), 0, r.range(0, 1)});
    else if (w < 97) c.ops.push_back({Equality, r.range(0, 35), r.range(0, 5), r.range(0, 5)});
    else if (w < 98) c.ops.push_back({Rebound, a, r.range(0, 1000000), r.range(0, 6)});
    else c.ops.push_back({BadCount, a, r.range(0, 5), r.range(0, 20)});
  }
  return c;
}
constexpr auto Bin = SearchMode::Binary;
constexpr auto Lin = SearchMode::Linear;
constexpr auto Simd = SearchMode::SIMD;
template <class... Bs>
void reg(const char* name) {
  pbt::configs().push_back({name, gen, [](const Case& c, Stats& st) {
                              Session s(c, st);
                              (s.add<Bs>(c), ...);
                              s.run(c);
                            },
                            1});
}
struct R {
  R() {
#if PART == 0
    reg<Box<int, int, 8, 8, less<int>, Bin>, Box<int, string, 8, 9, less<int>, Lin>, Box<uint64_t, codec::Blob<24>, 16, 8, greater<uint64_t>, Simd>>("mixed_small");
#elif PART == 1
    reg<Box<string, string, 8, 8, less<string>, Bin>, Box<int, int, 8, 8, less<int>, Lin>, Box<int64_t, codec::Blob<40>, 9, 12, less<int64_t>, Simd>>("mixed_strings");
#elif PART == 2
    reg<Box<int16_t, int64_t, 64, 32, less<int16_t>, Simd>, Box<double, codec::Blob<200>, 8, 64, less<double>, Bin>, Box<string, int, 12, 16, greater<string>, Lin>>("mixed_wide");
#elif PART == 3
    reg<Box<int, int, 96, 128, less<int>, Simd>, Box<int, int, 8, 8, less<int>, Simd>, Box<int, int, 8, 9, greater<int>, Bin>>("same_types_other_nodes");
#endif
  }
} r_;
}  // namespace
