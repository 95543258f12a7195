// C14 (WHAT=14), C15 (WHAT=15), C16 (WHAT=16), C18 (WHAT=18): histories over the
// pools and allocators.
#ifndef PART
#define PART 0
#endif
#if PART != 0
#define PBT_NO_MAIN
#endif
#ifndef WHAT
#define WHAT 14
#endif
// Odd parts of C15 are compiled with statistics disabled, in another namespace.
#if WHAT == 15 && PART % 2 == 0
#define ALLOCATOR_STATS
#elif WHAT == 15
#define fast_containers fast_containers_without_stats
#endif
#include <bit>
#include <set>
#include <fast_containers/btree.hpp>
#include <fast_containers/hugepage_allocator.hpp>
#include <fast_containers/multi_size_hugepage_allocator.hpp>
#include <fast_containers/policy_based_hugepage_allocator.hpp>

#include "pools.hpp"

#if PART == 0
int64_t g_heap_countdown = -1;
uint64_t g_heap_refused = 0;
int g_heap_armed = 0;
#if WHAT == 18
static void* heap_new(size_t n, size_t al) {
  if (g_heap_armed > 0 && vmem::busy == 0 && g_heap_countdown >= 0 && g_heap_countdown-- == 0) {
    ++g_heap_refused;
    throw std::bad_alloc();
  }
  void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(size_t n) { return heap_new(n, 16); }
void* operator new[](size_t n) { return heap_new(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return heap_new(n, static_cast<size_t>(a)); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
#endif
#endif

namespace {
using namespace kressler::fast_containers;

// The documented rounding, computed independently.
size_t class_of(size_t n) {
  if (n == 0) return 0;
  size_t step = n <= 512 ? 64 : n <= 2048 ? 256 : 0;
  if (step) return n % step ? n - n % step + step : n;
  size_t c = 4096;
  while (c < n) {
    if (c > (~size_t{0}) / 2) return 0;  // not representable
    c *= 2;
  }
  return c;
}
template <class P>
Got pool_view(const P& p) {
  return {p.get_allocations(), p.get_deallocations(), p.get_growth_events(), p.get_bytes_allocated(), p.get_current_usage(), p.get_peak_usage(), p.bytes_remaining(), true};
}
struct Base {
  static constexpr bool stats_on = allocator_stats_enabled;
  static constexpr bool single = false;
  static constexpr int eager = 0;
  void note_request(const Req&) {}
  void copy_handle(int) {}
  void drop_handle(int) {}
  void check_structure(const std::map<uint64_t, Want>&) {}
  template <class F>
  void impossible(size_t, size_t, int, F&&) {}
};

struct RawPool : Base {
  static constexpr bool single = true;
  static constexpr int eager = 1;
  std::vector<std::shared_ptr<HugePagePool>> h;
  void create(size_t i, bool hg, size_t g) {
    h.reserve(8);
    h.push_back(std::make_shared<HugePagePool>(i, hg, g));
  }
  void destroy() { h.clear(); }
  bool alive() const { return !h.empty(); }
  Req make(size_t s, size_t a, int) const { return {s, a, 0, 1}; }
  void* alloc(const Req& r) { return h[0]->allocate(r.size, r.align); }
  void dealloc(void* p, const Req& r) { h.back()->deallocate(p, r.size); }
  size_t usable(const Req& r) const { return r.size; }
  size_t recorded(const Req& r) const { return r.size; }
  uint64_t sub(const Req&) const { return 0; }
  bool has_sub(const Req&) const { return alive(); }
  Got view(uint64_t) const { return pool_view(*h[0]); }
  bool using_hugepages() const { return h[0]->using_hugepages(); }
  bool grows_with_hugepages(const Req&, bool) const { return h[0]->using_hugepages(); }
  void nothing() {
    CHECK(h[0]->allocate(0, 8) == nullptr);
    h[0]->deallocate(nullptr, 64);
    h[0]->deallocate(nullptr, 0);
  }
  void copy_handle(int) {
    if (h.size() < 4) h.push_back(h[0]);
  }
  void drop_handle(int) {
    if (h.size() > 1) h.erase(h.begin());
  }
  template <class F>
  void impossible(size_t n, size_t al, int, F&& f) {
    f(Req{n, al, 0, 1}, [&] { return h[0]->allocate(n, al); });
  }
};

struct MultiBase : Base {
  std::set<uint64_t> requested;
  std::shared_ptr<MultiSizeHugePagePool> pool;
  bool alive() const { return pool != nullptr; }
  void note_request(const Req& r) { requested.insert(class_of(r.size)); }
  size_t usable(const Req& r) const { return class_of(r.size); }
  size_t recorded(const Req& r) const { return class_of(r.size); }
  uint64_t sub(const Req& r) const { return class_of(r.size); }
  bool has_sub(const Req& r) const { return class_of(r.size) != 0 && pool->get_pool(class_of(r.size)) != nullptr; }
  Got view(uint64_t c) const {
    auto* p = pool->get_pool(c);
    return p ? pool_view(*p) : Got{};
  }
  bool using_hugepages() const { return pool->using_hugepages(); }
  bool grows_with_hugepages(const Req& r, bool huge) const { return has_sub(r) ? pool->get_pool(class_of(r.size))->using_hugepages() : huge; }
  void check_structure(const std::map<uint64_t, Want>& want) {
    size_t used = 0;
    for (auto& [c, w] : want)
      if (w.allocs) {
        ++used;
        CHECK_MSG(pool->get_pool(c) != nullptr, "no sub-pool for size class " << c);
      }
    CHECK_MSG(pool->active_size_classes() >= used && pool->active_size_classes() <= requested.size(),
              pool->active_size_classes() << " sub-pools, but " << used << " classes served and " << requested.size() << " requested");
    CHECK(pool->get_pools().size() == pool->active_size_classes());
    for (auto& [c, p] : pool->get_pools()) CHECK_MSG(requested.count(c) && pool->get_pool(c) == p.get(), "sub-pool for " << c << ", a class never requested");
  }
};
struct RawMulti : MultiBase {
  void create(size_t i, bool hg, size_t g) { pool = std::make_shared<MultiSizeHugePagePool>(i, hg, g); }
  void destroy() {
    pool.reset();
    requested.clear();
  }
  Req make(size_t s, size_t a, int) const { return {s, a, 0, 1}; }
  void* alloc(const Req& r) { return pool->allocate(r.size, r.align); }
  void dealloc(void* p, const Req& r) { pool->deallocate(p, r.size); }
  void nothing() {
    CHECK(pool->allocate(0, 8) == nullptr);
    pool->deallocate(nullptr, 64);
  }
  template <class F>
  void impossible(size_t n, size_t al, int, F&& f) {
    Req r{n, al, 0, 1};
    note_request(r);
    f(r, [&] { return pool->allocate(n, al); });
  }
};

struct Odd24 {
  uint64_t a, b;
  uint32_t c;
};
struct alignas(128) Wide {
  char x[200];
};
// Needs more than the alignment that mappings have anyway
struct alignas(8192) Paged {
  char x[100];
};
// Allocator handles of five types sharing one multi-size pool.
struct TypedMulti : MultiBase {
  template <class T>
  using A = MultiSizeHugePageAllocator<T>;
  std::optional<A<char>> c;
  std::optional<A<int64_t>> i;
  std::optional<A<Odd24>> o;
  std::optional<A<Wide>> w;
  std::optional<A<Paged>> pg;
  void create(size_t in, bool hg, size_t g) {
    A<char> first = make_multi_size_hugepage_allocator<char>(in, hg, g);
    pool = first.get_pool();
    c = first;
    i = A<int64_t>(first);
    o = A<Odd24>(*i);
    w = A<Wide>(*o);
    pg = A<Paged>(*c);
  }
  void destroy() {
    pool.reset();
    requested.clear();
    c.reset();
    i.reset();
    o.reset();
    w.reset();
    pg.reset();
  }
  Req make(size_t n, size_t, int type) const {
    static const size_t sz[] = {1, 8, sizeof(Odd24), sizeof(Wide), sizeof(Paged)}, al[] = {1, 8, alignof(Odd24), 128, 8192};
    type = type == 15 ? 4 : type & 3;
    if (type == 4) n = n ? (n - 1) % 3 + 1 : 0;
    return {n * sz[type], al[type], type, n};
  }
  void* alloc(const Req& r) {
    switch (r.type) {
      case 0: return c->allocate(r.n);
      case 1: return i->allocate(r.n);
      case 2: return o->allocate(r.n);
      case 4: return pg->allocate(r.n);
      default: return w->allocate(r.n);
    }
  }
  void dealloc(void* p, const Req& r) {
    switch (r.type) {
      case 0: return c->deallocate(static_cast<char*>(p), r.n);
      case 1: return i->deallocate(static_cast<int64_t*>(p), r.n);
      case 2: return o->deallocate(static_cast<Odd24*>(p), r.n);
      case 4: return pg->deallocate(static_cast<Paged*>(p), r.n);
      default: return w->deallocate(static_cast<Wide*>(p), r.n);
    }
  }
  void nothing() {
    c->deallocate(nullptr, 3);
    w->deallocate(nullptr, 0);
  }
  void copy_handle(int k) {
    A<int64_t> t(std::move(*i));
    CHECK(t == *i && t == *c && !(t != *o));
    A<Odd24> x(t);
    if (k & 1) o = x;
    else c = A<char>(x);
  }
  template <class F>
  void impossible(size_t n, size_t, int type, F&& f) {
    Req r = make(1, 1, type);
    size_t each = r.size;
    if (n < (size_t{1} << 40)) return;
    r.n = n;
    r.size = n > ~size_t{0} / each ? ~size_t{0} : n * each;
    note_request(r);
    f(r, [&] { return alloc(r); });
  }
};

template <class T>
struct TypedHuge : Base {
  static constexpr bool single = true;
  static constexpr int eager = 1;
  using A = HugePageAllocator<T>;
  std::vector<A> h;
  void create(size_t i, bool hg, size_t g) {
    h.reserve(8);
    h.push_back(A(i, hg, g));
  }
  void destroy() { h.clear(); }
  bool alive() const { return !h.empty(); }
  Req make(size_t, size_t, int) const { return {sizeof(T), std::max<size_t>(alignof(T), 64), 0, 1}; }
  void* alloc(const Req&) { return h[0].allocate(1); }
  void dealloc(void* p, const Req&) { h.back().deallocate(static_cast<T*>(p), 1); }
  size_t usable(const Req& r) const { return r.size; }
  size_t recorded(const Req& r) const { return r.size; }
  uint64_t sub(const Req&) const { return 0; }
  bool has_sub(const Req&) const { return alive(); }
  Got view(uint64_t) const { return pool_view(h[h.size() / 2]); }
  bool using_hugepages() const { return h[0].using_hugepages(); }
  bool grows_with_hugepages(const Req&, bool) const { return h[0].using_hugepages(); }
  void nothing() { h[0].deallocate(nullptr, 1); }
  void copy_handle(int k) {
    if (h.size() < 4) h.push_back(h[0]);
    else h[static_cast<size_t>(k) % h.size()] = h[0];
    for (auto& x : h) CHECK(x == h[0]);
  }
  void drop_handle(int) {
    if (h.size() > 1) h.erase(h.begin());
  }
};

using NodeTree = btree<int64_t, int32_t, 8, 8>;
struct LeafLike : NodeTree::leaf_node {
  char x[300];
};
struct alignas(128) InnerLike : NodeTree::internal_node {
  char x[100];
};
struct PlainLike {
  char x[24];
};
struct TwoPool : Base {
  static constexpr int eager = 2;
  template <class T>
  using A = PolicyBasedHugePageAllocator<T, TwoPoolPolicy>;
  std::optional<A<PlainLike>> p;
  std::optional<A<LeafLike>> l;
  std::optional<A<InnerLike>> n;
  bool alive() const { return p.has_value(); }
  void create(size_t i, bool hg, size_t g) {
    auto a = std::make_shared<HugePagePool>(i, hg, g);
    auto b = std::make_shared<HugePagePool>(i, hg, g);
    p.emplace(TwoPoolPolicy(a, b));
    l.emplace(*p);
    n.emplace(*l);
  }
  void destroy() {
    l.reset();
    p.reset();
    n.reset();
  }
  Req make(size_t, size_t, int type) const {
    type %= 3;
    static const size_t sz[] = {sizeof(PlainLike), sizeof(LeafLike), sizeof(InnerLike)};
    return {sz[type], type == 2 ? size_t{128} : size_t{64}, type, 1};
  }
  void* alloc(const Req& r) {
    if (r.type == 0) return p->allocate(1);
    if (r.type == 1) return l->allocate(1);
    return n->allocate(1);
  }
  void dealloc(void* q, const Req& r) {
    if (r.type == 0) p->deallocate(static_cast<PlainLike*>(q), 1);
    else if (r.type == 1) l->deallocate(static_cast<LeafLike*>(q), 1);
    else n->deallocate(static_cast<InnerLike*>(q), 1);
  }
  size_t usable(const Req& r) const { return r.size; }
  size_t recorded(const Req& r) const { return r.size; }
  uint64_t sub(const Req& r) const { return r.type == 2; }
  bool has_sub(const Req&) const { return alive(); }
  HugePagePool& pool(uint64_t s) const { return s ? *p->get_policy().internal_pool_ : *p->get_policy().leaf_pool_; }
  Got view(uint64_t s) const { return pool_view(pool(s)); }
  bool using_hugepages() const { return pool(0).using_hugepages() || pool(1).using_hugepages(); }
  bool grows_with_hugepages(const Req& r, bool) const { return pool(sub(r)).using_hugepages(); }
  void nothing() { p->deallocate(nullptr, 1); }
  void copy_handle(int) {
    A<PlainLike> c(*n);
    p.emplace(c);
    A<LeafLike> d(c);
    l.emplace(d);
  }
};

struct T8 {
  uint64_t x;
};
struct T40 {
  char x[40];
};
struct alignas(256) T512 {
  char x[300];
};
struct T5000 {
  char x[5000];
};

#if WHAT == 16
// The size-class function alone.
enum COp { One, Range };
void run_class(const Case& c, Stats& st) {
  using M = MultiSizeHugePagePool;
  uint64_t n = 0;
  auto one = [&](size_t s) {
    size_t exp = class_of(s);
    bool representable = s == 0 || exp != 0;
    size_t got = 0;
    bool threw = false;
    try {
      got = M::get_size_class(s);
    } catch (const std::bad_alloc&) {
      threw = true;
    }
    CHECK_MSG(threw == !representable, "size class of " << s << (threw ? " refused" : " not refused"));
    if (threw) return got;
    CHECK_MSG(got >= s, "size class " << got << " of " << s << " is too small");
    CHECK_MSG(got == exp, "size class of " << s << " is " << got << ", documented " << exp);
    CHECK_MSG(M::get_size_class(got) == got, "size class of " << s << " is not a fixed point");
    ++n;
    return got;
  };
  for (auto& o : c.ops) {
    auto s = static_cast<size_t>(o.a);
    if (o.code == One) one(s);
    else {
      size_t last = 0;
      for (int64_t i = 0; i < o.b; ++i) {
        if (s + static_cast<size_t>(i) < s) break;
        size_t g = one(s + static_cast<size_t>(i));
        if (s + static_cast<size_t>(i) > (size_t{1} << 63)) break;
        CHECK_MSG(g >= last, "size class not monotone at " << s + static_cast<size_t>(i));
        last = g;
      }
    }
    st.mixin(s);
  }
  st.hit("sizes_classified", n);
  st.nontrivial = n > 1;
}
#endif

struct R {
  R() {
#if WHAT == 14
#if PART == 0
    reg_pool<RawPool>("hugepage_pool", {}, 6);
    reg_pool<TypedHuge<T8>>("hugepage_alloc_8", {}, 1);
    reg_pool<TypedHuge<T40>>("hugepage_alloc_40", {}, 1);
    reg_pool<TypedHuge<T512>>("hugepage_alloc_512_align_256", {}, 1);
#elif PART == 1
    reg_pool<RawMulti>("multi_size_pool", {}, 2);
    reg_pool<TypedMulti>("multi_size_alloc", {.max_type_n = 300}, 1);
    reg_pool<TwoPool>("two_pool_alloc", {}, 2);
#endif
#elif WHAT == 15
#if PART % 2 == 0
#define SUFFIX ""
#else
#define SUFFIX "_without_stats"
#endif
#if PART / 2 == 0
    reg_pool<RawPool>("hugepage_pool" SUFFIX, {}, 3);
    reg_pool<TypedHuge<T40>>("hugepage_alloc_40" SUFFIX, {}, 1);
    reg_pool<TypedHuge<T5000>>("hugepage_alloc_5000" SUFFIX, {}, 1);
    reg_pool<RawMulti>("multi_size_pool" SUFFIX, {}, 1);
    reg_pool<TypedMulti>("multi_size_alloc" SUFFIX, {.max_type_n = 300}, 1);
    reg_pool<TwoPool>("two_pool_alloc" SUFFIX, {}, 2);
#endif
#elif WHAT == 16
#if PART == 0
    reg_pool<RawMulti>("multi_size_pool", {}, 3);
    pbt::configs().push_back({"size_class", [](Rng& r) {
                                Case c;
                                int64_t k = r.range(1, 6);
                                for (int64_t i = 0; i < k; ++i) {
                                  int64_t s = r.chance(1, 3) ? static_cast<int64_t>(r.next() >> r.below(64))
                                              : r.chance(1, 2) ? (int64_t{1} << r.range(0, 62)) + r.range(-40, 40)
                                                               : r.range(0, 5000);
                                  if (r.chance(1, 30)) s = static_cast<int64_t>((uint64_t{1} << 63) + static_cast<uint64_t>(r.range(-30, 30)));
                                  c.ops.push_back({r.chance(1, 2) ? 0 : 1, s, r.range(1, 600), 0});
                                }
                                return c;
                              },
                              run_class, 1});
#elif PART == 1
    reg_pool<TypedMulti>("multi_size_alloc", {.max_type_n = 600}, 2);
#endif
#elif WHAT == 18
#if PART == 0
    reg_pool<RawPool>("hugepage_pool", {}, 4);
    reg_pool<TypedHuge<T40>>("hugepage_alloc_40", {}, 1);
    reg_pool<TypedHuge<T5000>>("hugepage_alloc_5000", {}, 1);
#elif PART == 1
    reg_pool<RawMulti>("multi_size_pool", {}, 2);
    reg_pool<TypedMulti>("multi_size_alloc", {.max_type_n = 300}, 1);
    reg_pool<TwoPool>("two_pool_alloc", {}, 2);
#endif
#endif
  }
} r_;
}  // namespace
