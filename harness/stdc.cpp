// C23: the allocators in standard containers.  Oracle: the same container with
// std::allocator, given the same calls; object ledger; simulated memory.
#ifndef PART
#define PART 0
#endif
#if PART != 0
#define PBT_NO_MAIN
#endif
#define ALLOCATOR_STATS
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <fast_containers/hugepage_allocator.hpp>
#include <fast_containers/multi_size_hugepage_allocator.hpp>
#include <fast_containers/policy_based_hugepage_allocator.hpp>

#include "codecs.hpp"
#include "pbt.hpp"
#include "track.hpp"
#include "vmem.hpp"

namespace {
using namespace kressler::fast_containers;
using pbt::Case;
using pbt::Op;
using pbt::Rng;
using pbt::Stats;
using std::string;
using trk::TKey;
using trk::TVal;

// ---- allocators ---------------------------------------------------------------
struct Huge {
  template <class T>
  using A = HugePageAllocator<T>;
  static constexpr bool shares_rebound = false;
  template <class T>
  static A<T> make(int i) { return A<T>(4096u << (i & 1), i == 1, 8192); }
};
struct Multi {
  template <class T>
  using A = MultiSizeHugePageAllocator<T>;
  static constexpr bool shares_rebound = true;
  template <class T>
  static A<T> make(int i) { return make_multi_size_hugepage_allocator<T>(4096u << (i & 1), i == 1, 8192); }
  template <class T>
  static uint64_t in_use(const A<T>& a) {
    uint64_t n = 0;
    for (auto& [c, p] : a.get_pool()->get_pools()) n += p->get_current_usage();
    return n;
  }
};
struct Two {
  template <class T>
  using A = PolicyBasedHugePageAllocator<T, TwoPoolPolicy>;
  static constexpr bool shares_rebound = true;
  template <class T>
  static A<T> make(int i) {
    return A<T>(TwoPoolPolicy(std::make_shared<HugePagePool>(4096u << (i & 1), i == 1, 8192), std::make_shared<HugePagePool>(4096, false, 8192)));
  }
  template <class T>
  static uint64_t in_use(const A<T>& a) { return a.get_policy().leaf_pool_->get_current_usage() + a.get_policy().internal_pool_->get_current_usage(); }
};

// ---- element types -----------------------------------------------------------
template <class T>
T mk(int64_t i) {
  if constexpr (std::is_same_v<T, string>) return i % 3 == 0 ? "s" + std::to_string(i) : string(20 + static_cast<size_t>(i % 30), 'x') + std::to_string(i);
  else if constexpr (requires { codec::ValCodec<T>::make(i); }) return codec::ValCodec<T>::make(i);
  else return T(i);
}
struct Hash {
  size_t operator()(const TKey& k) const { return static_cast<size_t>(k.get() % 17); }
  size_t operator()(int k) const { return static_cast<size_t>(k % 13); }
  size_t operator()(const string& k) const { return k.size(); }
};
struct alignas(64) Wide64 {
  int64_t v = 0;
  char pad[80] = {};
  Wide64() = default;
  explicit Wide64(int64_t x) : v(x) { pad[79] = static_cast<char>(x); }
  friend bool operator==(const Wide64& a, const Wide64& b) { return a.v == b.v && a.pad[79] == b.pad[79]; }
  friend bool operator<(const Wide64& a, const Wide64& b) { return a.v < b.v; }
};

template <class A, class B>
bool same(const A& a, const B& b) {
  if constexpr (requires { a == b; }) return a == b;
  else return std::equal(a.begin(), a.end(), b.begin(), b.end());
}
enum Op_ { PushBack, PushFront, PopBack, PopFront, InsertAt, EraseAt, EraseSpan, AssignN, Resize, ClearAll, InsertKey, EraseKey, Subscript, CopyCtor, CopyWith, MoveCtor,
           MoveWith, CopyAssign, MoveAssign, Swap, Recreate, Extract, Splice, SortIt, Reserve, Shrink, SelfAssign, kOps };
inline const char* names[] = {"push_back", "push_front", "pop_back", "pop_front", "insert_at", "erase_at", "erase_span", "assign", "resize", "clear", "insert_key", "erase_key",
                              "subscript", "copy_construct", "copy_construct_with_allocator", "move_construct", "move_construct_with_allocator", "copy_assign", "move_assign",
                              "swap", "recreate", "extract_insert", "splice_or_merge", "sort", "reserve_rehash", "shrink", "self_assign"};

template <class C>
concept HasKey = requires { typename C::key_type; };
template <class C>
concept IsMap = HasKey<C> && requires { typename C::mapped_type; };
template <class C>
concept IsHash = requires { typename C::hasher; };
template <class C>
concept IsFwd = requires(C& c) { c.before_begin(); };

template <class C>
typename C::value_type elem(int64_t i) {
  using T = typename C::value_type;
  if constexpr (IsMap<C>) return T(mk<typename C::key_type>(i % 200), mk<typename C::mapped_type>(i * 7));
  else return mk<T>(HasKey<C> ? i % 200 : i);
}
template <class C>
typename C::key_type keyof(int64_t i) { return mk<typename C::key_type>(i % 200); }

// One call applied to a container; returns something comparable.
template <class C>
int64_t call(C& c, const Op& o) {
  auto at = [&](int64_t i) {
    auto it = c.begin();
    std::advance(it, static_cast<int64_t>(static_cast<uint64_t>(i) % (static_cast<uint64_t>(std::distance(c.begin(), c.end())) + 1)));
    return it;
  };
  auto n = [&] { return static_cast<int64_t>(std::distance(c.begin(), c.end())); };
  switch (o.code) {
    case PushBack:
      if constexpr (requires { c.push_back(elem<C>(1)); })
        for (int64_t i = 0; i < o.c; ++i) c.push_back(elem<C>(o.b + i));
      break;
    case PushFront:
      if constexpr (requires { c.push_front(elem<C>(1)); })
        for (int64_t i = 0; i < o.c; ++i) c.push_front(elem<C>(o.b + i));
      break;
    case PopBack:
      if constexpr (requires { c.pop_back(); })
        for (int64_t i = 0; i < o.c && n() > 0; ++i) c.pop_back();
      break;
    case PopFront:
      if constexpr (requires { c.pop_front(); })
        for (int64_t i = 0; i < o.c && n() > 0; ++i) c.pop_front();
      break;
    case InsertAt:
      if constexpr (IsFwd<C>) c.insert_after(c.before_begin(), elem<C>(o.b));
      else if constexpr (!HasKey<C>) {
        if (o.c > 3) c.insert(at(o.b), static_cast<size_t>(o.c), elem<C>(o.b));
        else c.insert(at(o.b), elem<C>(o.b));
      }
      break;
    case EraseAt:
      if constexpr (IsFwd<C>) {
        if (n() > 0) c.erase_after(c.before_begin());
      } else if (!c.empty()) {
        // Hash containers may iterate in different orders: choose by key there.
        if constexpr (IsHash<C>) return static_cast<int64_t>(c.erase(keyof<C>(o.b)));
        else {
          auto it = at(o.b);
          if (it == c.end()) it = c.begin();
          c.erase(it);
        }
      }
      break;
    case EraseSpan:
      if constexpr (!IsFwd<C> && !IsHash<C>) {
        int64_t i = o.b % (n() + 1), j = std::min<int64_t>(n(), i + o.c);
        auto a = c.begin(), b = c.begin();
        std::advance(a, i);
        std::advance(b, j);
        c.erase(a, b);
      }
      break;
    case AssignN:
      if constexpr (requires { c.assign(size_t{1}, elem<C>(1)); }) {
        std::vector<typename C::value_type> v;
        for (int64_t i = 0; i < o.c; ++i) v.push_back(elem<C>(o.b + i * 3));
        if (o.b & 1) c.assign(v.begin(), v.end());
        else c.assign(static_cast<size_t>(o.c), elem<C>(o.b));
      }
      break;
    case Resize:
      if constexpr (requires { c.resize(size_t{1}, elem<C>(1)); }) c.resize(static_cast<size_t>(o.c), elem<C>(o.b));
      break;
    case ClearAll: c.clear(); break;
    case InsertKey:
      if constexpr (HasKey<C>) {
        for (int64_t i = 0; i < o.c; ++i) c.insert(elem<C>(o.b + i * 5));
        return static_cast<int64_t>(c.size());
      }
      break;
    case EraseKey:
      if constexpr (HasKey<C>) {
        int64_t r = 0;
        for (int64_t i = 0; i < o.c; ++i) r += static_cast<int64_t>(c.erase(keyof<C>(o.b + i * 3)));
        return r;
      }
      break;
    case Subscript:
      if constexpr (IsMap<C> && requires { c[keyof<C>(1)]; }) {
        c[keyof<C>(o.b)] = mk<typename C::mapped_type>(o.c);
        return static_cast<int64_t>(c.count(keyof<C>(o.b + 1)));
      }
      break;
    case Extract:
      if constexpr (requires { c.extract(keyof<C>(1)); }) {
        auto h = c.extract(keyof<C>(o.b));
        if (h) {
          if constexpr (IsMap<C>) h.key() = keyof<C>(o.b + o.c);
          else h.value() = keyof<C>(o.b + o.c);
          c.insert(std::move(h));
        }
      }
      break;
    case SortIt:
      if constexpr (requires { c.sort(); }) {
        if (o.b & 1) c.sort();
        else c.reverse();
        if (o.c & 1) c.unique();
      }
      break;
    case Reserve:
      if constexpr (requires { c.reserve(size_t{1}); }) c.reserve(static_cast<size_t>(o.c) * 3);
      break;
    case Shrink:
      if constexpr (requires { c.shrink_to_fit(); }) c.shrink_to_fit();
      else if constexpr (requires { c.rehash(size_t{0}); }) c.rehash(0);
      break;
    default: break;
  }
  return 0;
}

template <class Fam, class Ours, class Ref>
struct Session {
  using VT = typename Ours::value_type;
  using Al = typename Ours::allocator_type;
  static constexpr int kS = 4;
  struct Slot {
    std::unique_ptr<Ours> o;
    std::unique_ptr<Ref> r;
    int al = 0;
  };
  Slot s[kS];
  std::vector<Al> al;
  Stats& st;
  uint64_t steps = 0, transfers = 0, big = 0;

  Session(Stats& x) : st(x) {
    vmem::begin();
    for (int i = 0; i < 2; ++i) al.push_back(Fam::template make<typename Al::value_type>(i));
  }
  void create(Slot& x, int a) {
    x.al = a & 1;
    x.o = std::make_unique<Ours>(al[static_cast<size_t>(a & 1)]);
    x.r = std::make_unique<Ref>();
  }
  void verify(Slot& x) {
    if (!x.o) return;
    const Ours& o = *x.o;
    const Ref& r = *x.r;
    if constexpr (IsHash<Ours>) {
      CHECK_MSG(o.size() == r.size(), "size " << o.size() << ", with the default allocator " << r.size());
      for (auto& e : r) {
        if constexpr (IsMap<Ours>) {
          auto f = o.find(e.first);
          CHECK_MSG(f != o.end() && f->second == e.second, "element differs from the container with the default allocator");
        } else {
          CHECK_MSG(o.count(e) == 1, "element missing");
        }
      }
      CHECK(static_cast<size_t>(std::distance(o.begin(), o.end())) == o.size());
    } else {
      auto i = o.begin();
      size_t n = 0;
      for (auto& e : r) {
        CHECK_MSG(i != o.end(), "shorter than the container with the default allocator: " << n);
        CHECK_MSG(same(*i, e), "element " << n << " differs from the container with the default allocator");
        ++i;
        ++n;
      }
      CHECK_MSG(i == o.end(), "longer than the container with the default allocator");
      if constexpr (!IsFwd<Ours>) CHECK(o.size() == n);
      big = std::max<uint64_t>(big, n);
    }
    big = std::max<uint64_t>(big, static_cast<uint64_t>(std::distance(r.begin(), r.end())));
    if constexpr (Fam::shares_rebound) CHECK_MSG(o.get_allocator() == al[static_cast<size_t>(x.al)], "the container's allocator is not the one it should have");
  }
  // Allocators are equal exactly when what one handed out may be returned to the other.
  void equality() {
    for (size_t i = 0; i < al.size(); ++i)
      for (size_t j = 0; j < al.size(); ++j) {
        const Al &a = al[i], &b = al[j];
        CHECK_MSG((a == b) == (i == j) && (a != b) == (i != j), "allocators with " << (i == j ? "the same pool" : "different pools") << " compare wrongly");
        if constexpr (Fam::shares_rebound) {
          struct Other {
            char pad[24];
          };
          typename std::allocator_traits<Al>::template rebind_alloc<Other> w(b);
          CHECK_MSG((a == w) == (i == j) && (w == a) == (i == j) && (a != w) == (i != j), "a rebound allocator with " << (i == j ? "the same pool" : "another pool") << " compares wrongly");
        }
      }
  }
  void run(const Case& c) {
    equality();
    create(s[0], 0);
    create(s[1], 1);
    for (auto& op : c.ops) {
      Op q = op;
      q.code = ((q.code % kOps) + kOps) % kOps;
      q.b = q.b < 0 ? -q.b : q.b;
      q.c = std::min<int64_t>(q.c < 0 ? -q.c : q.c, 300);
      st.hit(names[q.code]);
      int64_t a = q.a < 0 ? -q.a : q.a;
      Slot &x = s[a % kS], &y = s[(a + 1 + q.b % (kS - 1)) % kS];
      switch (q.code) {
        case Recreate: create(x, static_cast<int>(q.b)); break;
        case CopyCtor:
          if (!y.o) break;
          x.o = std::make_unique<Ours>(*y.o);
          x.r = std::make_unique<Ref>(*y.r);
          x.al = y.al;
          ++transfers;
          break;
        case CopyWith:
          if (!y.o) break;
          x.o = std::make_unique<Ours>(*y.o, al[static_cast<size_t>(q.c & 1)]);
          x.r = std::make_unique<Ref>(*y.r);
          x.al = static_cast<int>(q.c & 1);
          ++transfers;
          break;
        case MoveCtor:
          if (!y.o) break;
          x.o = std::make_unique<Ours>(std::move(*y.o));
          x.r = std::make_unique<Ref>(std::move(*y.r));
          x.al = y.al;
          y.o->clear();
          y.r->clear();
          ++transfers;
          break;
        case MoveWith:
          if (!y.o) break;
          x.o = std::make_unique<Ours>(std::move(*y.o), al[static_cast<size_t>(q.c & 1)]);
          x.r = std::make_unique<Ref>(std::move(*y.r));
          x.al = static_cast<int>(q.c & 1);
          y.o->clear();
          y.r->clear();
          ++transfers;
          break;
        case CopyAssign:
          if (!x.o || !y.o) break;
          *x.o = *y.o;
          *x.r = *y.r;
          ++transfers;
          break;
        case MoveAssign:
          if (!x.o || !y.o) break;
          *x.o = std::move(*y.o);
          *x.r = std::move(*y.r);
          x.al = y.al;
          y.o->clear();
          y.r->clear();
          ++transfers;
          break;
        case Swap:
          if (!x.o || !y.o) break;
          if (q.c & 1) std::swap(*x.o, *y.o);
          else x.o->swap(*y.o);
          x.r->swap(*y.r);
          std::swap(x.al, y.al);
          ++transfers;
          break;
        case SelfAssign:
          if (x.o) {
            Ours& o = *x.o;
            *x.o = o;
          }
          break;
        case Splice:
          if (!x.o || !y.o || x.al != y.al || !Fam::shares_rebound) break;
          if constexpr (requires { x.o->splice(x.o->begin(), *y.o); }) {
            x.o->splice(x.o->begin(), *y.o);
            x.r->splice(x.r->begin(), *y.r);
          } else if constexpr (requires { x.o->splice_after(x.o->before_begin(), *y.o); }) {
            x.o->splice_after(x.o->before_begin(), *y.o);
            x.r->splice_after(x.r->before_begin(), *y.r);
          } else if constexpr (HasKey<Ours>) {
            x.o->merge(*y.o);
            x.r->merge(*y.r);
          }
          break;
        default:
          if (x.o) {
            int64_t p = call(*x.o, q), w = call(*x.r, q);
            CHECK_MSG(p == w, names[q.code] << " returned " << p << ", with the default allocator " << w);
          }
      }
      ++steps;
      vmem::check();
      verify(x);
      equality();
      if (steps % 4 == 0)
        for (auto& z : s) verify(z);
      trk::check();
      st.mixin(static_cast<uint64_t>(q.code) + (x.r ? static_cast<uint64_t>(std::distance(x.r->begin(), x.r->end())) : 0) * 31);
    }
    for (auto& z : s) verify(z);
    for (auto& z : s) {
      z.o.reset();
      z.r.reset();
    }
    if constexpr (Fam::shares_rebound)
      for (auto& a : al) CHECK_MSG(Fam::in_use(a) == 0, Fam::in_use(a) << " bytes still in use although all containers are gone");
    al.clear();
    vmem::check();
    CHECK_MSG(vmem::g.live.empty(), vmem::g.live.size() << " mappings never released");
    vmem::reset();
    st.nontrivial = transfers > 1 && big > 8;
  }
};

Case gen(Rng& r) {
  Case c;
  int64_t n = r.chance(1, 3) ? r.range(4, 20) : r.range(15, 60);
  auto grow = [&](int64_t a) {
    int64_t k = r.chance(1, 2) ? PushBack : r.chance(1, 2) ? PushFront : InsertAt;
    c.ops.push_back({static_cast<int>(k), a, r.range(0, 300), r.size(1, 80)});
    c.ops.push_back({InsertKey, a, r.range(0, 300), r.size(1, 60)});
  };
  for (int64_t i = 0; i < n; ++i) {
    int64_t a = r.range(0, 3);
    unsigned w = static_cast<unsigned>(r.below(100));
    if (w < 30) grow(a);
    else if (w < 60) c.ops.push_back({static_cast<int>(r.range(PushBack, Subscript)), a, r.range(0, 400), r.size(1, 100)});
    else if (w < 85) c.ops.push_back({static_cast<int>(r.range(CopyCtor, Recreate)), a, r.range(0, 11), r.range(0, 1)});
    else c.ops.push_back({static_cast<int>(r.range(Extract, SelfAssign)), a, r.range(0, 200), r.range(0, 60)});
  }
  return c;
}
template <class Fam, class Ours, class Ref>
void reg(const char* name) {
  pbt::configs().push_back({name, gen, [](const Case& c, Stats& st) {
                              trk::g_error.clear();
                              trk::g_led = trk::Ledger();
                              trk::disarm();
                              {
                                Session<Fam, Ours, Ref> s(st);
                                s.run(c);
                              }
                              trk::check();
                              CHECK_MSG(trk::g_led.live.size() == 0, trk::g_led.live.size() << " objects never destroyed");
                            },
                            1});
}
template <class F, class K, class V>
using MapOf = std::map<K, V, std::less<K>, typename F::template A<std::pair<const K, V>>>;
template <class F, class K, class V>
using MMapOf = std::multimap<K, V, std::less<K>, typename F::template A<std::pair<const K, V>>>;
template <class F, class K>
using SetOf = std::set<K, std::less<K>, typename F::template A<K>>;
template <class F, class K>
using MSetOf = std::multiset<K, std::less<K>, typename F::template A<K>>;
template <class F, class T>
using ListOf = std::list<T, typename F::template A<T>>;
template <class F, class T>
using FwdOf = std::forward_list<T, typename F::template A<T>>;

template <class F>
void node_based(const char* fam) {
  auto nm = [&](const char* s) { return (new string(string(fam) + "_" + s))->c_str(); };
  reg<F, MapOf<F, int, string>, std::map<int, string>>(nm("map_int_str"));
  reg<F, MapOf<F, TKey, TVal>, std::map<TKey, TVal>>(nm("map_obj_obj"));
  reg<F, MMapOf<F, string, int>, std::multimap<string, int>>(nm("multimap_str_int"));
  reg<F, SetOf<F, string>, std::set<string>>(nm("set_str"));
  reg<F, MSetOf<F, Wide64>, std::multiset<Wide64>>(nm("multiset_wide"));
  // Lists build temporaries with get_allocator() and splice them in, which needs
  // a rebound allocator to draw from the same pool; HugePageAllocator documents
  // that rebinding creates a separate pool, so it is out of scope there.
  if constexpr (F::shares_rebound) {
  reg<F, ListOf<F, TVal>, std::list<TVal>>(nm("list_obj"));
  reg<F, ListOf<F, int64_t>, std::list<int64_t>>(nm("list_i64"));
  reg<F, FwdOf<F, string>, std::forward_list<string>>(nm("forward_list_str"));
  }
  reg<F, MSetOf<F, TKey>, std::multiset<TKey>>(nm("multiset_obj"));
  reg<F, MMapOf<F, int64_t, TVal>, std::multimap<int64_t, TVal>>(nm("multimap_i64_obj"));
}

struct R {
  R() {
#if PART == 0
    node_based<Huge>("hugepage");
#elif PART == 1
    node_based<Multi>("multi");
#elif PART == 2
    node_based<Two>("two_pool");
#elif PART == 3
    using F = Multi;
    reg<F, std::vector<TVal, F::A<TVal>>, std::vector<TVal>>("multi_vector_obj");
    reg<F, std::vector<char, F::A<char>>, std::vector<char>>("multi_vector_char");
    reg<F, std::vector<Wide64, F::A<Wide64>>, std::vector<Wide64>>("multi_vector_wide");
    reg<F, std::deque<string, F::A<string>>, std::deque<string>>("multi_deque_str");
    reg<F, std::deque<TVal, F::A<TVal>>, std::deque<TVal>>("multi_deque_obj");
#elif PART == 4
    using F = Multi;
    reg<F, std::basic_string<char, std::char_traits<char>, F::A<char>>, std::string>("multi_string");
    reg<F, std::unordered_map<TKey, string, Hash, std::equal_to<TKey>, F::A<std::pair<const TKey, string>>>, std::unordered_map<TKey, string, Hash>>("multi_unordered_map");
    reg<F, std::unordered_set<string, Hash, std::equal_to<string>, F::A<string>>, std::unordered_set<string, Hash>>("multi_unordered_set");
#endif
  }
} r_;
}  // namespace
