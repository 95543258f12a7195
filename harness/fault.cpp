// C19: operations that fail by exception.
#ifndef PART
#define PART 0
#endif
#if PART != 0
#define PBT_NO_MAIN
#endif
#include <fast_containers/btree.hpp>
#include <fast_containers/hugepage_allocator.hpp>
#include <fast_containers/multi_size_hugepage_allocator.hpp>
#include <fast_containers/policy_based_hugepage_allocator.hpp>

#include "fault.hpp"
#include "multi_model.hpp"
#include "vmem.hpp"

namespace {
using namespace kressler::fast_containers;
using mm::Arena;
using mm::PlainAlloc;
using pbt::Case;
using pbt::Rng;
using pbt::Stats;
using std::greater;
using std::less;
using std::string;
using trk::TBig;
using trk::TKey;
using trk::TVal;
constexpr auto Bin = SearchMode::Binary;
constexpr auto Lin = SearchMode::Linear;
constexpr auto Simd = SearchMode::SIMD;

// What may fail, chosen by the case.
unsigned mask_of(const Case& c) {
  static const unsigned m[] = {trk::kAlloc | trk::kCopy | trk::kValue | trk::kDefault, trk::kAlloc, trk::kCopy, trk::kValue | trk::kDefault | trk::kCopy,
                               trk::kAlloc | trk::kCopy, trk::kAlloc | trk::kCopy | trk::kValue | trk::kDefault, trk::kCopy, trk::kAlloc};
  return m[c.param(4) & 7];
}
struct PlainEnv : fm::TrackInjector {
  explicit PlainEnv(const Case& c) {
    mask = mask_of(c);
    mm::g_std_blocks.m.clear();
  }
  void rearm() { trk::g_inj.mask = mask; }
  template <class T>
  std::unique_ptr<T> make() { return std::make_unique<T>(); }
  template <class T, class L>
  std::unique_ptr<T> make_range(const L& l) { return std::make_unique<T>(l.begin(), l.end()); }
  void check() {}
  void finish() { CHECK_MSG(mm::g_std_blocks.m.empty(), mm::g_std_blocks.m.size() << " blocks never returned"); }
};
// Arenas with the given traits: two trees with different allocators.
template <unsigned Tr>
struct ArenaEnv2 : fm::TrackInjector {
  int next = 0;
  explicit ArenaEnv2(const Case& c) {
    mask = mask_of(c);
    mm::arenas().clear();
    for (int i = 0; i < 2; ++i) {
      mm::arenas().push_back(std::make_unique<Arena>());
      mm::arenas().back()->id = i;
    }
  }
  void rearm() { trk::g_inj.mask = mask; }
  Arena* any() { return mm::arenas()[static_cast<size_t>(next++ & 1)].get(); }
  template <class T>
  std::unique_ptr<T> make() { return std::make_unique<T>(typename T::allocator_type(any())); }
  template <class T, class L>
  std::unique_ptr<T> make_range(const L& l) { return std::make_unique<T>(l.begin(), l.end(), typename T::allocator_type(any())); }
  void check() {}
  void finish() {
    for (auto& a : mm::arenas()) CHECK_MSG(a->blocks.empty(), a->blocks.size() << " blocks never returned");
    mm::arenas().clear();
  }
};
// The library's pools on simulated memory: the k-th mapping is refused.
template <class Maker>
struct PoolEnv {
  std::optional<decltype(Maker::make(0))> al;
  bool fired = false;
  explicit PoolEnv(const Case&) {
    vmem::begin();
    al.emplace(Maker::make(0));
  }
  static bool ours(const std::exception_ptr& e) {
    try {
      std::rethrow_exception(e);
    } catch (const std::bad_alloc&) {
      return true;
    } catch (...) {
      return false;
    }
  }
  int64_t armed = -1;
  void arm(int64_t k) {
    fired = false;
    armed = k;
    vmem::g.allow = [this](bool huge, size_t) {
      if (huge) return true;
      if (armed < 0) return true;
      if (armed-- == 0) {
        fired = true;
        return false;
      }
      return true;
    };
  }
  void rearm() {}
  bool disarm() {
    armed = -1;
    vmem::g.allow = nullptr;
    return fired;
  }
  template <class T>
  std::unique_ptr<T> make() { return std::make_unique<T>(*al); }
  template <class T, class L>
  std::unique_ptr<T> make_range(const L& l) { return std::make_unique<T>(l.begin(), l.end(), *al); }
  void check() { vmem::check(); }
  void finish() {
    al.reset();
    vmem::check();
    CHECK_MSG(vmem::g.live.empty(), vmem::g.live.size() << " mappings never released");
    vmem::reset();
  }
};
template <class P>
struct MkHuge {
  static HugePageAllocator<P> make(int) { return HugePageAllocator<P>(2000, false, 2000); }
};
template <class P>
struct MkMulti {
  static MultiSizeHugePageAllocator<P> make(int) { return make_multi_size_hugepage_allocator<P>(2000, false, 2000); }
};
template <class P>
struct MkTwo {
  static auto make(int) {
    auto a = std::make_shared<HugePagePool>(2000, false, 2000), b = std::make_shared<HugePagePool>(2000, false, 2000);
    return PolicyBasedHugePageAllocator<P, TwoPoolPolicy>(TwoPoolPolicy(a, b));
  }
};

template <class Cont, class Env, bool Tree>
void reg(const char* name, size_t cap = 1000000, unsigned w = 1) {
  pbt::configs().push_back({name, [](Rng& r) { return fm::gen_fault(r, codec::KeyCodec<typename Cont::key_type>::universe, Tree); },
                            [cap](const Case& c, Stats& s) {
                              mm::begin_case();
                              {
                                fm::Faults<Cont, Env, Tree> f(c, s, cap);
                                f.run(c);
                              }
                              mm::end_case();
                            },
                            w});
}
template <class K, class V, size_t L, size_t I, class C, SearchMode S>
void tree(const char* name, unsigned w = 1) {
  reg<btree<K, V, L, I, C, S, PlainAlloc<std::pair<K, V>>>, PlainEnv, true>(name, 1000000, w);
}
template <class K, class V, unsigned Tr, size_t L, size_t I>
void arena_tree(const char* name, unsigned w = 1) {
  reg<btree<K, V, L, I, less<K>, Lin, mm::ArenaAlloc<std::pair<K, V>, Tr>>, ArenaEnv2<Tr>, true>(name, 1000000, w);
}
template <class K, class V, template <class> class M>
void pool_tree(const char* name, unsigned w = 1) {
  reg<btree<K, V, 8, 8, less<K>, Lin, decltype(M<std::pair<K, V>>::make(0))>, PoolEnv<M<std::pair<K, V>>>, true>(name, 1000000, w);
}
template <class K, class V, size_t N, class C, SearchMode S>
void map(const char* name, unsigned w = 1) {
  reg<dense_map<K, V, N, C, S>, PlainEnv, false>(name, N, w);
}

struct R {
  R() {
#if PART == 0
    tree<TKey, TVal, 8, 8, less<TKey>, Bin>("tree_obj_obj_8_8_bin", 3);
    tree<TKey, int, 9, 8, greater<TKey>, Lin>("tree_obj_int_9_8_lin", 1);
#elif PART == 1
    tree<int, TBig, 8, 9, less<int>, Simd>("tree_int_big_8_9_simd", 2);
    tree<TKey, string, 12, 8, less<TKey>, Lin>("tree_obj_str_12_8", 1);
    map<TKey, TVal, 8, less<TKey>, Lin>("map_obj_obj_8", 2);
#elif PART == 2
    arena_tree<TKey, TVal, 0, 8, 8>("tree_obj_obj_arena_none", 1);
    arena_tree<TKey, TVal, mm::kPocca | mm::kPocma | mm::kPocs, 8, 8>("tree_obj_obj_arena_all", 1);
    map<TKey, int, 9, greater<TKey>, Bin>("map_obj_int_9_bin", 1);
#elif PART == 3
    pool_tree<TKey, TVal, MkTwo>("tree_obj_obj_two_pool", 1);
    pool_tree<int, int64_t, MkHuge>("tree_int_i64_hugepage_pool", 1);
    map<int, TBig, 12, less<int>, Simd>("map_int_big_12_simd", 1);
#elif PART == 4
    pool_tree<TKey, TVal, MkMulti>("tree_obj_obj_multi_pool", 1);
    map<string, TVal, 1, less<string>, Lin>("map_str_obj_1", 1);
    map<TKey, string, 33, less<TKey>, Bin>("map_obj_str_33", 1);
#endif
  }
} r_;
}  // namespace
