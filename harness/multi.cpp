// C06 (WHAT=6), C07 (WHAT=7), C08 (WHAT=8): sessions over several trees.
#ifndef PART
#define PART 0
#endif
#if PART != 0
#define PBT_NO_MAIN
#endif
#ifndef WHAT
#define WHAT 6
#endif
#include <fast_containers/hugepage_allocator.hpp>
#include <fast_containers/multi_size_hugepage_allocator.hpp>
#include <fast_containers/policy_based_hugepage_allocator.hpp>

#include "multi_model.hpp"
#include "vmem.hpp"
#if WHAT == 7
#include "dmap_model.hpp"
#include "tree_model.hpp"
#endif

namespace {
using namespace mm;
using std::greater;
using std::less;
using std::string;
constexpr auto Bin = SearchMode::Binary;
constexpr auto Lin = SearchMode::Linear;
constexpr auto Simd = SearchMode::SIMD;

template <class K, class V, size_t L, size_t I, class C, SearchMode S>
using Plain = PlainEnv<btree<K, V, L, I, C, S, PlainAlloc<std::pair<K, V>>>>;
template <class K, class V, unsigned Tr, size_t L = 8, size_t I = 8, class C = less<K>, SearchMode S = Lin>
using Ar = ArenaEnv<btree<K, V, L, I, C, S, ArenaAlloc<std::pair<K, V>, Tr>>, Tr>;

// The library's own allocators on small pools of simulated memory.
template <class TreeT, class Maker>
struct PoolEnv {
  using Tree = TreeT;
  using Alloc = typename Tree::allocator_type;
  static constexpr bool tracked = Maker::tracked;
  static constexpr bool swappable = true;
  std::vector<std::optional<Alloc>> cur;
  PoolEnv() {
    vmem::begin();
    for (int i = 0; i < 3; ++i) cur.push_back(Maker::make(i));
  }
  Alloc alloc(int i) { return *cur[static_cast<size_t>(i) % 3]; }
  static bool same(const Tree& t, const Alloc& a) { return t.get_allocator() == a; }
  // The caller lets go of its allocator and pools; trees keep theirs alive.
  template <class F>
  bool kill(int i, F&&) {
    auto& c = cur[static_cast<size_t>(i) % 3];
    c.reset();
    c = Maker::make(i % 3);
    vmem::check();
    return true;
  }
  void finish() {
    cur.clear();
    vmem::check();
    if (!vmem::g.live.empty()) pbt::fail(std::to_string(vmem::g.live.size()) + " mappings never released");
    vmem::reset();
  }
};
template <class P>
struct MkHuge {
  static constexpr bool tracked = false;  // rebound copies own separate pools
  static HugePageAllocator<P> make(int i) { return HugePageAllocator<P>(8192u << i, i == 1, 16384); }
};
template <class P>
struct MkMulti {
  static constexpr bool tracked = true;
  static MultiSizeHugePageAllocator<P> make(int i) { return make_multi_size_hugepage_allocator<P>(8192u << i, i == 1, 16384); }
};
template <class P>
struct MkTwo {
  static constexpr bool tracked = true;
  static auto make(int i) {
    auto a = std::make_shared<HugePagePool>(8192u << i, i == 1, 16384), b = std::make_shared<HugePagePool>(8192u, i == 2, 8192);
    return PolicyBasedHugePageAllocator<P, TwoPoolPolicy>(TwoPoolPolicy(a, b));
  }
};
template <class K, class V, template <class> class A, size_t L = 8, size_t I = 8>
using Hp = PoolEnv<btree<K, V, L, I, less<K>, Lin, decltype(A<std::pair<K, V>>::make(0))>, A<std::pair<K, V>>>;

struct R {
  R() {
#if WHAT == 6
#if PART == 0
    reg<Plain<int, int, 8, 8, less<int>, Bin>>("int_int_8_8_bin", 3);
    reg<Plain<string, string, 8, 9, less<string>, Lin>>("str_str_8_9_lin", 2);
#elif PART == 1
    reg<Plain<uint64_t, codec::Blob<24>, 16, 8, greater<uint64_t>, Simd>>("u64_b24_16_8_greater_simd", 2);
    reg<Ar<int, string, kPocma | kPocs>>("int_str_arena_move_swap", 2);
#elif PART == 2
    reg<Ar<int, int, 0>>("int_int_arena_none", 2);
    reg<Plain<trk::TKey, trk::TVal, 8, 8, less<trk::TKey>, Bin>>("obj_obj_8_8_bin", 2);
#elif PART == 3
    reg<Hp<int, string, MkTwo>>("int_str_two_pool", 1);
    reg<Plain<int8_t, int, 9, 8, less<int8_t>, Simd>>("i8_int_9_8_simd", 1);
#endif
#elif WHAT == 7
#if PART == 0
    reg<Plain<trk::TKey, trk::TVal, 8, 8, less<trk::TKey>, Bin>>("multi_obj_obj_8_8", 4);
#elif PART == 1
    reg<Ar<trk::TKey, trk::TVal, kPocma | kPocs>>("multi_obj_obj_arena_move_swap", 2);
    reg<Plain<int, trk::TBig, 9, 8, less<int>, Simd>>("multi_int_big_9_8_simd", 2);
#elif PART == 2
    reg<Ar<trk::TKey, trk::TVal, 0, 8, 9>>("multi_obj_obj_arena_none", 2);
    reg<Ar<trk::TKey, string, kPocca | kPocma | kPocs>>("multi_obj_str_arena_all", 2);
#elif PART == 3
    {
      using T = btree<trk::TKey, trk::TVal, 8, 8, greater<trk::TKey>, Lin, PlainAlloc<std::pair<trk::TKey, trk::TVal>>>;
      const char* n = "tree_obj_obj_8_8";
      tmod::GenParams g{8, 8, 4000, tmod::kPos};
      pbt::configs().push_back({n, [g](Rng& r) { return tmod::gen_tree(r, g); },
                                [](const Case& c, Stats& s) {
                                  begin_case();
                                  g_std_blocks.m.clear();
                                  {
                                    tmod::Session<T> ss(c, s, tmod::kPos);
                                    ss.run(c, 8);
                                    trk::check();
                                  }
                                  end_case();
                                  CHECK_MSG(g_std_blocks.m.empty(), g_std_blocks.m.size() << " blocks never returned");
                                },
                                3});
    }
    {
      using M = dense_map<trk::TKey, trk::TVal, 9, less<trk::TKey>, Lin>;
      dmod::reg<M>("inner");
      pbt::Config inner = pbt::configs().back();
      pbt::configs().pop_back();
      auto run = inner.run;
      pbt::configs().push_back({"map_obj_obj_9", inner.gen,
                                [run](const Case& c, Stats& s) {
                                  begin_case();
                                  run(c, s);
                                  end_case();
                                },
                                3});
    }
#elif PART == 4
    reg<Hp<trk::TKey, trk::TVal, MkMulti>>("multi_obj_obj_multisize_pool", 1);
    reg<Hp<trk::TKey, trk::TVal, MkHuge>>("multi_obj_obj_hugepage_pool", 1);
#endif
#elif WHAT == 8
#if PART == 0
    reg<Ar<int, int, 0>>("arena_none", 2);
    reg<Ar<int, string, kPocma | kPocs>>("arena_move_swap", 2);
#elif PART == 1
    reg<Ar<int, int, kPocca | kPocma | kPocs, 8, 9>>("arena_all", 2);
    reg<Ar<string, int, kPocma, 9, 8>>("arena_move", 1);
    reg<Ar<int, int, kPocs>>("arena_swap", 1);
#elif PART == 2
    reg<Ar<int, codec::Blob<40>, kPocca, 8, 8, greater<int>>>("arena_copy", 1);
    reg<Ar<int, int, kSoccc | kPocma>>("arena_soccc_move", 1);
    reg<Ar<int64_t, int, kPocca | kPocs | kSoccc, 16, 8>>("arena_copy_swap_soccc", 1);
#elif PART == 3
    reg<Hp<int, string, MkTwo>>("two_pool", 2);
    reg<Hp<int64_t, codec::Blob<24>, MkTwo, 9, 12>>("two_pool_b24", 1);
#elif PART == 4
    reg<Hp<int, string, MkMulti>>("multi_size_pool", 2);
    reg<Hp<int, string, MkHuge>>("hugepage_pool", 2);
#endif
#endif
  }
} r_;
}  // namespace
