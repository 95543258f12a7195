// C21: default node sizes.  PART 0 sweeps pairs of type sizes; the other parts
// run map histories on trees that use the defaults.
#ifndef PART
#define PART 0
#endif
#if PART != 0
#define PBT_NO_MAIN
#endif
#include "tree_model.hpp"

namespace {
using std::less;
using std::string;
using namespace kressler::fast_containers;
using pbt::Case;
using pbt::Op;
using pbt::Rng;
using pbt::Stats;

// The documented rule, in other words: among the multiples of eight, the one
// closest to target/entry (the larger one on a tie), within [lo, hi].
constexpr size_t expected(size_t target, size_t entry, size_t lo, size_t hi) {
  auto dist = [&](size_t m) { return m * entry > target ? m * entry - target : target - m * entry; };
  size_t best = 0;
  for (size_t m = 0; m <= target + 8; m += 8)
    if (dist(m) <= dist(best)) best = m;
  return best < lo ? lo : best > hi ? hi : best;
}
constexpr size_t leaf_expected(size_t k, size_t v) { return expected(2048, k + v, 8, 64); }
constexpr size_t inner_expected(size_t k) { return expected(1024, k + sizeof(void*), 16, 64); }

#if PART == 0
template <size_t N>
struct Sz {
  char b[N];
  bool operator<(const Sz& o) const { return b[0] < o.b[0]; }
};
template <size_t N, size_t A>
struct alignas(A) Al {
  char b[N];
};
template <class... T>
struct List {};
template <size_t From, size_t... I>
auto sizes(std::index_sequence<I...>) -> List<Sz<From + I>...>;
template <class... A, class... B>
auto cat(List<A...>, List<B...>) -> List<A..., B...>;
template <size_t From, size_t To>
using Range = decltype(sizes<From>(std::make_index_sequence<To - From + 1>()));
using Keys = List<char, int16_t, int32_t, float, int64_t, double, void*, string, std::pair<int, char>, std::array<int, 3>, Sz<1>, Sz<3>, Sz<5>, Sz<7>, Sz<9>, Sz<12>, Sz<15>,
                  Sz<16>, Sz<20>, Sz<24>, Sz<32>, Sz<33>, Sz<40>, Sz<48>, Sz<56>, Sz<64>, Sz<72>, Sz<100>, Sz<128>, Sz<200>, Sz<248>, Sz<256>, Sz<500>, Sz<1000>, Sz<1024>,
                  Sz<2048>, Sz<5000>, Al<16, 16>, Al<5, 32>, Al<64, 64>>;
using MoreVals = List<string, std::array<char, 170>, Sz<180>, Sz<192>, Sz<200>, Sz<230>, Sz<248>, Sz<255>, Sz<256>, Sz<300>, Sz<500>, Sz<512>, Sz<1000>, Sz<1024>, Sz<2000>,
                      Sz<2048>, Sz<4096>, Sz<100000>, Al<16, 16>, Al<1, 32>, Al<100, 64>>;
using Vals = decltype(cat(Range<1, 178>(), MoreVals()));
using InnerKeys = decltype(cat(Range<1, 140>(), Keys()));
struct Entry {
  size_t ks, vs, leaf;
};
struct Inner {
  size_t ks, inner;
};
std::vector<Entry> leafs;
std::vector<Inner> inners;
template <class K, class... V>
void add_row(List<V...>) {
  (leafs.push_back({sizeof(K), sizeof(V), default_leaf_node_size<K, V>()}), ...);
}
template <class... K>
void add_rows(List<K...>) {
  (add_row<K>(Vals()), ...);
}
template <class... K>
void add_inner(List<K...>) {
  (inners.push_back({sizeof(K), default_internal_node_size<K>()}), ...);
}
struct R {
  R() {
    add_rows(Keys());
    add_inner(InnerKeys());
    pbt::configs().push_back({"sizes",
                              [](Rng& r) {
                                Case c;
                                for (int64_t i = 0, n = r.range(2, 12); i < n; ++i)
                                  c.ops.push_back({static_cast<int>(r.range(0, 1)), static_cast<int64_t>(r.below(1000000)), static_cast<int64_t>(r.below(1000000)), 0});
                                return c;
                              },
                              [](const Case& c, Stats& st) {
                                std::vector<const Entry*> l;
                                std::vector<const Inner*> n;
                                for (auto& o : c.ops) {
                                  if (o.code & 1) {
                                    const Inner& e = inners[static_cast<size_t>(o.a) % inners.size()];
                                    CHECK_MSG(e.inner == inner_expected(e.ks), "internal size for key size " << e.ks << " is " << e.inner << ", the documented rule gives " << inner_expected(e.ks));
                                    CHECK(e.inner % 8 == 0 && e.inner >= 16 && e.inner <= 64);
                                    n.push_back(&e);
                                    st.hit("internal_size");
                                    if (e.inner != 16 && e.inner != 64) st.nontrivial = true;
                                  } else {
                                    const Entry& e = leafs[static_cast<size_t>(o.a + o.b * 7919) % leafs.size()];
                                    CHECK_MSG(e.leaf == leaf_expected(e.ks, e.vs),
                                              "leaf size for key size " << e.ks << " and value size " << e.vs << " is " << e.leaf << ", the documented rule gives " << leaf_expected(e.ks, e.vs));
                                    CHECK(e.leaf % 8 == 0 && e.leaf >= 8 && e.leaf <= 64);
                                    l.push_back(&e);
                                    st.hit("leaf_size");
                                    if (e.leaf != 8 && e.leaf != 64) st.nontrivial = true;
                                  }
                                  st.mixin(static_cast<uint64_t>(o.a) * 3 + static_cast<uint64_t>(o.code & 1) + static_cast<uint64_t>(o.b) * 7919);
                                }
                                for (auto* a : l)
                                  for (auto* b : l)
                                    if (a->ks + a->vs <= b->ks + b->vs) CHECK_MSG(a->leaf >= b->leaf, "leaf size grows from entry size " << a->ks + a->vs << " to " << b->ks + b->vs);
                                for (auto* a : n)
                                  for (auto* b : n)
                                    if (a->ks <= b->ks) CHECK_MSG(a->inner >= b->inner, "internal size grows from key size " << a->ks << " to " << b->ks);
                              },
                              20});
  }
} r_;
#else
// A tree with defaulted sizes: it must be the tree with the documented sizes,
// and hold exactly that many entries in its first leaf.
template <class K, class V>
void reg(const char* name, unsigned w = 1) {
  using T = btree<K, V>;
  constexpr size_t L = leaf_expected(sizeof(K), sizeof(V)), I = inner_expected(sizeof(K));
  tmod::reg<T>(name, tmod::kOutcome | tmod::kLookup, w);
  auto inner = pbt::configs().back();
  pbt::configs().pop_back();
  auto run = inner.run;
  pbt::configs().push_back({name, inner.gen,
                            [run](const Case& c, Stats& s) {
                              CHECK_MSG((std::is_same_v<T, btree<K, V, L, I>>), "the default sizes of this tree are not " << L << " and " << I);
                              run(c, s);
                            },
                            w});
}
struct R {
  R() {
#if PART == 1
    reg<int, int>("int_int", 2);
    reg<int64_t, codec::Blob<256>>("i64_b256", 3);
    reg<char, char>("char_char", 1);
#elif PART == 2
    reg<string, string>("str_str", 3);
    reg<std::array<uint8_t, 32>, codec::Blob<24>>("a32_b24", 2);
#elif PART == 3
    reg<int64_t, codec::Blob<1000>>("i64_b1000", 2);
    reg<double, codec::Blob<40>>("f64_b40", 2);
    reg<uint16_t, string>("u16_str", 2);
#endif
  }
} r_;
#endif
}  // namespace
