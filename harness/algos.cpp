// C28: standard algorithms, range constructors and iterator adaptors over trees
// and array maps give what they give over the sorted sequence of their elements.
#ifndef PART
#define PART 0
#endif
#if PART != 0
#define PBT_NO_MAIN
#endif
#include <algorithm>
#include <fast_containers/btree.hpp>
#include <fast_containers/dense_map.hpp>
#include <functional>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <ranges>
#include <string>
#include <vector>

#include "codecs.hpp"
#include "pbt.hpp"

namespace {
using namespace kressler::fast_containers;
using codec::KeyCodec;
using codec::ValCodec;
using pbt::Case;
using pbt::Op;
using pbt::Rng;
using pbt::Stats;
using std::string;

enum Op_ { Insert, Erase, Gather, Find, Count, Modify, Transform, Fold, Reverse, Bound, Equal, Sets, Rebuild, Extremes, Order,
           CopyAlgos, Search, Distance, Ranges, Partition, Clear, kN };
const char* names[] = {"insert", "erase", "gather", "find", "count", "modify", "transform", "fold", "reverse", "bound", "equal",
                       "sets", "rebuild", "extremes", "order", "copy_algorithms", "search", "distance", "ranges", "partition", "clear"};

// What standard adaptors and algorithms need of an iterator; without it the parts
// that use them are left out here and the check "distance" reports it.
template <class It>
constexpr bool kDefault = std::is_default_constructible_v<It>;
template <class It>
constexpr bool kArrow = std::is_pointer_v<It> || requires(const It& i) {
  { i.operator->() } -> std::convertible_to<typename std::iterator_traits<It>::pointer>;
};

template <class M>
struct Types;
template <class K, class V, size_t L, size_t I, class C, SearchMode S, class A>
struct Types<btree<K, V, L, I, C, S, A>> {
  using Key = K;
  using Val = V;
  using Cmp = C;
  static constexpr bool tree = true;
  static constexpr size_t cap = SIZE_MAX, leaf = L;
};
template <class K, class V, size_t N, class C, SearchMode S>
struct Types<dense_map<K, V, N, C, S>> {
  using Key = K;
  using Val = V;
  using Cmp = C;
  static constexpr bool tree = false;
  static constexpr size_t cap = N, leaf = 1;
};

template <class M>
struct Sess {
  using T = Types<M>;
  using K = typename T::Key;
  using V = typename T::Val;
  using C = typename T::Cmp;
  using P = std::pair<K, V>;
  using Vec = std::vector<P>;
  using Map = std::map<K, V, C>;
  M c[2];
  Map mm[2];
  Stats& st;
  int mode;
  int64_t u;
  C cmp{};
  uint64_t ran = 0;

  Sess(const Case& cs, Stats& s) : st(s), mode(static_cast<int>(cs.param(0) % codec::kKeyModes)), u(std::max<int64_t>(1, cs.param(1))) {}
  K key(int64_t v) const { return KeyCodec<K>::make(((v % u) + u) % u, mode); }
  static V val(int64_t v) { return ValCodec<V>::make(v); }

  template <class E>
  static bool same(const E& e, const P& p) {
    return e.first == p.first && e.second == p.second;
  }
  static bool all_same(const Vec& a, const Vec& b) {
    return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin());
  }
  // everything that only reads, over a const or a mutable container
  template <class Mp>
  void reads(Mp& t, const Vec& m, const Vec& m2, Mp& t2, const Op& o) {
    size_t n = m.size();
    size_t i = n ? static_cast<size_t>(static_cast<uint64_t>(o.a) % (n + 1)) : 0;
    size_t j = n ? static_cast<size_t>(static_cast<uint64_t>(o.b) % (n + 1)) : 0;
    if (i > j) std::swap(i, j);
    auto first = t.begin();
    if constexpr (T::tree)  // const and mutable iterators are one type
      if (o.c & 4) first = std::as_const(t).begin();
    auto b = std::next(first, static_cast<int64_t>(i));
    auto e = o.c & 1 ? std::next(b, static_cast<int64_t>(j - i)) : std::prev(t.end(), static_cast<int64_t>(n - j));
    auto mb = m.begin() + static_cast<int64_t>(i), me = m.begin() + static_cast<int64_t>(j);
    using It = decltype(b);
    switch (o.code) {
      case Gather: {  // range constructors of other containers
        CHECK_MSG(all_same(Vec(b, e), Vec(mb, me)), "vector(first, last)");
        Vec x;
        std::copy(b, e, std::back_inserter(x));
        CHECK_MSG(all_same(x, Vec(mb, me)), "copy to a back_inserter");
        x.assign(t.begin(), t.end());
        CHECK_MSG(all_same(x, m), "vector::assign");
        std::list<P> l(b, e);
        CHECK_MSG(std::equal(l.begin(), l.end(), mb, me), "list(first, last)");
        std::map<K, V, C> r;
        std::transform(b, e, std::inserter(r, r.end()), [](const auto& q) { return std::pair<const K, V>(q.first, q.second); });
        CHECK_MSG(r.size() == j - i && std::equal(mb, me, r.begin(), [](const P& p, const auto& q) { return p.first == q.first && p.second == q.second; }), "transform into a map");
        x.insert(x.begin() + static_cast<int64_t>(i), b, e);
        CHECK_MSG(x.size() == n + j - i && std::equal(mb, me, x.begin() + static_cast<int64_t>(i)), "vector::insert of a range");
        break;
      }
      case Find: {
        K k = key(o.a);
        V v = n ? m[static_cast<uint64_t>(o.b) % n].second : val(o.b);
        auto f = std::find_if(b, e, [&](const auto& x) { return x.first == k; });
        auto mf = std::find_if(mb, me, [&](const P& x) { return x.first == k; });
        CHECK_MSG(std::distance(b, f) == mf - mb, "find_if by key");
        auto g = std::find_if_not(b, e, [&](const auto& x) { return x.second != v; });
        auto mg = std::find_if_not(mb, me, [&](const P& x) { return x.second != v; });
        CHECK_MSG(std::distance(b, g) == mg - mb && (g == e) == (mg == me), "find_if_not by value");
        if (g != e) CHECK_MSG(same(*g, *mg), "element found by value");
        break;
      }
      case Count: {
        V v = n ? m[static_cast<uint64_t>(o.b) % n].second : val(o.b);
        auto p = [&](const auto& x) { return x.second == v; };
        CHECK_MSG(std::count_if(b, e, p) == std::count_if(mb, me, p), "count_if");
        CHECK_MSG(std::all_of(b, e, p) == std::all_of(mb, me, p), "all_of");
        CHECK_MSG(std::any_of(b, e, p) == std::any_of(mb, me, p), "any_of");
        CHECK_MSG(std::none_of(b, e, p) == std::none_of(mb, me, p), "none_of");
        break;
      }
      case Transform: {
        std::vector<K> ks;
        std::vector<V> vs;
        std::transform(b, e, std::back_inserter(ks), [](const auto& x) { return x.first; });
        std::transform(b, e, std::back_inserter(vs), [](auto&& x) { return x.second; });
        CHECK(ks.size() == j - i && vs.size() == j - i);
        for (size_t q = 0; q < ks.size(); ++q) CHECK_MSG(ks[q] == m[i + q].first && vs[q] == m[i + q].second, "transform, element " << q);
        Vec z;
        std::transform(b, e, t.begin(), std::back_inserter(z), [](const auto& x, const auto& y) { return P(x.first, y.second); });
        for (size_t q = 0; q < z.size(); ++q) CHECK_MSG(z[q].first == m[i + q].first && z[q].second == m[q].second, "transform of two ranges, element " << q);
        break;
      }
      case Fold: {  // accumulate with references and with values of the elements
        size_t h = std::accumulate(b, e, size_t{7}, [&, q = i](size_t a, const auto& x) mutable { return a * 31 + (same(x, m[q++]) ? 1u : 0u); });
        size_t w = 7;
        for (size_t q = i; q < j; ++q) w = w * 31 + 1;
        CHECK_MSG(h == w, "accumulate saw other elements");
        size_t d = std::inner_product(b, e, mb, size_t{0}, std::plus<>(), [](const auto& x, const P& y) { return same(x, y) ? size_t{1} : size_t{0}; });
        CHECK_MSG(d == j - i, "inner_product");
        size_t seen = i;
        auto fn = std::for_each(b, e, [&](const auto& x) { CHECK_MSG(seen < j && same(x, m[seen]), "for_each"); ++seen; });
        (void)fn;
        CHECK_MSG(seen == j, "for_each ended early");
        size_t fe = 0;
        auto stop = std::for_each_n(b, static_cast<int64_t>((j - i) / 2), [&](const auto& x) { CHECK_MSG(same(x, m[i + fe]), "for_each_n"); ++fe; });
        CHECK_MSG(fe == (j - i) / 2 && std::distance(stop, e) == static_cast<int64_t>(j - i - fe), "for_each_n");
        size_t k = 0;
        for (auto&& [kk, vv] : t) {
          CHECK_MSG(k < n && kk == m[k].first && vv == m[k].second, "structured bindings in a range-for");
          ++k;
        }
        CHECK(k == n);
        break;
      }
      case Reverse: {
        Vec x(std::make_reverse_iterator(e), std::make_reverse_iterator(b));
        Vec w(std::make_reverse_iterator(me), std::make_reverse_iterator(mb));
        CHECK_MSG(all_same(x, w), "std::reverse_iterator over the iterators");
        Vec y;
        std::reverse_copy(b, e, std::back_inserter(y));
        CHECK_MSG(all_same(y, w), "reverse_copy");
        size_t q = n;
        for (auto r = t.rbegin(); r != t.rend(); ++r) {
          CHECK(q > 0);
          CHECK_MSG(same(*r, m[--q]), "rbegin() to rend()");
        }
        CHECK(q == 0);
        Vec z(n, P(key(0), val(0)));
        if (n) std::copy_backward(b, e, z.end());
        CHECK_MSG(std::equal(mb, me, z.end() - static_cast<int64_t>(j - i)), "copy_backward");
        break;
      }
      case Bound: {
        K k = key(o.a + o.c - 1);
        auto lt = [&](const auto& x, const K& y) { return cmp(x.first, y); };
        auto gt = [&](const K& y, const auto& x) { return cmp(y, x.first); };
        auto l = std::lower_bound(b, e, k, lt);
        auto ml = std::lower_bound(mb, me, k, lt);
        CHECK_MSG(std::distance(b, l) == ml - mb, "std::lower_bound");
        auto h = std::upper_bound(b, e, k, gt);
        auto mh = std::upper_bound(mb, me, k, gt);
        CHECK_MSG(std::distance(b, h) == mh - mb, "std::upper_bound");
        auto p = std::partition_point(b, e, [&](const auto& x) { return cmp(x.first, k); });
        CHECK_MSG(p == l, "partition_point");
        CHECK_MSG(std::is_partitioned(b, e, [&](const auto& x) { return cmp(x.first, k); }), "is_partitioned");
        if constexpr (requires { t.lower_bound(k); })
          if (i == 0 && j == n) CHECK_MSG(t.lower_bound(k) == l, "std::lower_bound and the member disagree");
        break;
      }
      case Equal: {
        CHECK_MSG(std::equal(b, e, mb, me, [](const auto& x, const P& y) { return same(x, y); }), "equal");
        auto eq = [](const auto& x, const auto& y) { return x.first == y.first && x.second == y.second; };
        CHECK_MSG(std::equal(t.begin(), t.end(), t2.begin(), t2.end(), eq) == all_same(m, m2), "equal of two containers");
        auto [x, y] = std::mismatch(t.begin(), t.end(), t2.begin(), t2.end(), eq);
        auto [mx, my] = std::mismatch(m.begin(), m.end(), m2.begin(), m2.end());
        CHECK_MSG(std::distance(t.begin(), x) == mx - m.begin() && std::distance(t2.begin(), y) == my - m2.begin(), "mismatch");
        auto lt = [&](const auto& p, const auto& q) { return cmp(p.first, q.first); };
        CHECK_MSG(std::lexicographical_compare(b, e, t2.begin(), t2.end(), lt) == std::lexicographical_compare(mb, me, m2.begin(), m2.end(), lt), "lexicographical_compare");
        CHECK_MSG(std::is_permutation(b, e, mb, me, [](const auto& p, const auto& q) { return p.first == q.first && p.second == q.second; }) || j - i > 64, "is_permutation");
        break;
      }
      case Sets: {  // algorithms over two sorted containers
        auto lt = [&](const auto& p, const auto& q) { return cmp(p.first, q.first); };
        auto both = [&](auto algo, const char* what) {
          Vec x, w;
          algo(b, e, t2.begin(), t2.end(), std::back_inserter(x), lt);
          algo(mb, me, m2.begin(), m2.end(), std::back_inserter(w), lt);
          CHECK_MSG(all_same(x, w), what);
        };
        both([](auto... a) { return std::merge(a...); }, "merge");
        both([](auto... a) { return std::set_union(a...); }, "set_union");
        both([](auto... a) { return std::set_intersection(a...); }, "set_intersection");
        both([](auto... a) { return std::set_difference(a...); }, "set_difference");
        both([](auto... a) { return std::set_symmetric_difference(a...); }, "set_symmetric_difference");
        CHECK_MSG(std::includes(t.begin(), t.end(), b, e, lt), "includes");
        CHECK_MSG(std::includes(t2.begin(), t2.end(), b, e, lt) == std::includes(m2.begin(), m2.end(), mb, me, lt), "includes of another container");
        break;
      }
      case Rebuild: {  // trees made from iterators of other containers
        if constexpr (requires { M(b, e); }) {
          M x(b, e);
          CHECK_MSG(x.size() == j - i && std::equal(x.begin(), x.end(), mb, me, [](const auto& p, const P& q) { return same(p, q); }), "tree made from a range of a tree");
        }
        btree<K, V, 8, 8, C, SearchMode::Binary> other(b, e);
        CHECK_MSG(other.size() == j - i && std::equal(other.begin(), other.end(), mb, me, [](const auto& p, const P& q) { return same(p, q); }), "tree made from a range of another container");
        if constexpr (kArrow<It>) {
          btree<K, V, 8, 8, C, SearchMode::Binary> back(std::make_reverse_iterator(e), std::make_reverse_iterator(b));
          CHECK_MSG(back.size() == j - i && std::equal(back.begin(), back.end(), mb, me, [](const auto& p, const P& q) { return same(p, q); }), "tree made from a reversed range");
        }
        break;
      }
      case Extremes: {
        auto lt = [&](const auto& p, const auto& q) { return cmp(p.first, q.first); };
        if (i == j) {
          CHECK(std::max_element(b, e, lt) == e);
          break;
        }
        CHECK_MSG(std::max_element(b, e, lt) == std::prev(e), "max_element by key");
        CHECK_MSG(std::min_element(b, e, lt) == b, "min_element by key");
        if constexpr (kDefault<It>) {
          auto [lo, hi] = std::minmax_element(b, e, lt);
          CHECK_MSG(lo == b && hi == std::prev(e), "minmax_element by key");
        }
        break;
      }
      case Order: {
        auto lt = [&](const auto& p, const auto& q) { return cmp(p.first, q.first); };
        CHECK_MSG(std::is_sorted(b, e, lt), "is_sorted");
        CHECK_MSG(std::is_sorted_until(b, e, lt) == e, "is_sorted_until");
        CHECK_MSG(std::adjacent_find(b, e, [&](const auto& p, const auto& q) { return !cmp(p.first, q.first); }) == e, "adjacent_find");
        auto same_val = [](const auto& p, const auto& q) { return p.second == q.second; };
        CHECK_MSG(std::distance(b, std::adjacent_find(b, e, same_val)) == std::adjacent_find(mb, me, same_val) - mb, "adjacent_find by value");
        break;
      }
      case CopyAlgos: {
        size_t cnt = static_cast<size_t>(o.c & 7);
        cnt = std::min(cnt * 5, j - i);
        Vec x;
        std::copy_n(b, cnt, std::back_inserter(x));
        CHECK_MSG(all_same(x, Vec(mb, mb + static_cast<int64_t>(cnt))), "copy_n");
        auto odd = [q = 0u](const auto&) mutable { return (q++ % 3) == 0; };
        Vec y, w;
        std::copy_if(b, e, std::back_inserter(y), odd);
        std::copy_if(mb, me, std::back_inserter(w), odd);
        CHECK_MSG(all_same(y, w), "copy_if");
        Vec z(j - i, P(key(0), val(0)));
        auto end = std::copy(b, e, z.begin());
        CHECK_MSG(end == z.end() && all_same(z, Vec(mb, me)), "copy over existing pairs");
        Vec s(3, P(key(0), val(0)));
        auto re = std::partial_sort_copy(b, e, s.begin(), s.end(), [&](const P& p, const P& q) { return cmp(q.first, p.first); });
        size_t got = static_cast<size_t>(re - s.begin());
        CHECK(got == std::min<size_t>(3, j - i));
        for (size_t q = 0; q < got; ++q) CHECK_MSG(s[q] == m[j - 1 - q], "partial_sort_copy");
        std::vector<It> its;
        for (auto it = b; it != e; ++it) its.push_back(it);
        for (size_t q = 0; q < its.size(); ++q) CHECK_MSG(same(*its[q], m[i + q]) && its[q]->first == m[i + q].first, "stored iterator " << q);
        break;
      }
      case Search: {
        auto eq = [](const auto& x, const auto& y) { return x.first == y.first && x.second == y.second; };
        CHECK_MSG(std::search(t.begin(), t.end(), b, e, eq) == (i == j ? t.begin() : b), "search of a part in the whole");
        CHECK_MSG(std::find_end(t.begin(), t.end(), b, e, eq) == (i == j ? t.end() : b), "find_end of a part in the whole");
        auto f = std::find_first_of(t.begin(), t.end(), t2.begin(), t2.end(), eq);
        auto mf = std::find_first_of(m.begin(), m.end(), m2.begin(), m2.end());
        CHECK_MSG(std::distance(t.begin(), f) == mf - m.begin(), "find_first_of");
        break;
      }
      case Distance: {
        CHECK(std::distance(b, e) == static_cast<int64_t>(j - i));
        CHECK(std::distance(t.begin(), t.end()) == static_cast<int64_t>(n));
        CHECK(std::next(b, static_cast<int64_t>(j - i)) == e && std::prev(e, static_cast<int64_t>(j - i)) == b);
        auto x = b;
        std::advance(x, static_cast<int64_t>(j - i));
        CHECK(x == e && (x != b) == (i != j));
        std::advance(x, -static_cast<int64_t>(j - i));
        CHECK(x == b);
        using Tr = std::iterator_traits<It>;
        CHECK_MSG((std::is_same_v<typename Tr::value_type, P>), "value_type");
        CHECK_MSG(std::is_signed_v<typename Tr::difference_type> && sizeof(typename Tr::difference_type) == sizeof(std::ptrdiff_t), "difference_type");
        CHECK_MSG((std::is_base_of_v<std::bidirectional_iterator_tag, typename Tr::iterator_category>), "iterator_category");
        CHECK_MSG(kDefault<It>, "an iterator without a default constructor");
        if constexpr (T::tree) CHECK_MSG(kDefault<decltype(t.rbegin())> && kArrow<decltype(t.rbegin())>, "the reverse iterator");
        CHECK_MSG(kArrow<It>, "operator-> does not yield the iterator's pointer type");
        if (b != e) {
          typename Tr::value_type p = *b;  // a copy, not a view
          CHECK(same(*b, p) && p == m[i]);
        }
        break;
      }
      case Ranges: {
        if constexpr (std::ranges::bidirectional_range<Mp>) {
          size_t q = n;
          for (auto&& x : t | std::views::reverse) {
            CHECK(q > 0);
            CHECK_MSG(same(x, m[--q]), "views::reverse");
          }
          CHECK(q == 0);
          st.hit("ranges_available");
        }
        if constexpr (std::ranges::input_range<Mp>) {
          size_t q = 0, take = j;
          for (auto&& x : t | std::views::drop(static_cast<int64_t>(i)) | std::views::take(static_cast<int64_t>(take - i))) {
            CHECK_MSG(i + q < j && same(x, m[i + q]), "views::drop and take");
            ++q;
          }
          CHECK(q == j - i);
          CHECK(std::ranges::distance(t) == static_cast<int64_t>(n));
        }
        break;
      }
      case Partition: {
        V v = n ? m[static_cast<uint64_t>(o.b) % n].second : val(o.b);
        Vec x, y, wx, wy;
        auto p = [&](const auto& q) { return q.second == v; };
        std::partition_copy(b, e, std::back_inserter(x), std::back_inserter(y), p);
        std::partition_copy(mb, me, std::back_inserter(wx), std::back_inserter(wy), p);
        CHECK_MSG(all_same(x, wx) && all_same(y, wy), "partition_copy");
        Vec r, wr;
        std::rotate_copy(t.begin(), b, t.end(), std::back_inserter(r));
        std::rotate_copy(m.begin(), mb, m.end(), std::back_inserter(wr));
        CHECK_MSG(all_same(r, wr), "rotate_copy");
        Vec uq, wu;
        auto sv = [](const auto& q, const auto& s) { return q.second == s.second; };
        std::unique_copy(b, e, std::back_inserter(uq), sv);
        std::unique_copy(mb, me, std::back_inserter(wu), sv);
        CHECK_MSG(all_same(uq, wu), "unique_copy by value");
        break;
      }
      default: break;
    }
    ++ran;
  }
  void full(size_t w) {
    CHECK(c[w].size() == mm[w].size());
    auto mi = mm[w].begin();
    for (auto it = c[w].begin(); it != c[w].end(); ++it, ++mi) {
      CHECK(mi != mm[w].end());
      CHECK_MSG(it->first == mi->first && it->second == mi->second, "contents");
    }
    CHECK(mi == mm[w].end());
  }
  void apply(const Op& o) {
    size_t w = static_cast<size_t>(o.c >> 3) & 1;
    M& t = c[w];
    Map& m = mm[w];
    switch (o.code) {
      case Insert:
        for (int64_t q = 0; q < std::max<int64_t>(1, o.b % 64); ++q) {
          K k = key(o.a + q * ((o.c & 7) + 1));
          if (m.size() >= T::cap || m.contains(k)) continue;
          V v = val((o.a + q) % 7);
          t.insert(k, v);
          m.emplace(k, v);
        }
        break;
      case Erase:
        for (int64_t q = 0; q < std::max<int64_t>(1, o.b % 32); ++q) {
          K k = key(o.a + q * ((o.c & 7) + 1));
          CHECK(t.erase(k) == m.erase(k));
        }
        break;
      case Clear: t.clear(); m.clear(); break;
      case Modify: {  // values changed through algorithms
        size_t n = m.size();
        size_t i = static_cast<size_t>(static_cast<uint64_t>(o.a) % (n + 1)), j = static_cast<size_t>(static_cast<uint64_t>(o.b) % (n + 1));
        if (i > j) std::swap(i, j);
        auto b = std::next(t.begin(), static_cast<int64_t>(i)), e = std::next(b, static_cast<int64_t>(j - i));
        auto mb = std::next(m.begin(), static_cast<int64_t>(i)), me = std::next(mb, static_cast<int64_t>(j - i));
        int64_t q = o.b, s = o.b;
        if (o.c & 1) std::for_each(b, e, [&](auto&& x) { x.second = val(q++ % 7); });
        else
          for (auto it = b; it != e; ++it) it->second = val(q++ % 7);
        std::for_each(mb, me, [&](auto& x) { x.second = val(s++ % 7); });
        if (o.c & 2) {  // every value, in a range-for
          for (auto&& [k, v] : t) v = val(q++ % 5);
          for (auto& [k, v] : m) v = val(s++ % 5);
        }
        break;
      }
      default: {
        Vec a(m.begin(), m.end()), b(mm[1 - w].begin(), mm[1 - w].end());
        if constexpr (T::tree) reads<M>(t, a, b, c[1 - w], o);
        else if (o.c & 4) reads<const M>(t, a, b, c[1 - w], o);
        else reads<M>(t, a, b, c[1 - w], o);
        st.nontrivial |= a.size() > 2 * T::leaf;
      }
    }
  }
  void run(const Case& cs) {
    for (auto& o : cs.ops) {
      st.hit(o.code >= 0 && o.code < kN ? names[o.code] : "?");
      apply(o);
      st.mixin(mm[0].size() * 31 + mm[1].size() * 7 + static_cast<uint64_t>(o.code));
    }
    full(0);
    full(1);
    st.hit("algorithm_groups", ran);
  }
};

template <class M>
void reg(const char* name, unsigned w = 1) {
  using K = typename Types<M>::Key;
  pbt::configs().push_back(
      {name,
       [](Rng& r) {
         Case c;
         int64_t big = Types<M>::tree ? static_cast<int64_t>(std::min<size_t>(Types<M>::leaf, 32)) * 8 : static_cast<int64_t>(Types<M>::cap) * 2;
         int64_t u = std::min<int64_t>(KeyCodec<K>::universe, 1 + r.size(2, big));
         c.params = {static_cast<int64_t>(r.below(codec::kKeyModes)), u};
         auto k = [&] { return static_cast<int64_t>(r.below(static_cast<uint64_t>(u))); };
         size_t rounds = 1 + r.below(4);
         for (size_t x = 0; x < rounds; ++x) {
           size_t ins = 1 + r.below(6);
           for (size_t q = 0; q < ins; ++q) c.ops.push_back({Insert, k(), r.range(1, 63), r.range(0, 15)});
           if (r.chance(1, 2)) c.ops.push_back({Erase, k(), r.range(1, 31), r.range(0, 15)});
           if (r.chance(1, 15)) c.ops.push_back({Clear, 0, 0, r.range(0, 15)});
           size_t alg = 1 + r.below(8);
           for (size_t q = 0; q < alg; ++q) {
             bool whole = r.chance(1, 5);
             c.ops.push_back({static_cast<int>(r.range(Gather, Partition)), whole ? 0 : r.range(0, 2000), r.range(0, 2000), r.range(0, 15)});
           }
         }
         return c;
       },
       [](const Case& c, Stats& st) {
         auto s = std::make_unique<Sess<M>>(c, st);
         s->run(c);
       },
       w});
}

constexpr auto Bin = SearchMode::Binary;
constexpr auto Lin = SearchMode::Linear;
constexpr auto Simd = SearchMode::SIMD;
struct R {
  R() {
#if PART == 0
    reg<btree<int, int, 8, 8, std::less<int>, Bin>>("tree_int_bin", 2);
    reg<btree<uint16_t, string, 8, 8, std::less<uint16_t>, Lin>>("tree_u16_str");
#elif PART == 1
    reg<btree<string, int64_t, 9, 8, std::greater<string>, Lin>>("tree_str_desc");
    reg<btree<int64_t, int, 16, 8, std::less<int64_t>, Simd>>("tree_i64_simd");
#elif PART == 2
    reg<dense_map<int, int, 24, std::less<int>, Simd>>("map_int_simd", 2);
#elif PART == 3
    reg<dense_map<double, string, 40, std::greater<double>, Lin>>("map_dbl_desc");
#endif
  }
} r_;
}  // namespace
