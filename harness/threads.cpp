// C26: threads that read one container at the same time, or assign distinct
// elements of it, or work on containers (and pools) of their own, do not
// interfere.  Run under ThreadSanitizer and as released; oracle std::map.
#ifndef PART
#define PART 0
#endif
#if PART != 0
#define PBT_NO_MAIN
#endif
#include <atomic>
#include <map>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include <fast_containers/btree.hpp>
#include <fast_containers/dense_map.hpp>
#include <fast_containers/hugepage_allocator.hpp>
#include <fast_containers/hugepage_pool.hpp>
#include <fast_containers/multi_size_hugepage_allocator.hpp>
#include <fast_containers/multi_size_hugepage_pool.hpp>
#include <fast_containers/policy_based_hugepage_allocator.hpp>

#include "codecs.hpp"
#include "pbt.hpp"

namespace {
using namespace kressler::fast_containers;
using codec::KeyCodec;
using codec::ValCodec;
using pbt::Case;
using pbt::Op;
using pbt::Rng;
using pbt::Stats;
using std::string;

// Runs f(0) ... f(n-1) at the same time; the first failure is rethrown.
template <class F>
void together(size_t n, F f) {
  std::vector<std::string> err(n);
  std::atomic<size_t> ready{0};
  std::vector<std::thread> th;
  for (size_t t = 0; t < n; ++t)
    th.emplace_back([&, t] {
      ready.fetch_add(1);
      while (ready.load() < n) std::this_thread::yield();
      try {
        f(t);
      } catch (const std::exception& e) {
        err[t] = *e.what() ? e.what() : "exception";
      }
    });
  for (auto& x : th) x.join();
  for (auto& e : err)
    if (!e.empty()) pbt::fail("thread: " + e);
}

// ---- uniform access to trees and array maps ----------------------------------
template <class M>
concept IsTree = requires(M& m) { m.equal_range(std::declval<typename M::key_type>()); };
template <class M>
struct Types;
template <class K, class V, size_t L, size_t I, class C, SearchMode S, class A>
struct Types<btree<K, V, L, I, C, S, A>> {
  using Key = K;
  using Val = V;
  using Cmp = C;
  static constexpr size_t cap = SIZE_MAX, leaf = L;
};
template <class K, class V, size_t N, class C, SearchMode S>
struct Types<dense_map<K, V, N, C, S>> {
  using Key = K;
  using Val = V;
  using Cmp = C;
  static constexpr size_t cap = N, leaf = N;
};

template <class M>
struct Session {
  using T = Types<M>;
  using K = typename T::Key;
  using V = typename T::Val;
  using Model = std::map<K, V, typename T::Cmp>;
  static K key(int64_t v, int mode) { return KeyCodec<K>::make(((v % U()) + U()) % U(), mode); }
  static int64_t U() { return KeyCodec<K>::universe; }

  template <class It, class MI>
  static void same(const It& it, const It& end, MI mi, const Model& m, const char* what) {
    if (mi == m.end()) {
      CHECK_MSG(it == end, what << " found something where there is nothing");
      return;
    }
    CHECK_MSG(!(it == end), what << " found nothing");
    CHECK_MSG(it->first == mi->first && it->second == mi->second, what << " found another element");
  }
  // One read of a container nobody changes.
  template <class Mp>
  static void read(Mp& c, const Model& m, Rng& r, int64_t u, int mode, std::vector<uint64_t>& hits) {
    K k = key(r.range(0, u + u / 4 + 2), mode);
    size_t what = r.below(9);
    ++hits[what];
    switch (what) {
      case 0:
        same(c.find(k), c.end(), m.find(k), m, "find");
        return;
      case 1:
        if constexpr (requires { c.contains(k); }) CHECK(c.contains(k) == m.contains(k));
        if constexpr (requires { c.count(k); }) CHECK(c.count(k) == m.count(k));
        return;
      case 2:
        if constexpr (requires { c.lower_bound(k); }) same(c.lower_bound(k), c.end(), m.lower_bound(k), m, "lower_bound");
        return;
      case 3:
        if constexpr (requires { c.upper_bound(k); }) same(c.upper_bound(k), c.end(), m.upper_bound(k), m, "upper_bound");
        return;
      case 4:
        if constexpr (requires { c.equal_range(k); }) {
          auto [a, b] = c.equal_range(k);
          auto [x, y] = m.equal_range(k);
          same(a, c.end(), x, m, "equal_range.first");
          same(b, c.end(), y, m, "equal_range.second");
        }
        return;
      case 5: {  // forwards from a found element
        auto mi = m.find(k);
        auto it = c.find(k);
        for (int i = 0; i < 12; ++i) {
          same(it, c.end(), mi, m, "a walk forwards");
          if (mi == m.end()) return;
          ++it;
          ++mi;
        }
        return;
      }
      case 6: {  // backwards from the end
        auto mi = m.rbegin();
        size_t n = 0, lim = r.chance(1, 8) ? SIZE_MAX : 20;
        for (auto it = c.rbegin(); it != c.rend() && n < lim; ++it, ++mi, ++n) {
          CHECK(mi != m.rend());
          CHECK(it->first == mi->first && it->second == mi->second);
        }
        CHECK(n == std::min(lim, m.size()));
        return;
      }
      case 7: {  // everything
        CHECK(c.size() == m.size());
        CHECK(c.empty() == m.empty());
        if (!r.chance(1, 6)) return;
        auto mi = m.begin();
        for (auto it = c.begin(); it != c.end(); ++it, ++mi) {
          CHECK(mi != m.end());
          CHECK(it->first == mi->first && it->second == mi->second);
        }
        CHECK(mi == m.end());
        return;
      }
      case 8:
        if constexpr (requires { c.at(k); }) {
          auto mi = m.find(k);
          try {
            const V& v = c.at(k);
            CHECK(mi != m.end() && v == mi->second);
          } catch (const std::out_of_range&) {
            CHECK(mi == m.end());
          }
        } else {
          same(c.begin(), c.end(), m.begin(), m, "begin");
        }
        return;
    }
  }
  static void insert(M& c, Model& m, const K& k, const V& v) {
    if (m.size() >= T::cap && !m.contains(k)) return;
    if (T::cap != SIZE_MAX && m.contains(k)) return;
    c.insert(k, v);
    m.insert({k, v});
  }
  static void change(M& c, Model& m, Rng& r, int64_t u, int mode, int64_t n, bool grow) {
    for (int64_t i = 0; i < n; ++i) {
      K k = key(r.range(0, u), mode);
      if (grow) {
        V v = ValCodec<V>::make(r.range(0, 1000));
        bool room = m.size() < T::cap;
        size_t how = room ? r.below(6) : 0;
        if (how == 3) {
          if constexpr (requires { c.insert_or_assign(k, v); }) {
            c.insert_or_assign(k, v);
            m.insert_or_assign(k, v);
          }
        } else if (how == 4) {
          c[k] = v;
          m[k] = v;
        } else if (how == 5) {
          if constexpr (requires { c.try_emplace(k, v); }) {
            c.try_emplace(k, v);
            m.try_emplace(k, v);
          }
        } else {
          insert(c, m, k, v);
        }
      } else if (IsTree<M> && r.chance(1, 12)) {
        if constexpr (IsTree<M>) {  // a run of elements
          K k2 = key(r.range(0, u), mode);
          auto a = m.lower_bound(k), b = m.lower_bound(k2);
          auto x = c.lower_bound(k), y = c.lower_bound(k2);
          if (m.key_comp()(k2, k)) std::swap(a, b), std::swap(x, y);
          if (r.chance(1, 3)) b = m.end(), y = c.end();
          if (!r.chance(1, 6)) {  // seldom a long one
            int64_t len = 0;
            for (auto e = a; e != b; ++len)
              if (++e, len == 8) {
                y = e == m.end() ? c.end() : c.find(e->first);
                b = e;
                break;
              }
          }
          auto ret = c.erase(x, y);
          auto mr = m.erase(a, b);
          same(ret, c.end(), mr, m, "erase of a range");
        }
      } else if (r.chance(1, 4)) {
        auto mi = m.find(k);
        if (mi == m.end()) continue;
        auto ret = c.erase(c.find(k));
        same(ret, c.end(), m.erase(mi), m, "erase at an iterator");
      } else {
        CHECK(c.erase(k) == m.erase(k));
      }
    }
  }
  static void agree(M& c, const Model& m) {
    CHECK(c.size() == m.size());
    auto mi = m.begin();
    for (auto it = c.begin(); it != c.end(); ++it, ++mi) {
      CHECK(mi != m.end());
      CHECK(it->first == mi->first && it->second == mi->second);
    }
  }
  static Case gen(Rng& r) {
    Case c;
    int64_t leaf = static_cast<int64_t>(std::min<size_t>(T::leaf, 64));
    int64_t u = std::min<int64_t>(U() / 2, r.pick(std::vector<int64_t>{leaf, leaf * 4, leaf * 20, 900}));
    c.params = {static_cast<int64_t>(r.below(codec::kKeyModes)), u, r.range(2, 4)};
    size_t rounds = 1 + r.below(4);
    for (size_t i = 0; i < rounds; ++i) {
      c.ops.push_back({0, static_cast<int64_t>(r.next() >> 20), r.range(1, u + 1), 0});
      if (r.chance(1, 2)) c.ops.push_back({1, static_cast<int64_t>(r.next() >> 20), r.range(1, u), 0});
      c.ops.push_back({2 + static_cast<int>(r.below(5)), static_cast<int64_t>(r.next() >> 20), r.range(5, 60), 0});
    }
    return c;
  }
  // Several threads on one container.
  static void shared(M& c, const Case& cs, Stats& st) {
    Model m;
    int mode = static_cast<int>(cs.param(0) % codec::kKeyModes);
    int64_t u = std::max<int64_t>(1, cs.param(1));
    size_t nt = static_cast<size_t>(std::min<int64_t>(8, std::max<int64_t>(1, cs.param(2))));
    std::vector<std::vector<uint64_t>> hits(nt, std::vector<uint64_t>(9));
    for (auto& o : cs.ops) {
      Rng r(static_cast<uint64_t>(o.a));
      auto tr = [&](size_t t) { return Rng(static_cast<uint64_t>(o.a) + t * 7919); };
      switch (o.code) {
        case 0:
        case 1:
          change(c, m, r, u, mode, o.b, o.code == 0);
          break;
        case 2:
        case 3: {  // readers, const or not
          const M& cc = c;
          const Model& mm = m;
          together(nt, [&](size_t t) {
            Rng q = tr(t);
            for (int64_t i = 0; i < o.b; ++i)
              if (o.code == 2 || (t & 1)) read(cc, mm, q, u, mode, hits[t]);
              else read(c, mm, q, u, mode, hits[t]);
          });
          st.hit("reader_rounds");
          st.nontrivial |= m.size() > T::leaf || (T::cap != SIZE_MAX && m.size() > 1);
          break;
        }
        case 4: {  // each thread assigns and reads its own share of the values
          std::vector<K> keys;
          for (auto& [k, v] : m) keys.push_back(k);
          together(nt, [&](size_t t) {
            Rng q = tr(t);
            for (int64_t i = 0; i < o.b && !keys.empty(); ++i) {
              size_t j = q.below(keys.size());
              j = j - j % nt + t;
              if (j >= keys.size()) continue;
              auto it = c.find(keys[j]);
              CHECK(!(it == c.end()));
              V v = ValCodec<V>::make(q.range(0, 1000));
              it->second = v;
              m.find(keys[j])->second = v;
              CHECK(c.find(keys[j])->second == v);
              ++it;
              if (j + 1 < keys.size()) CHECK(!(it == c.end()) && it->first == keys[j + 1]);
            }
          });
          st.hit("assigning_rounds");
          break;
        }
        case 5: {  // copies taken at the same time, then changed apart
          if constexpr (std::is_copy_constructible_v<M>) {
            const M& cc = c;
            together(nt, [&](size_t t) {
              Rng q = tr(t);
              M mine(cc);
              Model mm = m;
              agree(mine, mm);
              change(mine, mm, q, u, mode, o.b, t & 1);
              agree(mine, mm);
              std::vector<uint64_t> h(9);
              read(cc, m, q, u, mode, h);
              if (t & 2) mine = cc, agree(mine, m);
            });
            st.hit("copying_rounds");
          }
          break;
        }
        case 6: {  // one thread after the other changes it
          for (size_t t = 0; t < nt; ++t) {
            std::string e;
            std::thread([&] {
              try {
                Rng q = tr(t);
                change(c, m, q, u, mode, o.b, !(t & 1));
                agree(c, m);
              } catch (const std::exception& x) {
                e = x.what();
              }
            }).join();
            CHECK_MSG(e.empty(), e);
          }
          st.hit("handovers");
          break;
        }
      }
      st.mixin(m.size() * 31 + static_cast<uint64_t>(o.code));
    }
    agree(c, m);
    for (auto& h : hits)
      for (auto x : h) st.hit("reads", x);
  }
};

template <class M>
void reg_shared(const char* name, unsigned w = 1) {
  static pbt::Register r1(
      std::string("shared_") + name, Session<M>::gen,
      [](const Case& c, Stats& st) {
        auto m = std::make_unique<M>();
        Session<M>::shared(*m, c, st);
      },
      w);
}

// ---- containers and pools of one's own ----------------------------------------
// Setup: makes (per thread) everything a container needs; make() -> M.
template <class Setup>
Case gen_own(Rng& r) {
  Case c;
  using M = typename Setup::M;
  int64_t leaf = static_cast<int64_t>(std::min<size_t>(Types<M>::leaf, 64));
  c.params = {static_cast<int64_t>(r.below(codec::kKeyModes)), leaf * r.range(2, 12), r.range(2, 4)};
  size_t n = 1 + r.below(5);
  for (size_t i = 0; i < n; ++i) c.ops.push_back({static_cast<int>(r.below(3)), static_cast<int64_t>(r.next() >> 20), r.range(1, c.params[1]), 0});
  return c;
}
template <class Setup>
void run_own(const Case& cs, Stats& st) {
  using M = typename Setup::M;
  using S = Session<M>;
  int mode = static_cast<int>(cs.param(0) % codec::kKeyModes);
  int64_t u = std::max<int64_t>(1, cs.param(1));
  size_t nt = static_cast<size_t>(std::min<int64_t>(8, std::max<int64_t>(1, cs.param(2))));
  std::vector<size_t> peak(nt);
  together(nt, [&](size_t t) {
    Setup s;
    auto c = s.make();
    typename S::Model m;
    std::vector<uint64_t> h(9);
    for (auto& o : cs.ops) {
      Rng q(static_cast<uint64_t>(o.a) + t * 104729);
      S::change(*c, m, q, u, mode, o.b, o.code != 1);
      peak[t] = std::max(peak[t], m.size());
      for (int i = 0; i < 10; ++i) S::read(*c, m, q, u, mode, h);
      if (o.code == 2) {
        M d(*c);
        S::agree(d, m);
        M e(std::move(d));
        S::agree(e, m);
      }
    }
    S::agree(*c, m);
    if (t & 1) {
      c->clear();
      m.clear();
      S::agree(*c, m);
    }
  });
  for (auto p : peak) {
    st.mixin(p);
    st.nontrivial |= p > Types<M>::leaf;
  }
  st.hit("threads", nt);
}
template <class Setup>
void reg_own(const char* name, unsigned w = 1) {
  static pbt::Register r1(std::string("own_") + name, gen_own<Setup>, run_own<Setup>, w);
}

template <class K, class V, SearchMode S>
struct OwnStd {
  using M = btree<K, V, 8, 8, std::less<K>, S>;
  std::unique_ptr<M> make() { return std::make_unique<M>(); }
};
template <class K, class V, bool Huge>
struct OwnPool {
  using A = HugePageAllocator<std::pair<K, V>>;
  using M = btree<K, V, 8, 8, std::less<K>, SearchMode::Binary, A>;
  std::unique_ptr<M> make() { return std::make_unique<M>(A(1 << 16, Huge, 1 << 16)); }
};
template <class K, class V>
struct OwnMulti {
  using A = MultiSizeHugePageAllocator<std::pair<K, V>>;
  using M = btree<K, V, 8, 8, std::less<K>, SearchMode::SIMD, A>;
  std::unique_ptr<M> make() { return std::make_unique<M>(A(std::make_shared<MultiSizeHugePagePool>(1 << 16, false, 1 << 16))); }
};
template <class K, class V>
struct OwnPolicy {
  using A = PolicyBasedHugePageAllocator<std::pair<K, V>, TwoPoolPolicy>;
  using M = btree<K, V, 8, 8, std::less<K>, SearchMode::Linear, A>;
  std::unique_ptr<M> make() {
    auto l = std::make_shared<HugePagePool>(1 << 16, false, 1 << 15), i = std::make_shared<HugePagePool>(1 << 15, false, 1 << 15);
    return std::make_unique<M>(A(TwoPoolPolicy{l, i}));
  }
};
template <class K, class V>
struct OwnMap {
  using M = dense_map<K, V, 24, std::less<K>, SearchMode::SIMD>;
  std::unique_ptr<M> make() { return std::make_unique<M>(); }
};

constexpr auto Bin = SearchMode::Binary;
constexpr auto Lin = SearchMode::Linear;
constexpr auto Simd = SearchMode::SIMD;
struct R {
  R() {
#if PART == 0
    reg_shared<btree<int, int, 8, 8, std::less<int>, Bin>>("tree_int_bin", 2);
    reg_shared<btree<int64_t, int64_t, 9, 8, std::greater<int64_t>, Simd>>("tree_i64_desc_simd");
    reg_own<OwnStd<int, int, Lin>>("tree_int_lin", 2);
#elif PART == 1
    reg_shared<btree<string, string, 8, 8, std::less<string>, Lin>>("tree_str_lin");
    reg_shared<btree<uint32_t, uint8_t>>("tree_u32_defaults");
    reg_own<OwnPool<int64_t, int64_t, false>>("tree_pool");
    reg_own<OwnPool<int, string, true>>("tree_pool_hugepages");
#elif PART == 2
    reg_shared<dense_map<int16_t, uint8_t, 40, std::less<int16_t>, Simd>>("map_i16_simd");
    reg_shared<dense_map<string, int, 17, std::less<string>, Bin>>("map_str_bin");
    reg_own<OwnMulti<uint64_t, int>>("tree_multi");
    reg_own<OwnPolicy<int, int64_t>>("tree_policy");
    reg_own<OwnMap<int, string>>("map_int");
#endif
  }
} r_;
}  // namespace
