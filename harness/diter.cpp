// C13: laws of the array map's iterators over all (or sampled) pairs of positions
// against index arithmetic on a plain vector; copies and moves of the map.
#ifndef PART
#define PART 0
#endif
#if PART != 0
#define PBT_NO_MAIN
#endif
#include <algorithm>
#include <fast_containers/dense_map.hpp>
#include <iterator>

#include "codecs.hpp"
#include "pbt.hpp"
#include "track.hpp"

using namespace kressler::fast_containers;
using codec::KeyCodec;
using codec::show;
using codec::ValCodec;
using pbt::Case;
using pbt::Op;
using pbt::Rng;
using pbt::Stats;

namespace {
enum Op_ { Insert, Erase, AllPairs, Pair, Write, RWrite, CopyCtor, CopyAssign, MoveCtor, MoveAssign, SelfAssign, Walk, Clear, MovedFrom, kN };
const char* names[] = {"insert", "erase", "all_pairs", "pair", "write", "reverse_write", "copy_ctor", "copy_assign",
                       "move_ctor", "move_assign", "self_assign", "walk", "clear", "moved_from_use"};

template <class M>
struct Sess {
  using K = typename M::key_type;
  using V = typename M::mapped_type;
  using C = typename M::key_compare;
  using Vec = std::vector<std::pair<K, V>>;
  using It = typename M::iterator;
  using CIt = typename M::const_iterator;
  std::unique_ptr<M> dp = std::make_unique<M>();
  std::unique_ptr<M> other = std::make_unique<M>();
  Vec m, mo;
  Stats& st;
  int mode;
  int64_t u;
  C cmp{};
  uint64_t pairs = 0, writes = 0;
  Sess(const Case& c, Stats& s) : st(s), mode(static_cast<int>(c.param(0))), u(std::max<int64_t>(1, c.param(1, 8))) {}
  K key(int64_t id) const { return KeyCodec<K>::make(((id % u) + u) % u, mode); }
  bool eq(const K& x, const K& y) const { return !cmp(x, y) && !cmp(y, x); }

  template <class R>
  void elem(R&& r, size_t i, const char* what) {
    CHECK_MSG(eq(r.first, m[i].first), what << ": key " << show(r.first) << " at position " << i << ", expected " << show(m[i].first));
    CHECK_MSG(r.second == m[i].second, what << ": value differs at position " << i);
  }

  // the whole content through the simplest loop
  static void same(const M& d, const Vec& v, const C& cmp, const char* what) {
    CHECK_MSG(d.size() == v.size(), what << ": size " << d.size() << ", expected " << v.size());
    size_t i = 0;
    for (auto it = d.begin(); it != d.end(); ++it, ++i) {
      CHECK_MSG(i < v.size(), what << ": iteration runs past the end");
      CHECK_MSG(!cmp(it->first, v[i].first) && !cmp(v[i].first, it->first) && it->second == v[i].second, what << ": element " << i << " differs");
    }
    CHECK_MSG(i == v.size(), what << ": iteration ends early");
  }
  void both(const char* what) {
    same(*dp, m, cmp, what);
    same(*other, mo, cmp, what);
  }

  // Laws for one iterator type: mk(i) makes the iterator at position i.
  template <class I, class Mk>
  void laws(Mk mk, ptrdiff_t i, ptrdiff_t j, const char* what) {
    const ptrdiff_t n = static_cast<ptrdiff_t>(m.size());
    I a = mk(i), b = mk(j);
    CHECK_MSG(b - a == j - i, what << ": difference " << (b - a) << ", expected " << (j - i));
    CHECK_MSG((a == b) == (i == j) && (a != b) == (i != j), what << ": equality at " << i << "," << j);
    CHECK_MSG((a < b) == (i < j) && (a > b) == (i > j) && (a <= b) == (i <= j) && (a >= b) == (i >= j), what << ": ordering at " << i << "," << j);
    CHECK_MSG(a + (j - i) == b, what << ": a + n");
    CHECK_MSG((j - i) + a == b, what << ": n + a");
    CHECK_MSG(b - (j - i) == a, what << ": b - n");
    I t = a;
    I& rt = (t += (j - i));
    CHECK_MSG(t == b && &rt == &t, what << ": +=");
    I& rt2 = (t -= (j - i));
    CHECK_MSG(t == a && &rt2 == &t, what << ": -=");
    if (j < n) {
      elem(a[j - i], static_cast<size_t>(j), what);
      elem(*b, static_cast<size_t>(j), what);
    }
    if (i < n) {
      I x = a;
      I old = x++;
      CHECK_MSG(old == a && x - a == 1, what << ": post-increment");
      I y = a;
      CHECK_MSG(&++y == &y && y == x, what << ": pre-increment");
      I z = y--;
      CHECK_MSG(z == x && y == a, what << ": post-decrement");
      CHECK_MSG(&--x == &x && x == a, what << ": pre-decrement");
    }
    I cp(a);
    CHECK(cp == a);
    cp = b;
    CHECK(cp == b && (a == b) == (i == j));
    CHECK(std::distance(a, b) == j - i);
    CHECK(std::next(a, j - i) == b && std::prev(b, j - i) == a);
  }

  void pair(ptrdiff_t i, ptrdiff_t j) {
    ++pairs;
    M& d = *dp;
    const M& cd = d;
    const ptrdiff_t n = static_cast<ptrdiff_t>(m.size());
    laws<It>([&](ptrdiff_t k) { return d.begin() + k; }, i, j, "iterator");
    laws<CIt>([&](ptrdiff_t k) { return cd.begin() + k; }, i, j, "const_iterator");
    laws<CIt>([&](ptrdiff_t k) { return d.cend() - (n - k); }, i, j, "const_iterator from cend");
    laws<CIt>([&](ptrdiff_t k) { return CIt(d.begin() + k); }, i, j, "converted const_iterator");
    // mixed: conversion keeps the position
    It a = d.begin() + i;
    CIt ca = a;
    CIt cb = cd.begin() + j;
    CHECK_MSG(cb - ca == j - i && (ca == cb) == (i == j) && (ca < cb) == (i < j), "converted iterator compared with a const one");
    CHECK(ca.index() == static_cast<size_t>(i) && a.index() == static_cast<size_t>(i));
    if (i < n) {
      CHECK_MSG(&a->first == &ca->first && &a->second == &ca->second && &(*a).second == &a.value_ref() && &ca.value_ref() == &ca->second, "conversion designates another element");
      elem(*ca, static_cast<size_t>(i), "converted");
    }
    // reverse: rbegin()+k is position n-1-k
    rev(d.rbegin(), d.rend(), i, j, "reverse_iterator");
    rev(cd.rbegin(), cd.rend(), i, j, "const_reverse_iterator");
    rev(cd.crbegin(), cd.crend(), i, j, "crbegin");
  }
  template <class R>
  void rev(R rb, R re, ptrdiff_t i, ptrdiff_t j, const char* what) {
    const ptrdiff_t n = static_cast<ptrdiff_t>(m.size());
    CHECK_MSG(re - rb == n, what << ": rend - rbegin");
    R a = rb + i, b = rb + j;
    CHECK_MSG(b - a == j - i && (a == b) == (i == j) && (a < b) == (i < j) && (a > b) == (i > j), what << " comparisons");
    CHECK_MSG(re - a == n - i, what << ": distance to rend");
    if (i < n) elem(*a, static_cast<size_t>(n - 1 - i), what);
    if (j < n) elem(a[j - i], static_cast<size_t>(n - 1 - j), what);
    if (i < n) {
      R x = a;
      R old = x++;
      CHECK_MSG(old == a && x - a == 1 && --x == a, what << ": increment and decrement");
    }
  }

  void write(size_t i, int64_t v, int how) {
    M& d = *dp;
    V nv = ValCodec<V>::make(v);
    const ptrdiff_t p = static_cast<ptrdiff_t>(i);
    const ptrdiff_t n = static_cast<ptrdiff_t>(m.size());
    switch (how % 7) {
      case 0: (d.begin() + p)->second = nv; break;
      case 1: (*(d.begin() + p)).second = nv; break;
      case 2: d.begin()[p].second = nv; break;
      case 3: (d.end() - (n - p)).value_ref() = nv; break;
      case 4: (d.end())[p - n].second = nv; break;
      case 5: {
        auto r = d.rbegin() + (n - 1 - p);
        (*r).second = nv;
        break;
      }
      default: {
        auto&& ref = *(d.find(m[i].first));
        ref.second = nv;
        break;
      }
    }
    m[i].second = nv;
    ++writes;
  }

  void apply(const Op& o) {
    M& d = *dp;
    size_t n = m.size();
    switch (o.code) {
      case Insert: {
        if (n >= d.capacity()) break;
        K k = key(o.a);
        V v = ValCodec<V>::make(o.b);
        auto p = std::lower_bound(m.begin(), m.end(), k, [&](auto& e, const K& q) { return cmp(e.first, q); });
        if (p != m.end() && eq(p->first, k)) break;
        size_t at = static_cast<size_t>(p - m.begin());
        m.emplace(p, k, v);
        auto r = d.insert(k, v);
        CHECK(r.second && r.first - d.begin() == static_cast<ptrdiff_t>(at));
        break;
      }
      case Erase:
        if (n) {
          size_t i = static_cast<size_t>(o.a) % n;
          K k = m[i].first;
          d.erase(k);
          m.erase(m.begin() + static_cast<ptrdiff_t>(i));
        }
        break;
      case AllPairs: {
        ptrdiff_t step = n > 24 ? static_cast<ptrdiff_t>(n / 12) : 1;
        for (ptrdiff_t i = 0; i <= static_cast<ptrdiff_t>(n); i += step)
          for (ptrdiff_t j = 0; j <= static_cast<ptrdiff_t>(n); j += step) pair(i, j);
        break;
      }
      case Pair: pair(static_cast<ptrdiff_t>(static_cast<size_t>(o.a) % (n + 1)), static_cast<ptrdiff_t>(static_cast<size_t>(o.b) % (n + 1))); break;
      case Write:
      case RWrite:
        if (n) write(static_cast<size_t>(o.a) % n, o.b, static_cast<int>(o.c % 7 + 7));
        break;
      case CopyCtor: {
        M c(d);
        same(c, m, cmp, "copy");
        // independence, both ways
        if (n) {
          V nv = ValCodec<V>::make(o.a + 1);
          c.begin()->second = nv;
          same(d, m, cmp, "original after the copy was written");
          Vec mc = m;
          mc[0].second = nv;
          V nv2 = ValCodec<V>::make(o.b + 2);
          (d.end() - 1)->second = nv2;
          m.back().second = nv2;
          same(c, mc, cmp, "copy after the original was written");
          c.erase(mc[0].first);
          c.clear();
        }
        break;
      }
      case CopyAssign: {
        M& r = (*other = d);
        CHECK(&r == other.get());
        mo = m;
        break;
      }
      case MoveCtor: {
        auto nu = std::make_unique<M>(std::move(d));
        CHECK_MSG(d.empty() && d.size() == 0 && d.begin() == d.end(), "moved-from map is not empty");
        dp = std::move(nu);
        break;
      }
      case MoveAssign: {
        M& r = (*other = std::move(d));
        CHECK(&r == other.get());
        CHECK_MSG(d.empty() && d.begin() == d.end(), "moved-from map is not empty");
        mo = std::move(m);
        m.clear();
        std::swap(m, mo);
        std::swap(dp, other);
        break;
      }
      case SelfAssign: {
        M& alias = d;
        if (o.a & 1) d = alias;
        else d = std::move(alias);
        break;
      }
      case Walk: {
        const M& cd = d;
        Vec got;
        for (auto e : d) got.emplace_back(e.first, e.second);
        CHECK(got.size() == n);
        std::vector<std::pair<K, V>> cp(cd.begin(), cd.end());
        CHECK(cp.size() == n);
        size_t i = n;
        for (auto it = d.rbegin(); it != d.rend(); ++it) {
          CHECK(i > 0);
          elem(*it, --i, "reverse walk");
        }
        CHECK(i == 0);
        for (i = 0; i < n; ++i) {
          elem(cp[i], i, "copied out");
          elem(got[i], i, "range for");
        }
        i = n;
        for (auto it = d.end(); it != d.begin();) elem(*--it, --i, "backward walk");
        CHECK(static_cast<size_t>(std::count_if(cd.begin(), cd.end(), [](const auto&) { return true; })) == n);
        break;
      }
      case MovedFrom: {  // a moved-from map takes part again
        M tmp(std::move(*other));
        same(tmp, mo, cmp, "moved to");
        other->insert(key(o.a), ValCodec<V>::make(o.b));
        mo.clear();
        mo.emplace_back(key(o.a), ValCodec<V>::make(o.b));
        break;
      }
      case Clear: d.clear(); m.clear(); break;
      default: break;
    }
  }
  void run(const Case& c) {
    for (auto& o : c.ops) {
      Op q = o;
      q.code = ((o.code % kN) + kN) % kN;
      apply(q);
      both(names[q.code]);
      trk::check();
      st.hit(names[q.code]);
      st.mixin(m.size() * 64 + static_cast<uint64_t>(q.code));
    }
    st.hit("position_pairs", pairs);
    st.nontrivial = pairs >= 4 && writes > 0;
  }
};

template <class M>
void reg(const char* name) {
  pbt::configs().push_back({name,
       [](Rng& r) {
         using K = typename M::key_type;
         Case c;
         const int64_t cap = static_cast<int64_t>(M().capacity());
         int64_t u = std::min<int64_t>(KeyCodec<K>::universe, r.range(cap, cap * 3));
         c.params = {r.range(0, codec::kKeyModes - 1), u};
         int64_t n = r.size(8, 30);
         int64_t fill = r.chance(1, 3) ? cap : r.range(0, cap);
         for (int64_t i = 0; i < fill; ++i) c.ops.push_back({Insert, r.range(0, u - 1), r.range(0, 1000), 0});
         for (int64_t i = 0; i < n; ++i) {
           int code = r.chance(1, 4) ? static_cast<int>(Insert) : r.chance(1, 3) ? static_cast<int>(r.chance(1, 2) ? AllPairs : Write) : static_cast<int>(r.below(kN));
           if (code == Clear && r.chance(3, 4)) code = Write;
           c.ops.push_back({code, r.range(0, u - 1), r.range(0, 1000), r.range(0, 6)});
         }
         return c;
       },
       [](const Case& c, Stats& s) {
         {
           Sess<M> ss(c, s);
           ss.run(c);
         }
         trk::check();
       },
       1});
}

using SM = SearchMode;
struct Init {
  Init() {
#if PART == 0
    reg<dense_map<int, int, 1>>("int_int_1");
    reg<dense_map<int, int, 300>>("int_int_300");
    reg<dense_map<int, int, 7, std::less<int>, SM::SIMD>>("int_int_7_simd");
    reg<dense_map<uint64_t, uint8_t, 32, std::greater<uint64_t>, SM::Linear>>("u64_u8_32_greater");
#elif PART == 1
    reg<dense_map<std::string, std::string, 6>>("str_str_6");
    reg<dense_map<int16_t, std::string, 16, std::less<int16_t>, SM::SIMD>>("i16_str_16");
#elif PART == 2
    reg<dense_map<trk::TKey, trk::TVal, 9>>("trk_trk_9");
    reg<dense_map<double, codec::Blob<48>, 64, std::greater<double>, SM::SIMD>>("f64_blob_64");
#endif
  }
} init;
}  // namespace
