// Sessions over one array map with std::map as the oracle (C11, C20).
#pragma once
#include <map>
#include <fast_containers/dense_map.hpp>

#include "codecs.hpp"
#include "pbt.hpp"
#include "track.hpp"

using namespace kressler::fast_containers;
using codec::KeyCodec;
using codec::show;
using codec::ValCodec;
using pbt::Case;
using pbt::Op;
using pbt::Rng;
using pbt::Stats;

namespace dmod {
enum Op_ { Insert, InsertHint, TryEmplace, InsertOrAssign, Subscript, EraseKey, EraseAt, Clear, Lookup, UpdateKey,
           Mutate, FillUp, Drain, CopyRound, Assign, kN };
inline const char* names[] = {"insert", "insert_hint", "try_emplace", "insert_or_assign", "subscript", "erase_key", "erase_at",
                       "clear", "lookup", "update_key", "mutate", "fill_up", "drain", "copy_round", "assign"};

template <class M>
struct Sess {
  using K = typename M::key_type;
  using V = typename M::mapped_type;
  using C = typename M::key_compare;
  using Model = std::map<K, V, C>;
  M d;
  Model m;
  Stats& st;
  int mode;
  int64_t u;
  C cmp{};
  bool was_full = false, rejected = false, erased = false;
  Sess(const Case& c, Stats& s) : st(s), mode(static_cast<int>(c.param(0))), u(std::max<int64_t>(1, c.param(1, 8))) {}
  K key(int64_t id) const { return KeyCodec<K>::make(((id % u) + u) % u, mode); }
  bool eq(const K& a, const K& b) const { return !cmp(a, b) && !cmp(b, a); }
  size_t rank(typename Model::const_iterator it) const { return static_cast<size_t>(std::distance(m.begin(), it)); }

  void at(typename M::iterator it, typename Model::iterator mi, const char* what) {
    if (mi == m.end()) {
      CHECK_MSG(it == d.end(), what << ": expected end");
      return;
    }
    CHECK_MSG(it != d.end(), what << ": got end");
    CHECK_MSG(it.index() == rank(mi), what << ": index " << it.index() << " expected " << rank(mi));
    CHECK_MSG(eq(it->first, mi->first) && codec::same_rep(it->first, mi->first) && it->second == mi->second, what << ": wrong element");
    CHECK(&it->second == &it.value_ref());
  }

  void full_check() {
    const M& cd = d;
    CHECK_MSG(d.size() == m.size(), "size " << d.size() << " expected " << m.size());
    CHECK(d.empty() == m.empty());
    CHECK(d.full() == (m.size() == d.capacity()));
    auto it = d.begin();
    auto ci = cd.cbegin();
    for (auto& [k, v] : m) {
      CHECK_MSG(it != d.end(), "iteration ends early");
      CHECK_MSG(eq(it->first, k) && codec::same_rep(it->first, k) && it->second == v, "element " << show(it->first) << " where " << show(k) << " is expected");
      CHECK(eq(ci->first, k) && ci->second == v);
      ++it;
      ++ci;
    }
    CHECK(it == d.end());
    CHECK(ci == cd.cend());
  }

  void lookup(const K& k) {
    const M& cd = d;
    at(d.find(k), m.find(k), "find");
    at(d.lower_bound(k), m.lower_bound(k), "lower_bound");
    at(d.upper_bound(k), m.upper_bound(k), "upper_bound");
    CHECK(cd.find(k) - cd.begin() == (m.count(k) ? static_cast<int64_t>(rank(m.find(k))) : static_cast<int64_t>(m.size())));
    CHECK(static_cast<size_t>(cd.lower_bound(k) - cd.begin()) == rank(m.lower_bound(k)));
    CHECK(static_cast<size_t>(cd.upper_bound(k) - cd.begin()) == rank(m.upper_bound(k)));
    st.hit(m.count(k) ? "lookup_present" : "lookup_absent");
  }

  template <class F, class G>
  void ins(const K& k, F&& f, G&& g, bool existing_ok_when_full, const char* what) {
    bool had = m.count(k) != 0, full = m.size() == d.capacity();
    if (full) was_full = true;
    std::pair<typename M::iterator, bool> r{d.begin(), false};
    bool threw = false;
    try {
      r = f();
    } catch (const std::runtime_error&) {
      threw = true;
    }
    if (full && !had) {
      CHECK_MSG(threw, what << " of a new key into a full map did not throw");
      rejected = true;
      st.hit("rejected_full");
      return;
    }
    if (threw) {
      CHECK_MSG(full && had && !existing_ok_when_full, what << " threw with " << m.size() << " of " << d.capacity() << " used");
      st.hit("existing_on_full_threw");
      return;
    }
    g();
    CHECK_MSG(r.second == !had, what << " returned " << r.second);
    at(r.first, m.find(k), what);
    st.hit(had ? "insert_existing" : "insert_new");
  }

  void apply(const Op& o) {
    K k = key(o.a);
    V v = ValCodec<V>::make(o.b);
    switch (o.code) {
      case Insert: ins(k, [&] { return d.insert(k, v); }, [&] { m.emplace(k, v); }, false, "insert"); break;
      case InsertHint:
        ins(k, [&] { return d.insert_hint(d.lower_bound(k), k, v); }, [&] { m.emplace(k, v); }, false, "insert_hint");
        break;
      case TryEmplace: ins(k, [&] { return d.try_emplace(k, v); }, [&] { m.try_emplace(k, v); }, false, "try_emplace"); break;
      case InsertOrAssign:
        if (o.b & 1) ins(k, [&] { return d.insert_or_assign(k, v); }, [&] { m.insert_or_assign(k, v); }, true, "insert_or_assign");
        else ins(k, [&] { V w = v; return d.insert_or_assign(k, std::move(w)); }, [&] { m.insert_or_assign(k, v); }, true, "insert_or_assign");
        break;
      case Subscript: {
        bool had = m.count(k), full = m.size() == d.capacity();
        if (full && !had) {
          bool threw = false;
          try { d[k]; } catch (const std::runtime_error&) { threw = true; }
          CHECK_MSG(threw, "operator[] of a new key on a full map did not throw");
          rejected = true;
          break;
        }
        V& r = d[k];
        V& mr = m[k];
        CHECK_MSG(r == mr, "operator[] value");
        CHECK(&r == &d.find(k)->second);
        if (o.c) { r = v; mr = v; }
        break;
      }
      case EraseKey: {
        size_t e = m.erase(k);
        CHECK(d.erase(k) == e);
        erased |= e != 0;
        break;
      }
      case EraseAt: {
        if (m.empty()) break;
        auto mi = m.lower_bound(k);
        if (mi == m.end()) --mi;
        auto n = d.erase(d.begin() + static_cast<int64_t>(rank(mi)));
        mi = m.erase(mi);
        erased = true;
        at(n, mi, "erase(iterator)");
        break;
      }
      case Clear: d.clear(); m.clear(); break;
      case Lookup:
        for (int64_t i = -2; i <= 2; ++i) lookup(key(o.a + i));
        if (!m.empty()) { lookup(m.begin()->first); lookup(m.rbegin()->first); }
        break;
      case UpdateKey: {
        // replace a key by another one that keeps the order
        if (m.empty()) break;
        auto mi = m.lower_bound(k);
        if (mi == m.end()) --mi;
        auto it = d.find(mi->first);
        CHECK(it != d.end());
        K nk = key(o.b);
        auto nx = std::next(mi);
        bool lo = mi == m.begin() || cmp(std::prev(mi)->first, nk);
        bool hi = nx == m.end() || cmp(nk, nx->first);
        if (!lo || !hi) break;
        V old = mi->second;
        m.erase(mi);
        m.emplace(nk, old);
        d.unsafe_update_key(it, nk);
        st.hit("key_updated");
        break;
      }
      case Mutate: {
        if (m.empty()) break;
        auto mi = m.lower_bound(k);
        if (mi == m.end()) --mi;
        auto it = d.begin() + static_cast<int64_t>(rank(mi));
        mi->second = v;
        if (o.c) it->second = v; else it.value_ref() = v;
        break;
      }
      case FillUp:
        for (int64_t i = 0; i < 4 * u && m.size() < d.capacity(); ++i) {
          K kk = key(o.a + i * (o.c ? o.c : 1));
          V vv = ValCodec<V>::make(o.b + i);
          bool n = m.emplace(kk, vv).second;
          CHECK(d.insert(kk, vv).second == n);
        }
        if (d.full()) was_full = true;
        break;
      case Drain:
        for (int64_t i = 0; i < o.b && !m.empty(); ++i) {
          bool f = (o.a >> (i & 15)) & 1;
          auto mi = f ? m.begin() : std::prev(m.end());
          auto it = f ? d.begin() : d.end() - 1;
          at(it, mi, "end element");
          auto n = d.erase(it);
          mi = m.erase(mi);
          at(n, mi, "erase at an end");
          erased = true;
        }
        break;
      case CopyRound: {
        M e(d);
        M f;
        f = e;
        e.clear();
        CHECK(e.empty());
        M g(std::move(f));
        CHECK(f.empty());
        d.clear();
        d = std::move(g);
        CHECK(g.empty());
        M& self = d;
        d = self;
        break;
      }
      case Assign: {  // between this map and one of another size, both ways
        M other;
        Model om;
        auto grow = [&](M& x, Model& xm, int64_t n, int64_t from) {
          for (int64_t i = 0; i < n && xm.size() < x.capacity(); ++i) {
            K kk = key(from + i);
            V vv = ValCodec<V>::make(o.b + i);
            bool fresh = xm.emplace(kk, vv).second;
            if (fresh) CHECK(x.insert(kk, vv).second);
          }
        };
        grow(other, om, o.a % (static_cast<int64_t>(d.capacity()) + 1), o.b);
        auto agree = [&](M& x, const Model& xm, const char* what) {
          CHECK_MSG(x.size() == xm.size() && x.empty() == xm.empty(), what << ": size " << x.size() << " expected " << xm.size());
          auto i = x.begin();
          for (auto& [kk, vv] : xm) {
            CHECK_MSG(i != x.end() && eq(i->first, kk) && i->second == vv, what << ": elements differ");
            ++i;
          }
          CHECK_MSG(i == x.end(), what << ": more elements than it should have");
          for (auto& [kk, vv] : m) CHECK_MSG((x.find(kk) != x.end()) == xm.contains(kk), what << ": lookup of a key");
        };
        st.hit(om.empty() ? "assign_with_empty" : om.size() < m.size() ? "assign_with_smaller" : "assign_with_larger");
        switch (o.c & 7) {
          case 0: d = other; m = om; agree(other, om, "source of a copy assignment"); break;
          case 1: d = std::move(other); m = om; agree(other, {}, "moved-from map"); grow(other, om = {}, 3, o.a); agree(other, om, "reused moved-from map"); break;
          case 2: other = d; agree(other, m, "copy-assigned map"); break;
          case 3: other = std::move(d); agree(other, m, "move-assigned map"); m.clear(); break;
          case 4: {
            M e(d);
            agree(e, m, "copy-constructed map");
            grow(e, om = m, 2, o.a);
            if (!om.empty()) {
              CHECK(e.erase(om.begin()->first) == 1);
              om.erase(om.begin());
            }
            agree(e, om, "changed copy");
            break;
          }
          case 5: {
            M e(std::move(d));
            agree(e, m, "move-constructed map");
            agree(d, {}, "moved-from map");
            d = e;
            agree(e, m, "source of a copy assignment");
            break;
          }
          case 6: {
            M e(std::move(other));
            agree(e, om, "move-constructed map");
            agree(other, {}, "moved-from map");
            other = d;
            agree(other, m, "copy-assigned moved-from map");
            break;
          }
          default: {
            using std::swap;
            swap(d, other);
            agree(other, m, "swapped map");
            m.swap(om);
            break;
          }
        }
        break;
      }
      default: break;
    }
  }
  void run(const Case& c) {
    for (auto& o : c.ops) {
      st.hit(o.code >= 0 && o.code < kN ? names[o.code] : "?");
      apply(o);
      full_check();
      trk::check();
      st.mixin(m.size() * 31 + static_cast<uint64_t>(o.code));
    }
    if (was_full) st.hit("case_reached_capacity");
    if (rejected) st.hit("case_overflow_rejected");
    st.nontrivial = was_full && erased;
  }
};

template <class M>
void reg(const char* name, unsigned w = 1) {
  using K = typename M::key_type;
  const int64_t uni = KeyCodec<K>::universe;
  pbt::configs().push_back(
      {name,
       [uni](Rng& r) {
         Case c;
         int64_t cap = static_cast<int64_t>(M().capacity());
         int64_t u = cap / 2 + 1 + static_cast<int64_t>(r.below(static_cast<uint64_t>(cap) * 2 + 4));
         if (r.chance(1, 6)) u = 1 + static_cast<int64_t>(r.below(1000));
         u = std::min(u, uni);
         c.params = {static_cast<int64_t>(r.below(6)), u};
         int64_t n = r.size(3, 60 + cap);
         int ins = 60, left = 0;
         for (int64_t i = 0; i < n; ++i) {
           if (left-- <= 0) {
             left = static_cast<int>(r.range(4, 30));
             static const int p[] = {85, 60, 40, 15};
             ins = p[r.below(4)];
             if (r.chance(1, 3)) c.ops.push_back({FillUp, static_cast<int64_t>(r.below(static_cast<uint64_t>(u))), r.range(0, 1000), r.range(-3, 3)});
           }
           int64_t k = static_cast<int64_t>(r.below(static_cast<uint64_t>(u))), v = r.range(0, 100000);
           unsigned s = static_cast<unsigned>(r.below(100));
           if (s < 16) c.ops.push_back({Lookup, k, 0, 0});
           else if (s < 22) c.ops.push_back({UpdateKey, k, static_cast<int64_t>(r.below(static_cast<uint64_t>(u))), 0});
           else if (s < 26) c.ops.push_back({Mutate, k, v, r.range(0, 1)});
           else if (s < 29) c.ops.push_back({Drain, r.range(0, 65535), r.size(1, cap), 0});
           else if (s < 30) c.ops.push_back({Clear, 0, 0, 0});
           else if (s < 32) c.ops.push_back({CopyRound, 0, 0, 0});
           else if (s < 35) c.ops.push_back({Assign, r.chance(1, 4) ? 0 : r.range(0, cap), r.range(0, 1000), r.range(0, 7)});
           else if (static_cast<int>(r.below(100)) < ins) {
             static const int ic[] = {Insert, Insert, InsertHint, TryEmplace, InsertOrAssign, Subscript};
             c.ops.push_back({ic[r.below(6)], k, v, r.range(0, 1)});
           } else c.ops.push_back({r.chance(1, 2) ? EraseKey : EraseAt, k, 0, 0});
         }
         return c;
       },
       [](const Case& c, Stats& s) {
         {
           Sess<M> ss(c, s);
           ss.run(c);
         }
         trk::check();
       },
       w});
}

}  // namespace dmod
