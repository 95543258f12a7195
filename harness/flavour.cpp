// C05: contracts of the insertion flavours on values and arguments, including
// keys and values that are references into the container itself.
#ifndef PART
#define PART 0
#endif
#if PART != 0
#define PBT_NO_MAIN
#endif
#include <map>
#include <fast_containers/btree.hpp>

#include "codecs.hpp"
#include "pbt.hpp"
#include "track.hpp"

using namespace kressler::fast_containers;
using codec::KeyCodec;
using codec::show;
using codec::ValCodec;
using pbt::Case;
using pbt::Op;
using pbt::Rng;
using pbt::Stats;

namespace {
enum Op_ { Insert, InsertPair, Emplace, EmplaceHint, InsertHint, TryEmplace, TryEmplaceToken, IoaCopy, IoaMove, IoaToken,
           Subscript, EraseKey, EraseAliasKey, AliasInsert, AliasTry, AliasTryMoveOther, AliasIoa, AliasEmplace, AliasKeyFromValue,
           AliasHint, AliasPair, AliasSubscript, SubscriptAssign, EraseRun, kN };
const char* names[] = {"insert", "insert_pair", "emplace", "emplace_hint", "insert_hint", "try_emplace", "try_emplace_token",
                       "ioa_copy", "ioa_move", "ioa_token", "subscript", "erase_key", "erase_alias_key", "alias_insert",
                       "alias_try_emplace", "alias_try_emplace_const", "alias_ioa", "alias_emplace", "alias_key_from_value",
                       "alias_hint", "alias_pair", "alias_subscript", "subscript_assign", "erase_run"};

template <class T>
inline constexpr bool is_obj = false;
template <int G, size_t P>
inline constexpr bool is_obj<trk::Obj<G, P>> = true;
template <class T>
inline constexpr int tag_of = 3;
template <int G, size_t P>
inline constexpr int tag_of<trk::Obj<G, P>> = G;
template <class V>
bool eqv(const V& a, const V& b) {
  if constexpr (is_obj<V>) return a.same(b);
  else return a == b;
}

template <class M>
struct Sess {
  using K = typename M::key_type;
  using V = typename M::mapped_type;
  using C = typename M::key_compare;
  static constexpr bool kTree = requires(M& m) { m.equal_range(std::declval<const K&>()); };
  M d;
  std::map<K, V, C> m;
  Stats& st;
  int mode;
  int64_t u;
  size_t cap = SIZE_MAX;
  uint64_t alias_moved = 0, existing = 0;
  Sess(const Case& c, Stats& s) : st(s), mode(static_cast<int>(c.param(0))), u(std::max<int64_t>(1, c.param(1, 8))) {
    if constexpr (!kTree) cap = d.capacity();
  }
  K key(int64_t id) const { return KeyCodec<K>::make(((id % u) + u) % u, mode); }
  V val(int64_t id) const { return ValCodec<V>::make(id); }
  // stored element chosen by the case
  typename std::map<K, V, C>::iterator pick(int64_t i) {
    auto it = m.begin();
    std::advance(it, static_cast<int64_t>(static_cast<uint64_t>(i) % m.size()));
    return it;
  }
  void expect(const K& k, const char* what) {
    auto it = d.find(k);
    CHECK_MSG(it != d.end(), what << ": key missing afterwards");
    auto mi = m.find(k);
    CHECK_MSG(eqv(it->second, mi->second), what << ": value is " << show(it->second) << ", expected " << show(mi->second));
  }
  void all(const char* what) {
    CHECK_MSG(d.size() == m.size(), what << ": size");
    auto it = d.begin();
    for (auto& [k, v] : m) {
      CHECK_MSG(it != d.end(), what << ": iteration ends early");
      CHECK_MSG(!C()(it->first, k) && !C()(k, it->first), what << ": key " << show(it->first) << " where " << show(k) << " is expected");
      CHECK_MSG(eqv(it->second, v), what << ": value of key " << show(k) << " is " << show(it->second) << ", expected " << show(v));
      ++it;
    }
    CHECK(it == d.end());
    trk::check();
  }
  struct Snap {
    trk::Cnt c;
    Snap() : c(trk::g_cnt[tag_of<V>]) {}
    uint64_t ctor() const { return trk::g_cnt[tag_of<V>].constructed - c.constructed; }
    uint64_t touched() const { return trk::g_cnt[tag_of<V>].touched() - c.touched(); }
  };
  // No value object may be built, copied or assigned.
  void untouched(const Snap& s, const char* what) {
    if constexpr (is_obj<V> && tag_of<V> != tag_of<K>)
      CHECK_MSG(s.touched() == 0, what << " on a present key touched " << s.touched() << " value objects");
  }
  template <class R>
  void result(const R& r, bool had, const K& k, const char* what) {
    CHECK_MSG(r.second == !had, what << " returned " << r.second << " for a " << (had ? "present" : "absent") << " key");
    CHECK_MSG(!C()(r.first->first, k) && !C()(k, r.first->first), what << " returned a position at another key");
    CHECK_MSG(eqv(r.first->second, m.find(k)->second), what << ": value at the returned position is " << show(r.first->second)
                                                         << ", expected " << show(m.find(k)->second));
  }

  void apply(const Op& o) {
    const K k = key(o.a);
    const V v = val(o.b);
    const bool had = m.count(k) != 0;
    if (!had && m.size() >= cap && o.code != EraseKey && o.code != EraseAliasKey && o.code != EraseRun) return;
    if (m.size() >= cap && o.code != EraseKey && o.code != EraseAliasKey && o.code != EraseRun && o.code != IoaCopy && o.code != Subscript) return;
    if (had) ++existing;
    const char* what = o.code >= 0 && o.code < kN ? names[o.code] : "?";
    switch (o.code) {
      case Insert: {
        Snap s;
        auto r = d.insert(k, v);
        if (had) untouched(s, what);
        m.emplace(k, v);
        result(r, had, k, what);
        break;
      }
      case InsertPair:
        if constexpr (kTree) {
          const typename M::value_type p(k, v);
          Snap s;
          auto r = d.insert(p);
          if (had) untouched(s, what);
          m.emplace(k, v);
          result(r, had, k, what);
        }
        break;
      case Emplace:
        if constexpr (kTree) {
          auto r = d.emplace(k, v);
          m.emplace(k, v);
          result(r, had, k, what);
        }
        break;
      case EmplaceHint:
        if constexpr (kTree) {
          auto it = d.emplace_hint(d.lower_bound(k), k, v);
          m.emplace(k, v);
          result(std::pair{it, !had}, had, k, what);
        }
        break;
      case InsertHint:
        if constexpr (!kTree) {
          Snap s;
          auto r = d.insert_hint(d.lower_bound(k), k, v);
          if (had) untouched(s, what);
          m.emplace(k, v);
          result(r, had, k, what);
        }
        break;
      case TryEmplace: {
        Snap s;
        auto r = d.try_emplace(k, v);
        if (had) untouched(s, what);
        m.emplace(k, v);
        result(r, had, k, what);
        break;
      }
      case TryEmplaceToken:
        if constexpr (is_obj<V>) {
          if (o.c == 1) {  // two constructor arguments
            Snap s;
            auto r = d.try_emplace(k, o.b, int64_t{7});
            if (had) untouched(s, what);
            m.emplace(k, V(o.b, int64_t{7}));
            result(r, had, k, what);
          } else if (o.c == 2) {  // no argument: value-initialised
            Snap s;
            auto r = d.try_emplace(k);
            if (had) untouched(s, what);
            m.emplace(k, V());
            result(r, had, k, what);
          } else {
            trk::Token t(o.b);
            Snap s;
            auto r = d.try_emplace(k, std::move(t));
            if (had) untouched(s, what);
            CHECK_MSG(t.consumed == (had ? 0 : 1), "try_emplace consumed its argument " << t.consumed << " times on a " << (had ? "present" : "absent") << " key");
            m.emplace(k, V(o.b));
            result(r, had, k, what);
          }
        } else if constexpr (std::is_same_v<V, std::string>) {
          std::string arg(40, static_cast<char>('a' + o.b % 26));
          std::string keep = arg;
          auto r = d.try_emplace(k, std::move(arg));
          if (had) CHECK_MSG(arg == keep, "try_emplace consumed its argument on a present key");
          m.emplace(k, keep);
          result(r, had, k, what);
        } else {
          auto r = d.try_emplace(k);
          m.emplace(k, V{});
          result(r, had, k, what);
        }
        break;
      case IoaCopy: {
        auto r = d.insert_or_assign(k, v);
        m.insert_or_assign(k, v);
        result(r, had, k, what);
        break;
      }
      case IoaMove: {
        V w = v;
        auto r = d.insert_or_assign(k, std::move(w));
        m.insert_or_assign(k, v);
        result(r, had, k, what);
        break;
      }
      case IoaToken:
        if constexpr (is_obj<V> && !kTree) {
          if (!had) break;  // assignment from another type; insertion needs conversion
          (void)0;
        }
        if constexpr (std::is_same_v<V, std::string>) {
          auto r = d.insert_or_assign(k, "literal value that is long enough for the heap");
          m.insert_or_assign(k, "literal value that is long enough for the heap");
          result(r, had, k, what);
        }
        break;
      case Subscript: {
        V& ref = d[k];
        V& mref = m[k];
        CHECK_MSG(eqv(ref, mref), "operator[] on a " << (had ? "present" : "absent") << " key yields " << show(ref) << ", expected " << show(mref));
        break;
      }
      case SubscriptAssign:
        d[k] = v;
        m[k] = v;
        expect(k, what);
        break;
      case EraseKey: CHECK(d.erase(k) == m.erase(k)); break;
      case EraseRun:
        for (int64_t i = 0; i < o.b % 40; ++i) {
          K kk = key(o.a + i);
          CHECK(d.erase(kk) == m.erase(kk));
        }
        break;
      default: {
        if (m.empty()) break;
        auto src = pick(o.b);
        const K sk = src->first;
        const V sv = src->second;
        auto it = d.find(sk);
        CHECK_MSG(it != d.end(), "stored key not found");
        const K& rk = it->first;     // references into the container
        V& rv = it->second;
        switch (o.code) {
          case EraseAliasKey: CHECK(d.erase(rk) == 1); m.erase(sk); break;
          case AliasInsert: {
            auto r = d.insert(k, rv);
            m.emplace(k, sv);
            result(r, had, k, what);
            break;
          }
          case AliasTry: {
            auto r = d.try_emplace(k, rv);
            m.emplace(k, sv);
            result(r, had, k, what);
            break;
          }
          case AliasTryMoveOther: {
            auto r = d.try_emplace(k, std::as_const(rv));
            m.emplace(k, sv);
            result(r, had, k, what);
            break;
          }
          case AliasIoa: {
            auto r = d.insert_or_assign(k, rv);
            m.insert_or_assign(k, sv);
            result(r, had, k, what);
            break;
          }
          case AliasEmplace:
            if constexpr (kTree) {
              auto r = d.emplace(k, rv);
              m.emplace(k, sv);
              result(r, had, k, what);
            }
            break;
          case AliasHint:
            if constexpr (!kTree) {
              auto r = d.insert_hint(d.lower_bound(k), k, rv);
              m.emplace(k, sv);
              result(r, had, k, what);
            } else {
              auto p = d.emplace_hint(it, k, rv);
              m.emplace(k, sv);
              result(std::pair{p, !had}, had, k, what);
            }
            break;
          case AliasPair: {  // both arguments alias; the key is present
            auto r = d.insert_or_assign(rk, rv);
            result(r, true, sk, what);
            auto r2 = d.insert(rk, rv);
            result(r2, true, sk, what);
            auto r3 = d.try_emplace(rk, rv);
            result(r3, true, sk, what);
            break;
          }
          case AliasKeyFromValue:
            // the key argument refers to a stored value (key and value of one type)
            if constexpr (std::is_same_v<K, V>) {
              bool h2 = m.count(sv) != 0;
              if (!h2 && m.size() >= cap) break;
              switch (o.c % 4) {
                case 0: { auto r = d.insert(rv, v); m.emplace(sv, v); result(r, h2, sv, what); break; }
                case 1: { auto r = d.try_emplace(rv, rv); m.emplace(sv, sv); result(r, h2, sv, what); break; }
                case 2: { auto r = d.insert_or_assign(rv, v); m.insert_or_assign(sv, v); result(r, h2, sv, what); break; }
                default: { auto r = d.insert(rv, rv); m.emplace(sv, sv); result(r, h2, sv, what); break; }
              }
            }
            break;
          case AliasSubscript:
            if constexpr (std::is_same_v<K, V>) {
              bool h2 = m.count(sv) != 0;
              if (!h2 && m.size() >= cap) break;
              V& x = d[rv];
              CHECK_MSG(x == m[sv], "operator[] with a key that is a stored value");
              auto f = d.find(sv);
              CHECK_MSG(f != d.end(), "operator[] lost its key");
            } else {
              V& x = d[rk];
              CHECK(&x == &rv || !kTree || eqv(x, sv));
              CHECK(eqv(x, sv));
            }
            break;
          default: break;
        }
        if (!had) ++alias_moved;
        break;
      }
    }
    all(what);
  }
  void run(const Case& c) {
    for (auto& o : c.ops) {
      st.hit(o.code >= 0 && o.code < kN ? names[o.code] : "?");
      apply(o);
      st.mixin(m.size() * 31 + static_cast<uint64_t>(o.code));
    }
    if (alias_moved) st.hit("case_alias_with_insertion");
    if (existing) st.hit("case_with_present_key");
    st.nontrivial = alias_moved > 0 && existing > 0;
  }
};

template <class M>
void reg(const char* name, int64_t span, unsigned w = 1) {
  const int64_t uni = KeyCodec<typename M::key_type>::universe;
  pbt::configs().push_back(
      {name,
       [uni, span](Rng& r) {
         Case c;
         int64_t u = std::min<int64_t>(uni, 4 + static_cast<int64_t>(r.below(static_cast<uint64_t>(span))));
         c.params = {static_cast<int64_t>(r.below(3)), u};
         int64_t n = r.size(3, 90);
         for (int64_t i = 0; i < n; ++i) {
           int code;
           unsigned s = static_cast<unsigned>(r.below(100));
           if (s < 45) {
             static const int f[] = {Insert, InsertPair, Emplace, EmplaceHint, InsertHint, TryEmplace, TryEmplaceToken, IoaCopy,
                                     IoaMove, IoaToken, Subscript, SubscriptAssign};
             code = f[r.below(12)];
           } else if (s < 90) {
             static const int f[] = {AliasInsert, AliasTry, AliasTryMoveOther, AliasIoa, AliasEmplace, AliasKeyFromValue,
                                     AliasHint, AliasPair, AliasSubscript};
             code = f[r.below(9)];
           } else if (s < 97) code = r.chance(1, 3) ? EraseAliasKey : EraseKey;
           else code = EraseRun;
           c.ops.push_back({code, static_cast<int64_t>(r.below(static_cast<uint64_t>(u))), r.range(0, 5000), r.range(0, 3)});
         }
         return c;
       },
       [](const Case& c, Stats& s) {
         {
           Sess<M> ss(c, s);
           ss.run(c);
         }
         trk::check();
       },
       w});
}
constexpr auto Lin = SearchMode::Linear;
constexpr auto Bin = SearchMode::Binary;
constexpr auto Simd = SearchMode::SIMD;
using std::less;
using std::string;
using trk::TKey;
using trk::TVal;
struct R {
  R() {
#if PART == 0
    reg<btree<int64_t, TVal, 8, 8, less<int64_t>, Simd>>("tree_i64_obj", 120, 2);
    reg<btree<TKey, trk::TCoarse, 8, 8, less<TKey>, Bin>>("tree_obj_coarse", 120, 2);
#elif PART == 1
    reg<btree<string, string, 8, 8, less<string>, Lin>>("tree_str_str", 120, 2);
    reg<btree<TKey, TKey, 8, 9, less<TKey>, Bin>>("tree_same_obj", 120, 2);
#elif PART == 2
    reg<btree<int, int, 8, 8, less<int>, Simd>>("tree_int_int", 120, 2);
    reg<btree<int, string, 10, 8, less<int>, Bin>>("tree_int_str", 120, 1);
#elif PART == 3
    reg<dense_map<int64_t, TVal, 12, less<int64_t>, Simd>>("map_i64_obj", 20, 1);
    reg<dense_map<TKey, trk::TCoarse, 9>>("map_obj_coarse", 14, 1);
    reg<dense_map<TKey, TKey, 10>>("map_same_obj", 16, 1);
    reg<dense_map<string, string, 16, less<string>, Lin>>("map_str_str", 24, 1);
    reg<dense_map<int, int, 24, less<int>, Simd>>("map_int_int", 40, 1);
#endif
  }
} r_;
}  // namespace
