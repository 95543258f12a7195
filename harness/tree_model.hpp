// Model-based sessions over kressler::fast_containers::btree.
// The oracle is std::map with the same key type and comparator.
#pragma once
#include <functional>
#include <iterator>
#include <map>
#include <string>
#include <string_view>
#include <fast_containers/btree.hpp>

#include "codecs.hpp"
#include "pbt.hpp"

namespace tmod {
using namespace kressler::fast_containers;
using codec::KeyCodec;
using codec::show;
using codec::ValCodec;
using pbt::Case;
using pbt::Op;
using pbt::Rng;
using pbt::Stats;

struct NodeCounters {
  uint64_t allocs = 0, frees = 0;
  int64_t live() const { return static_cast<int64_t>(allocs - frees); }
};
inline NodeCounters g_nodes;

// std::allocator that counts node blocks (to classify cases: splits, merges).
template <class T>
struct CountAlloc {
  using value_type = T;
  CountAlloc() = default;
  template <class U>
  CountAlloc(const CountAlloc<U>&) {}
  T* allocate(std::size_t n) {
    ++g_nodes.allocs;
    return std::allocator<T>().allocate(n);
  }
  void deallocate(T* p, std::size_t n) {
    ++g_nodes.frees;
    std::allocator<T>().deallocate(p, n);
  }
  template <class U>
  bool operator==(const CountAlloc<U>&) const {
    return true;
  }
};

enum OpCode {
  kInsert = 0, kInsertPair, kEmplace, kEmplaceHint, kTryEmplace, kInsertOrAssign,
  kSubscript, kEraseKey, kEraseAt, kEraseRange, kClear, kProbe, kDeep, kBulkInsert,
  kBulkErase, kEraseIf, kEraseRankRange, kPopEnds, kMutate, kWalk, kOpCount
};
inline const char* op_name(int c) {
  static const char* n[] = {"insert", "insert_pair", "emplace", "emplace_hint", "try_emplace",
                            "insert_or_assign", "subscript", "erase_key", "erase_at", "erase_range",
                            "clear", "probe", "deep", "bulk_insert", "bulk_erase", "erase_if",
                            "erase_rank_range", "pop_ends", "mutate", "walk"};
  return c >= 0 && c < kOpCount ? n[c] : "?";
}

enum Aspect : unsigned { kOutcome = 1, kIter = 2, kLookup = 4, kPos = 8 };

// ---- generator --------------------------------------------------------------
struct GenParams {
  int64_t leaf, internal, universe;
  unsigned aspects;
};

inline Case gen_tree(Rng& r, const GenParams& g) {
  Case c;
  const int mode = static_cast<int>(r.below(codec::kKeyModes));
  // Universe: from "one leaf" to "several levels".
  int64_t targets[] = {g.leaf, g.leaf * 3, g.leaf * g.internal / 2, g.leaf * g.internal * 2,
                       g.leaf * g.internal * g.internal / 3};
  int64_t u = targets[r.below(5)];
  if (u > 6000) u = r.chance(1, 100) ? r.range(66000, 140000) : r.chance(1, 6) ? std::min<int64_t>(u, 30000) : r.range(200, 6000);
  u = std::max<int64_t>(4, u + static_cast<int64_t>(r.below(static_cast<uint64_t>(u) / 2 + 1)));
  if (u > g.universe) u = g.universe;
  c.params = {mode, u};
  int64_t nops = r.size(4, 260);
  int64_t cursor = static_cast<int64_t>(r.below(u));
  int phase_left = 0, p_ins = 50, dist = 0;
  int64_t hot = 0;
  auto key = [&]() -> int64_t {
    switch (dist) {
      case 1: cursor = (cursor + 1) % u; return cursor;
      case 2: cursor = (cursor + u - 1) % u; return cursor;
      case 3: return (hot + static_cast<int64_t>(r.below(static_cast<uint64_t>(g.leaf) * 2))) % u;
      case 4: return r.chance(1, 2) ? static_cast<int64_t>(r.below(3)) % u : (u - 1 - static_cast<int64_t>(r.below(3)) % u + u) % u;
      case 5: cursor = (cursor + 7) % u; return cursor;
      default: return static_cast<int64_t>(r.below(u));
    }
  };
  for (int64_t i = 0; i < nops; ++i) {
    if (phase_left-- <= 0) {
      phase_left = static_cast<int>(r.range(3, 60));
      static const int pi[] = {95, 70, 50, 30, 8};
      p_ins = pi[r.below(5)];
      dist = static_cast<int>(r.below(6));
      hot = static_cast<int64_t>(r.below(u));
      if (i == 0 && r.chance(3, 4)) {  // start from a filled tree
        int64_t n = r.range(1, u);
        static const int64_t strides[] = {1, -1, 2, 3, 7};
        c.ops.push_back({kBulkInsert, static_cast<int64_t>(r.below(u)), n, strides[r.below(5)]});
      }
    }
    Op o;
    unsigned special = static_cast<unsigned>(r.below(100));
    if (special < 12) {  // bulk / structural ops
      switch (r.below(8)) {
        case 0: o = {kBulkInsert, key(), r.size(1, std::max<int64_t>(2, u / 2)), r.range(-3, 3)}; break;
        case 1: o = {kBulkErase, key(), r.size(1, std::max<int64_t>(2, u / 2)), r.range(-3, 3)}; break;
        case 2: o = {kEraseIf, r.range(0, 9), r.range(2, 12), r.range(1, 11)}; break;
        case 3: o = {kEraseRankRange, static_cast<int64_t>(r.below(u)), r.size(0, u), 0}; break;
        case 4: o = {kPopEnds, r.range(0, 2), r.size(1, g.leaf * 4), 0}; break;
        case 5: o = {kEraseRange, key(), key(), r.range(0, 3)}; break;
        case 6: o = {kEraseRankRange, static_cast<int64_t>(r.below(u)), r.size(0, g.leaf * 3), 0}; break;
        default: o = r.chance(1, 8) ? Op{kClear, 0, 0, 0} : Op{kDeep, 0, 0, 0}; break;
      }
    } else if (special < 12 + ((g.aspects & kLookup) ? 30u : 4u)) {
      o = {kProbe, key(), r.range(0, 7), 0};
    } else if (special >= 46 && special < 66 && (g.aspects & kIter)) {
      o = {kWalk, static_cast<int64_t>(r.below(1000000)), r.size(1, 80), static_cast<int64_t>(r.below(6))};
    } else if (special >= 97) {
      o = {kMutate, key(), r.range(0, 1000), r.range(0, 3)};
    } else if (r.below(100) < static_cast<unsigned>(p_ins)) {
      static const int ic[] = {kInsert, kInsert, kInsertPair, kEmplace, kEmplaceHint, kTryEmplace, kInsertOrAssign, kSubscript};
      o = {ic[r.below(8)], key(), r.range(0, 100000), r.range(0, 1)};
    } else {
      o = {r.chance(1, 2) ? kEraseKey : kEraseAt, key(), r.chance(1, 4) ? 1 : 0, 0};
    }
    c.ops.push_back(o);
  }
  return c;
}

// ---- session ----------------------------------------------------------------
template <class Tree>
struct Session {
  using K = typename Tree::key_type;
  using V = typename Tree::mapped_type;
  using Cmp = typename Tree::key_compare;
  using Model = std::map<K, V, Cmp>;
  using It = typename Tree::iterator;
  using MIt = typename Model::iterator;

  Tree t;
  Model m;
  Stats& st;
  int mode;
  int64_t u;
  unsigned aspects;
  uint64_t step = 0;
  size_t peak = 0;
  Cmp cmp{};

  Session(const Case& c, Stats& s, unsigned asp)
      : st(s), mode(static_cast<int>(c.param(0))), u(std::max<int64_t>(1, c.param(1, 100))), aspects(asp) {}

  K key(int64_t id) const {
    int64_t x = id % u;
    if (x < 0) x += u;
    return KeyCodec<K>::make(x, mode);
  }
  static V val(int64_t id) { return ValCodec<V>::make(id); }
  bool eq(const K& a, const K& b) const { return !cmp(a, b) && !cmp(b, a); }

  // "it designates the element mi" (mi may be end)
  void check_at(const It& it, MIt mi, const char* what) {
    if (mi == m.end()) {
      CHECK_MSG(it == t.end(), what << ": expected end");
    } else {
      CHECK_MSG(it != t.end(), what << ": got end, expected key " << show(mi->first));
      CHECK_MSG(eq(it->first, mi->first), what << ": designates key " << show(it->first) << ", expected " << show(mi->first));
      CHECK_MSG(codec::same_rep(it->first, mi->first), what << ": holds key " << show(it->first) << " in place of the equivalent " << show(mi->first));
      CHECK_MSG(it->second == mi->second, what << ": wrong value at key " << show(mi->first));
      auto&& ref = *it;
      CHECK_MSG(eq(ref.first, mi->first) && ref.second == mi->second, what << ": operator* differs");
    }
  }
  // Position is exact, and the sequence can be walked from it both ways.
  void check_pos(const It& it, MIt mi, const char* what) {
    if (!(aspects & kPos)) return;
    check_at(it, mi, what);
    size_t lim = (m.size() <= 48 || step % 16 == 0) ? m.size() + 2 : 6;
    It f = it;
    MIt fm = mi;
    for (size_t i = 0; i < lim && fm != m.end(); ++i) {
      ++f;
      ++fm;
      check_at(f, fm, "walking forward from returned position");
    }
    It b = it;
    MIt bm = mi;
    for (size_t i = 0; i < lim && bm != m.begin() && !m.empty(); ++i) {
      --b;
      --bm;
      check_at(b, bm, "walking backward from returned position");
    }
    if (bm == m.begin()) CHECK_MSG(b == t.begin(), "walking back does not arrive at begin()");
  }

  void deep_content() {
    CHECK_MSG(t.size() == m.size(), "size " << t.size() << " expected " << m.size());
    CHECK(t.empty() == m.empty());
    auto it = t.begin();
    auto mi = m.begin();
    size_t n = 0;
    for (; mi != m.end(); ++mi, ++it, ++n) {
      CHECK_MSG(it != t.end(), "iteration stops after " << n << " of " << m.size());
      CHECK_MSG(eq(it->first, mi->first), "element " << n << " has key " << show(it->first) << " expected " << show(mi->first));
      CHECK_MSG(codec::same_rep(it->first, mi->first), "element " << n << " is key " << show(it->first) << " in place of the equivalent " << show(mi->first));
      CHECK_MSG(it->second == mi->second, "wrong value for key " << show(mi->first));
    }
    CHECK_MSG(it == t.end(), "extra elements after " << n);
    if (aspects & kOutcome) {
      for (auto& [k, v] : m) {
        auto f = t.find(k);
        CHECK_MSG(f != t.end(), "find misses stored key " << show(k));
        CHECK_MSG(eq(f->first, k) && f->second == v, "find(" << show(k) << ") designates another element");
      }
    }
  }

  template <class T2>
  void iter_full(T2& tr) {
    // forward
    {
      auto it = tr.begin();
      auto prev = it;
      size_t n = 0;
      for (auto mi = m.begin(); mi != m.end(); ++mi, ++n) {
        CHECK_MSG(it != tr.end(), "forward walk ends after " << n << " of " << m.size());
        CHECK_MSG(eq(it->first, mi->first) && it->second == mi->second, "forward walk element " << n << " is " << show(it->first) << " expected " << show(mi->first));
        auto old = it++;
        CHECK_MSG(eq(old->first, mi->first), "post-increment does not return the old position");
        auto back = it;
        --back;
        CHECK_MSG(back == old, "-- does not undo ++ at element " << n);
        prev = old;
      }
      CHECK(it == tr.end());
      (void)prev;
    }
    // backward
    {
      auto it = tr.end();
      size_t n = 0;
      for (auto mi = m.end(); mi != m.begin(); ++n) {
        --mi;
        CHECK_MSG(!(it == tr.begin()), "backward walk ends after " << n << " of " << m.size());
        auto old = it--;
        CHECK_MSG(eq(it->first, mi->first) && it->second == mi->second, "backward walk element " << n << " is " << show(it->first) << " expected " << show(mi->first));
        auto fwd = it;
        ++fwd;
        CHECK_MSG(fwd == old, "++ does not undo -- at backward element " << n);
      }
      CHECK(it == tr.begin());
    }
    // reverse iterators
    {
      auto it = tr.rbegin();
      size_t n = 0;
      for (auto mi = m.rbegin(); mi != m.rend(); ++mi, ++n) {
        CHECK_MSG(it != tr.rend(), "reverse walk ends after " << n << " of " << m.size());
        CHECK_MSG(eq(it->first, mi->first) && (*it).second == mi->second, "reverse walk element " << n << " is " << show(it->first) << " expected " << show(mi->first));
        auto old = it++;
        CHECK_MSG(eq(old->first, mi->first), "reverse post-increment does not return the old position");
        auto back = it;
        --back;
        CHECK_MSG(back == old, "-- does not undo ++ on reverse iterator at " << n);
      }
      CHECK(it == tr.rend());
      n = 0;
      for (auto mi = m.begin(); mi != m.end(); ++mi, ++n) {
        CHECK(!(it == tr.rbegin()));
        auto old = it--;
        CHECK_MSG(eq(it->first, mi->first), "reverse walk back element " << n << " is " << show(it->first) << " expected " << show(mi->first));
        CHECK(old != it);
      }
      CHECK(it == tr.rbegin());
    }
  }

  void deep() {
    st.hit("deep_checks");
    if (aspects & (kOutcome | kPos)) deep_content();
    if (aspects & kIter) {
      CHECK(t.size() == m.size());
      iter_full(t);
      const Tree& ct = t;
      iter_full(ct);
      CHECK((t.begin() == t.end()) == m.empty());
      CHECK((ct.cbegin() == ct.cend()) == m.empty());
      CHECK((ct.crbegin() == ct.crend()) == m.empty());
      CHECK(static_cast<size_t>(std::distance(t.begin(), t.end())) == m.size());
      if (!m.empty()) {
        CHECK(ct.cbegin() == t.begin());
        CHECK(ct.cend() == t.end());
        CHECK(eq(ct.crbegin()->first, m.rbegin()->first));
      }
    }
    if (aspects & kLookup) {
      if (m.size() <= 300 || step % 8 == 0)
        for (auto& [k, v] : m) probe_one(k, 0);
    }
  }

  void probe_one(const K& k, int64_t depth) {
    auto mf = m.find(k);
    auto mlb = m.lower_bound(k);
    auto mub = m.upper_bound(k);
    const Tree& ct = t;
    check_at(t.find(k), mf, "find");
    check_at(ct.find(k), mf, "find const");
    CHECK_MSG(t.contains(k) == (mf != m.end()), "contains(" << show(k) << ")");
    CHECK_MSG(t.count(k) == m.count(k), "count(" << show(k) << ")");
    check_at(t.lower_bound(k), mlb, "lower_bound");
    check_at(t.upper_bound(k), mub, "upper_bound");
    auto [lo, hi] = t.equal_range(k);
    check_at(lo, mlb, "equal_range.first");
    check_at(hi, mub, "equal_range.second");
    CHECK_MSG(lo == t.lower_bound(k) && hi == t.upper_bound(k), "equal_range differs from bounds for " << show(k));
    CHECK_MSG((lo == hi) == (mf == m.end()), "equal_range emptiness for " << show(k));
    bool threw = false;
    try {
      CHECK_MSG(t.at(k) == (mf != m.end() ? mf->second : V{}), "at(" << show(k) << ") returns another value");
      (void)ct.at(k);
    } catch (const std::out_of_range&) {
      threw = true;
    }
    CHECK_MSG(threw == (mf == m.end()), "at(" << show(k) << ") throw behaviour");
    bool cthrew = false;
    try {
      (void)ct.at(k);
    } catch (const std::out_of_range&) {
      cthrew = true;
    }
    CHECK_MSG(cthrew == threw, "at const(" << show(k) << ") throw behaviour");
    // bounds are positions in the same sequence as iteration
    if (depth > 0 && mlb != m.end()) {
      auto it = t.lower_bound(k);
      if (mlb != m.begin()) {
        --it;
        check_at(it, std::prev(mlb), "predecessor of lower_bound");
      }
    }
    CHECK(t.size() == m.size());
    st.hit(mf != m.end() ? "probe_present" : (mlb == m.end() ? "probe_above_all" : (mlb == m.begin() ? "probe_below_all" : "probe_between")));
  }

  void probe(const Op& o) {
    K k = key(o.a);
    probe_one(k, 1);
    if (aspects & kLookup) {
      for (int64_t d = 1; d <= o.b; ++d) {
        probe_one(key(o.a + d), 0);
        probe_one(key(o.a - d), 0);
      }
      if constexpr (std::is_arithmetic_v<K>) {
        probe_one(std::numeric_limits<K>::lowest(), 1);
        probe_one(std::numeric_limits<K>::max(), 1);
        probe_one(std::numeric_limits<K>::min(), 1);
        probe_one(K{}, 1);
        if constexpr (std::is_floating_point_v<K>) {
          probe_one(std::numeric_limits<K>::infinity(), 1);
          probe_one(-std::numeric_limits<K>::infinity(), 1);
          probe_one(-K{}, 1);
          probe_one(std::nextafter(k, std::numeric_limits<K>::infinity()), 1);
        } else {
          if (k != std::numeric_limits<K>::max()) probe_one(static_cast<K>(k + 1), 1);
          if (k != std::numeric_limits<K>::min()) probe_one(static_cast<K>(k - 1), 1);
        }
      }
      if (!m.empty()) {
        probe_one(m.begin()->first, 1);
        probe_one(m.rbegin()->first, 1);
      }
    }
  }

  void walk(const Op& o) {
    Rng r(static_cast<uint64_t>(o.a) * 77 + 5);
    if (m.empty()) {
      CHECK(t.begin() == t.end());
      CHECK(t.rbegin() == t.rend());
      return;
    }
    // start position
    It it = t.begin();
    MIt mi = m.begin();
    switch (o.c) {
      case 1: it = t.end(); mi = m.end(); break;
      case 2: case 3: { K k = key(static_cast<int64_t>(r.below(static_cast<uint64_t>(u)))); it = t.lower_bound(k); mi = m.lower_bound(k); break; }
      default: break;
    }
    if (o.c >= 4) {
      auto ri = o.c == 4 ? t.rbegin() : t.rend();
      auto rm = o.c == 4 ? m.rbegin() : m.rend();
      bool up = o.c == 4;
      for (int64_t i = 0; i < o.b; ++i) {
        if (r.chance(1, 4)) up = !up;
        if (up && rm != m.rend()) {
          if (r.chance(1, 2)) ++ri; else ri++;
          ++rm;
        } else if (!up && rm != m.rbegin()) {
          if (r.chance(1, 2)) --ri; else ri--;
          --rm;
        }
        if (rm == m.rend()) CHECK_MSG(ri == t.rend(), "reverse walk: expected rend");
        else CHECK_MSG(ri != t.rend() && eq(ri->first, rm->first) && ri->second == rm->second, "reverse walk at wrong element");
        CHECK((ri == t.rbegin()) == (rm == m.rbegin()));
      }
      st.hit("walk_reverse");
      return;
    }
    bool up = o.c != 1;
    for (int64_t i = 0; i < o.b; ++i) {
      if (r.chance(1, 4)) up = !up;
      if (up && mi != m.end()) {
        if (r.chance(1, 2)) ++it; else it++;
        ++mi;
      } else if (!up && mi != m.begin()) {
        if (r.chance(1, 2)) --it; else it--;
        --mi;
      }
      if (mi == m.end()) CHECK_MSG(it == t.end(), "walk: expected end");
      else check_at(it, mi, "walk");
      CHECK((it == t.begin()) == (mi == m.begin()));
      CHECK((it == t.end()) == (mi == m.end()));
    }
    st.hit("walk_forward");
  }

  void after_insert(const K& k, It it, bool inserted, bool had, const char* what) {
    if (aspects & kOutcome) {
      CHECK_MSG(inserted == !had, what << " returned " << inserted << " for " << (had ? "present" : "absent") << " key " << show(k));
    }
    if (aspects & kPos) check_pos(it, m.find(k), what);
    st.hit(had ? "insert_existing" : "insert_new");
  }

  void do_insert_like(const Op& o) {
    K k = key(o.a);
    V v = val(o.b);
    bool had = m.count(k) != 0;
    switch (o.code) {
      case kInsert: {
        // Every other time the value given is one that the tree holds
        auto from = o.c ? m.lower_bound(k) : m.end();
        if (from != m.end()) v = V(from->second);
        auto src = from != m.end() ? t.find(from->first) : t.end();
        auto [it, ins] = from != m.end() ? t.insert(k, (*src).second) : t.insert(k, v);
        m.emplace(k, v);
        after_insert(k, it, ins, had, "insert");
        break;
      }
      case kInsertPair: {
        auto [it, ins] = t.insert(typename Tree::value_type(k, v));
        m.emplace(k, v);
        after_insert(k, it, ins, had, "insert(pair)");
        break;
      }
      case kEmplace: {
        auto [it, ins] = t.emplace(k, v);
        m.emplace(k, v);
        after_insert(k, it, ins, had, "emplace");
        break;
      }
      case kEmplaceHint: {
        auto hint = o.c ? t.lower_bound(k) : t.begin();
        auto it = t.emplace_hint(hint, k, v);
        m.emplace(k, v);
        after_insert(k, it, !had, had, "emplace_hint");
        break;
      }
      case kTryEmplace: {
        auto [it, ins] = t.try_emplace(k, v);
        m.try_emplace(k, v);
        after_insert(k, it, ins, had, "try_emplace");
        break;
      }
      case kInsertOrAssign: {
        auto [it, ins] = t.insert_or_assign(k, v);
        m.insert_or_assign(k, v);
        after_insert(k, it, ins, had, "insert_or_assign");
        break;
      }
      default: {
        V& ref = t[k];
        V& mref = m[k];
        if (aspects & kOutcome) CHECK_MSG(ref == mref, "operator[] on " << (had ? "present" : "absent") << " key " << show(k));
        if (o.c) {
          ref = v;
          mref = v;
        }
        st.hit(had ? "insert_existing" : "insert_new");
        break;
      }
    }
  }

  void erase_at(MIt mi, const char* what) {
    K k = mi->first;
    It it = t.find(k);
    CHECK_MSG(it != t.end(), "find misses stored key " << show(k));
    auto mn = m.erase(mi);
    It n = t.erase(it);
    check_pos(n, mn, what);
    st.hit("erase_hit");
  }

  void apply(const Op& o) {
    switch (o.code) {
      case kInsert: case kInsertPair: case kEmplace: case kEmplaceHint:
      case kTryEmplace: case kInsertOrAssign: case kSubscript:
        do_insert_like(o);
        break;
      case kEraseKey: {
        K k = key(o.a);
        size_t e = m.erase(k);
        // The key given may be the one that the tree holds
        size_t g = e && o.b == 1 ? t.erase((*t.find(k)).first) : t.erase(k);
        if (aspects & kOutcome) CHECK_MSG(g == e, "erase(" << show(k) << ") returned " << g << " expected " << e);
        st.hit(e ? "erase_hit" : "erase_miss");
        break;
      }
      case kEraseAt: {
        if (m.empty()) break;
        auto mi = m.lower_bound(key(o.a));
        if (mi == m.end()) mi = std::prev(m.end());
        erase_at(mi, "erase(iterator)");
        break;
      }
      case kEraseRange: {
        K a = key(o.a), b = key(o.b);
        if (cmp(b, a)) std::swap(a, b);
        MIt ma = m.lower_bound(a), mb = (o.c & 1) ? m.upper_bound(b) : m.lower_bound(b);
        It ia = t.lower_bound(a), ib = (o.c & 1) ? t.upper_bound(b) : t.lower_bound(b);
        if (o.c == 2) { ib = t.end(); mb = m.end(); }
        if (o.c == 3) { ia = t.begin(); ma = m.begin(); }
        if (ma != mb) st.hit("range_erase_nonempty");
        It n = t.erase(ia, ib);
        MIt mn = m.erase(ma, mb);
        check_pos(n, mn, "erase(range)");
        break;
      }
      case kEraseRankRange: {
        size_t sz = m.size();
        size_t f = sz ? static_cast<size_t>(o.a) % (sz + 1) : 0;
        size_t n = std::min<size_t>(static_cast<size_t>(o.b), sz - f);
        MIt ma = std::next(m.begin(), static_cast<int64_t>(f)), mb = std::next(ma, static_cast<int64_t>(n));
        It ia = ma == m.end() ? t.end() : t.find(ma->first);
        It ib = mb == m.end() ? t.end() : t.find(mb->first);
        if (n) st.hit("range_erase_nonempty");
        It r = t.erase(ia, ib);
        MIt mr = m.erase(ma, mb);
        check_pos(r, mr, "erase(range)");
        if (aspects & (kOutcome | kPos)) CHECK_MSG(t.size() == m.size(), "range erase left " << t.size() << " elements, expected " << m.size());
        break;
      }
      case kClear:
        t.clear();
        m.clear();
        st.hit("clear");
        break;
      case kProbe:
        probe(o);
        break;
      case kDeep:
        deep();
        break;
      case kBulkInsert: {
        int64_t stride = o.c == 0 ? 1 : o.c;
        for (int64_t i = 0; i < o.b; ++i) {
          K k = key(((o.a + i * stride) % u + u) % u);
          V v = val(o.a + i);
          auto [mi, mins] = m.emplace(k, v);
          auto [it, ins] = t.insert(k, v);
          if (aspects & kOutcome) CHECK_MSG(ins == mins, "bulk insert outcome for " << show(k));
          if ((aspects & kPos) && (i & 3) == 0) check_at(it, mi, "insert");
        }
        st.hit("bulk_insert");
        break;
      }
      case kBulkErase: {
        int64_t stride = o.c == 0 ? 1 : o.c;
        for (int64_t i = 0; i < o.b; ++i) {
          K k = key(((o.a + i * stride) % u + u) % u);
          if ((aspects & kPos)) {
            auto mi = m.find(k);
            auto it = t.find(k);
            if (mi == m.end()) continue;
            CHECK(it != t.end());
            auto mn = m.erase(mi);
            auto n = t.erase(it);
            check_at(n, mn, "erase(iterator) in bulk");
          } else {
            size_t e = m.erase(k), g = t.erase(k);
            if (aspects & kOutcome) CHECK_MSG(e == g, "bulk erase outcome for " << show(k));
          }
        }
        st.hit("bulk_erase");
        break;
      }
      case kEraseIf: {
        // erase while iterating: the classic loop
        It it = t.begin();
        MIt mi = m.begin();
        int64_t i = 0;
        size_t budget = m.size() + 2;
        while (mi != m.end()) {
          CHECK_MSG(budget-- > 0, "erase-while-iterating does not end");
          if (aspects & kPos) {
            check_at(it, mi, "erase-while-iterating");
          } else {
            CHECK_MSG(it != t.end(), "erase-while-iterating stops early");
          }
          bool kill = (i++ + o.a) % std::max<int64_t>(1, o.b) < o.c;
          if (kill) {
            it = t.erase(it);
            mi = m.erase(mi);
            st.hit("erase_hit");
          } else {
            ++it;
            ++mi;
          }
        }
        CHECK_MSG(it == t.end(), "erase-while-iterating does not arrive at end()");
        st.hit("erase_if");
        break;
      }
      case kPopEnds: {
        for (int64_t i = 0; i < o.b && !m.empty(); ++i) {
          bool front = o.a == 0 || (o.a == 2 && (i & 1));
          It it = front ? t.begin() : std::prev(t.end());
          MIt mi = front ? m.begin() : std::prev(m.end());
          if (aspects & kPos) check_at(it, mi, "end element");
          It n = t.erase(it);
          MIt mn = m.erase(mi);
          if (aspects & kPos) check_at(n, mn, "erase at an end");
          st.hit("erase_hit");
        }
        break;
      }
      case kMutate: {
        auto mi = m.lower_bound(key(o.a));
        if (mi == m.end()) break;
        V v = val(o.b);
        switch (o.c) {
          case 0: t.at(mi->first) = v; break;
          case 1: t.find(mi->first)->second = v; break;
          case 2: (*t.lower_bound(mi->first)).second = v; break;
          default: t[mi->first] = v; break;
        }
        mi->second = v;
        break;
      }
      case kWalk:
        walk(o);
        break;
      default:
        break;
    }
  }

  void run(const Case& c, int64_t leaf) {
    uint64_t frees0 = g_nodes.frees;
    uint64_t erase_frees = 0;
    for (auto& o : c.ops) {
      ++step;
      st.hit(op_name(o.code));
      uint64_t fb = g_nodes.frees;
      apply(o);
      if (o.code == kEraseKey || o.code == kEraseAt || o.code == kEraseRange || o.code == kBulkErase ||
          o.code == kEraseIf || o.code == kEraseRankRange || o.code == kPopEnds)
        erase_frees += g_nodes.frees - fb;
      peak = std::max(peak, m.size());
      st.mixin(m.size() * 31 + static_cast<uint64_t>(o.code));
      CHECK_MSG(t.size() == m.size(), "after " << op_name(o.code) << ": size " << t.size() << " expected " << m.size());
      CHECK(t.empty() == m.empty());
      if (m.size() <= 40 || step % 24 == 0) deep();
    }
    ++step;
    deep();
    st.mixin(peak);
    if (erase_frees) st.hit("case_with_node_merge");
    if (peak > static_cast<size_t>(leaf)) st.hit("case_multi_leaf");
    if (peak > static_cast<size_t>(leaf * leaf)) st.hit("case_three_levels_or_more");
    (void)frees0;
    // Non-trivial: the tree had several leaves and some erase freed a node
    // (when the allocator does not count, at least one successful erase).
    st.nontrivial = peak > static_cast<size_t>(leaf) && (erase_frees > 0 || st.counters.count("erase_hit"));
  }
};

template <class K, class V, size_t L, size_t I, class C, SearchMode S, class A>
struct SizeOf {};

template <class Tree>
struct Params;
template <class K, class V, size_t L, size_t I, class C, SearchMode S, class A>
struct Params<btree<K, V, L, I, C, S, A>> {
  static constexpr int64_t leaf = L, internal = I;
};

template <class Tree>
void reg(const char* name, unsigned aspects, unsigned weight = 1) {
  GenParams g{Params<Tree>::leaf, Params<Tree>::internal, KeyCodec<typename Tree::key_type>::universe, aspects};
  pbt::configs().push_back({name, [g](Rng& r) { return gen_tree(r, g); },
                            [aspects](const Case& c, Stats& s) {
                              Session<Tree> ss(c, s, aspects);
                              ss.run(c, Params<Tree>::leaf);
                            },
                            weight});
}
}  // namespace tmod
