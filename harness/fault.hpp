// Sessions in which operations fail: for every operation the k-th failure point
// (node memory, key/value copy, value construction) is made to throw for k = 0,
// 1, 2, ... until the operation gets through; after each failure the container
// must still be the ordered map it was (see C19).
#pragma once
#include <array>
#include <list>
#include <map>
#include <memory>
#include <optional>

#include "codecs.hpp"
#include "pbt.hpp"
#include "track.hpp"

namespace fm {
using codec::KeyCodec;
using codec::show;
using codec::ValCodec;
using pbt::Case;
using pbt::Op;
using pbt::Rng;
using pbt::Stats;

enum Op_ { Insert, InsertPair, Emplace, EmplaceHint, TryEmplace, TryEmplaceArg, Ioa, Subscript, EraseKey, ErasePos, EraseRange, Clear,
           CopyCtor, CopyAssign, RangeCtor, MoveAround, Fill, Drain, SwapBoth, MoveAssign, kOps };
inline const char* names[] = {"insert", "insert_pair", "emplace", "emplace_hint", "try_emplace", "try_emplace_arg", "insert_or_assign", "subscript", "erase_key",
                              "erase_position", "erase_range", "clear", "copy_construct", "copy_assign", "range_construct", "move_around", "fill", "drain", "swap", "move_assign"};

// How failures are injected.  arm(k): the k-th failure point fails; returns by
// disarm() whether it was reached.
struct TrackInjector {
  unsigned mask = trk::kAlloc | trk::kCopy | trk::kValue | trk::kDefault;
  static bool ours(const std::exception_ptr& e) {
    try {
      std::rethrow_exception(e);
    } catch (const trk::Injected&) {
      return true;
    } catch (...) {
      return false;
    }
  }
  void arm(int64_t k) {
    trk::g_inj.fired = 0;
    trk::arm(mask, k);
  }
  bool disarm() {
    trk::disarm();
    return trk::g_inj.fired != 0;
  }
};

template <class Cont, class Env, bool IsTree>
struct Faults {
  using K = typename Cont::key_type;
  using V = typename Cont::mapped_type;
  using Cmp = typename Cont::key_compare;
  using Model = std::map<K, V, Cmp>;
  Env env;
  struct Slot {
    std::unique_ptr<Cont> t;
    Model m;
  };
  std::array<Slot, 2> s;
  Stats& st;
  int mode;
  int64_t u;
  size_t cap;
  int policy, repeat;
  Cmp cmp{};
  uint64_t failures = 0, failed_inserts = 0, failed_erases = 0, gone = 0, steps = 0, big = 0, attempts = 0;

  Faults(const Case& c, Stats& x, size_t capacity)
      : env(c), st(x), mode(static_cast<int>(c.param(0))), u(std::max<int64_t>(1, c.param(1, 60))), cap(capacity), policy(static_cast<int>(c.param(2) % 3)),
        repeat(static_cast<int>(1 + c.param(3) % 3)) {
    for (auto& z : s) z.t = env.template make<Cont>();
  }
  K key(int64_t i) const { return KeyCodec<K>::make(((i % u) + u) % u, mode); }
  static V val(int64_t i) { return ValCodec<V>::make(i); }
  bool same(const K& a, const K& b) const { return !cmp(a, b) && !cmp(b, a); }

  // Contents of the container, checked for consistency.
  Model contents(Slot& x) {
    Model out;
    const Cont& c = *x.t;
    size_t n = 0;
    std::optional<K> last;
    for (auto it = x.t->begin(); it != x.t->end(); ++it, ++n) {
      CHECK_MSG(n < c.size(), "walking visits more elements than size() = " << c.size());
      if (last) CHECK_MSG(cmp(*last, it->first), "keys out of order: " << show(*last) << " before " << show(it->first));
      last = it->first;
      out.emplace(it->first, it->second);
    }
    CHECK_MSG(n == c.size(), "walking visits " << n << " elements, size() is " << c.size());
    CHECK(c.empty() == (n == 0));
    trk::check();
    return out;
  }
  void compare(Slot& x, const char* when) {
    size_t n = 0;
    auto it = x.t->begin();
    CHECK_MSG(x.t->size() == x.m.size(), when << ": size is " << x.t->size() << ", expected " << x.m.size());
    for (auto& [k, v] : x.m) {
      CHECK_MSG(it != x.t->end(), when << ": walk ends after " << n << " of " << x.m.size() << " elements");
      CHECK_MSG(same(it->first, k), when << ": element " << n << " is " << show(it->first) << ", expected " << show(k));
      CHECK_MSG(it->second == v, when << ": value of " << show(k) << " changed");
      ++it;
      ++n;
    }
    CHECK_MSG(it == x.t->end(), when << ": walk does not end after " << n << " elements");
    trk::check();
  }
  void lookups(Slot& x, const char* when) {
    const Cont& c = *x.t;
    for (auto& [k, v] : x.m) {
      auto f = c.find(k);
      CHECK_MSG(f != c.end() && f->second == v, when << ": " << show(k) << " not found");
    }
    size_t n = 0;
    for (auto r = x.t->rbegin(); r != x.t->rend(); ++r) ++n;
    CHECK_MSG(n == x.m.size(), when << ": backward walk visits " << n << " of " << x.m.size());
    for (int64_t i = 0; i < 6; ++i) {
      K k = key(static_cast<int64_t>(steps) * 7 + i * 3);
      auto lb = x.t->lower_bound(k);
      auto ml = x.m.lower_bound(k);
      CHECK_MSG((lb == x.t->end()) == (ml == x.m.end()), when << ": lower_bound(" << show(k) << ")");
      if (ml != x.m.end()) CHECK_MSG(same(lb->first, ml->first), when << ": lower_bound(" << show(k) << ")");
      if constexpr (IsTree) CHECK_MSG(x.t->contains(k) == (x.m.count(k) != 0), when << ": contains(" << show(k) << ")");
    }
    trk::check();
  }
  // Runs f with every failure point failing in turn.  after(): judges and
  // resynchronises after a failure; returns false to give up on the operation.
  template <class F, class G>
  bool attempt(F&& f, G&& after) {
    int64_t k = policy == 1 ? static_cast<int64_t>(steps * 5 % 11) : 0;
    int rep = 0;
    for (int tries = 0; tries < 400; ++tries) {
      ++attempts;
      env.arm(k);
      std::exception_ptr ep;
      try {
        f();
      } catch (...) {
        ep = std::current_exception();
      }
      bool fired = env.disarm();
      trk::check();
      if (!ep) return true;  // also when a failure was swallowed: the operation reported success
      if (!fired || !env.ours(ep)) std::rethrow_exception(ep);
      ++failures;
      if (!after()) return false;
      if (policy == 1) {
        k = tries < 3 ? k / 2 : 1000000;  // few points, then let it through
        continue;
      }
      if (++rep >= repeat) {
        rep = 0;
        k += 1 + (tries > 60 ? k / 8 : 0);  // many failure points: sampled
      }
      if (policy == 2 && tries > 12) k = 1000000;
    }
    pbt::fail("operation did not get through after 400 attempts");
  }
  bool unchanged(Slot& x, const char* what) {
    compare(x, what);
    if (failures % 4 == 0 || x.m.size() < 30) lookups(x, what);
    return true;
  }
  // After a failed removal: nothing outside [lo, hi] is affected.
  template <class In>
  bool removed_some(Slot& x, const char* what, In&& in_range) {
    Model now = contents(x);
    for (auto& [k, v] : x.m) {
      auto f = now.find(k);
      if (f == now.end()) {
        CHECK_MSG(in_range(k), what << " failed and lost " << show(k) << ", an element not to be removed");
        ++gone;
      } else {
        CHECK_MSG(f->second == v, what << " failed and changed the value of " << show(k));
      }
    }
    for (auto& [k, v] : now) CHECK_MSG(x.m.count(k), what << " failed and added " << show(k));
    x.m = now;
    lookups(x, what);
    ++failed_erases;
    return true;
  }

  template <class F>
  void insertion(Slot& x, const K& k, const V& v, bool assign, const char* what, F&& call) {
    bool had = x.m.count(k) != 0;
    bool ok = attempt(call, [&] {
      ++failed_inserts;
      if (had && assign) {  // the value being replaced is the one exception
        auto f = x.t->find(k);
        CHECK_MSG(f != x.t->end(), what << " failed and lost the element it was to replace");
        auto mi = x.m.find(k);
        if (!(f->second == mi->second)) {
          CHECK_MSG(f->second == v, what << " failed and left a value that is neither the old nor the new one");
          mi->second = v;
        }
      }
      return unchanged(x, what);
    });
    if (!ok) return;
    if (assign) x.m.insert_or_assign(k, v);
    else x.m.emplace(k, v);
    auto f = x.t->find(k);
    CHECK_MSG(f != x.t->end() && f->second == x.m.find(k)->second, what << ": element not found afterwards");
  }

  static bool may_fail(const char* what) {
    if (IsTree) pbt::fail(std::string(what) + " of trees failed");
    return true;
  }
  bool same_allocator() {
    if constexpr (IsTree) {
      using A = std::allocator_traits<typename Cont::allocator_type>;
      return A::propagate_on_container_move_assignment::value || s[0].t->get_allocator() == s[1].t->get_allocator();
    }
    return true;
  }

  void apply(const Op& o) {
    Slot& x = s[static_cast<size_t>(o.a < 0 ? -o.a : o.a) & 1];
    Slot& y = s[(static_cast<size_t>(o.a < 0 ? -o.a : o.a) & 1) ^ 1];
    Cont& t = *x.t;
    const K k = key(o.b);
    const V v = val(o.c);
    const char* what = names[o.code];
    bool full = x.m.size() >= cap;
    bool had = x.m.count(k) != 0;
    switch (o.code) {
      case Insert:
        if (full) break;
        insertion(x, k, v, false, what, [&] { t.insert(k, v); });
        break;
      case InsertPair:
        if (full) break;
        if constexpr (IsTree) {
          const std::pair<K, V> p(k, v);
          insertion(x, k, v, false, what, [&] { t.insert(p); });
        }
        break;
      case Emplace:
        if (full) break;
        if constexpr (IsTree) insertion(x, k, v, false, what, [&] { t.emplace(k, v); });
        break;
      case EmplaceHint:
        if (full) break;
        if constexpr (IsTree) insertion(x, k, v, false, what, [&] { t.emplace_hint(t.lower_bound(k), k, v); });
        else insertion(x, k, v, false, what, [&] { t.insert_hint(t.lower_bound(k), k, v); });
        break;
      case TryEmplace:
        if (full) break;
        insertion(x, k, v, false, what, [&] { t.try_emplace(k, v); });
        break;
      case TryEmplaceArg:
        if (full) break;
        if constexpr (std::is_constructible_v<V, int64_t>) insertion(x, k, V(static_cast<int64_t>(o.c)), false, what, [&] { t.try_emplace(k, static_cast<int64_t>(o.c)); });
        break;
      case Ioa:
        if (full && !had) break;
        insertion(x, k, v, true, what, [&] { t.insert_or_assign(k, v); });
        break;
      case Subscript: {
        if (full && !had) break;
        bool ok = attempt([&] { (void)t[k]; }, [&] {
          ++failed_inserts;
          return unchanged(x, what);
        });
        if (ok && !had) x.m.emplace(k, V());
        break;
      }
      case EraseKey: {
        size_t got = 0;
        if (attempt([&] { got = t.erase(k); }, [&] { return removed_some(x, what, [&](const K& z) { return same(z, k); }) && x.m.count(k) != 0; })) {
          CHECK_MSG(got == x.m.erase(k), "erase returned " << got);
        }
        break;
      }
      case ErasePos: {
        if (x.m.empty()) break;
        auto mi = x.m.lower_bound(k);
        if (mi == x.m.end()) mi = x.m.begin();
        const K target = mi->first;
        if (attempt([&] {
              trk::g_inj.mask = 0;  // finding the position is not part of the operation
              auto pos = t.find(target);
              env.rearm();
              auto next = t.erase(pos);
              trk::g_inj.mask = 0;
              auto mn = x.m.upper_bound(target);
              CHECK_MSG((next == t.end()) == (mn == x.m.end()), "erase returned a wrong position");
              if (mn != x.m.end()) CHECK_MSG(same(next->first, mn->first), "erase returned a wrong position");
            },
                    [&] { return removed_some(x, what, [&](const K& z) { return same(z, target); }) && x.m.count(target) != 0; }))
          x.m.erase(target);
        break;
      }
      case EraseRange:
        if constexpr (IsTree) {
          K a = k, b = key(o.c);
          if (cmp(b, a)) std::swap(a, b);
          auto in = [&](const K& z) { return !cmp(z, a) && !cmp(b, z); };
          if (attempt([&] { t.erase(t.lower_bound(a), t.upper_bound(b)); }, [&] { return removed_some(x, what, in); }))
            x.m.erase(x.m.lower_bound(a), x.m.upper_bound(b));
        }
        break;
      case Clear:
        if (attempt([&] { t.clear(); }, [&] { return removed_some(x, what, [](const K&) { return true; }); })) x.m.clear();
        break;
      case CopyCtor: {
        std::unique_ptr<Cont> n;
        if (attempt([&] { n = std::make_unique<Cont>(*y.t); }, [&] { return unchanged(y, what); })) {
          x.t = std::move(n);
          x.m = y.m;
        }
        break;
      }
      case CopyAssign:
        if (attempt([&] { t = static_cast<const Cont&>(*y.t); },
                    [&] {
                      unchanged(y, what);
                      // the target is valid: what it holds are old or new elements
                      Model now = contents(x);
                      for (auto& [kk, vv] : now) {
                        auto a = x.m.find(kk), b = y.m.find(kk);
                        CHECK_MSG((a != x.m.end() && a->second == vv) || (b != y.m.end() && b->second == vv), "copy assignment failed and left an element of neither side");
                      }
                      x.m = now;
                      lookups(x, what);
                      return true;
                    }))
          x.m = y.m;
        break;
      case RangeCtor:
        if constexpr (IsTree) {
          std::list<std::pair<K, V>> l;
          for (int64_t i = 0; i < std::min<int64_t>(o.c, 60); ++i) l.emplace_back(key(o.b + i * 7), val(i));
          std::unique_ptr<Cont> n;
          if (attempt([&] { n = env.template make_range<Cont>(l); }, [&] { return unchanged(x, what); })) {
            x.t = std::move(n);
            x.m.clear();
            for (auto& e : l) x.m.emplace(e.first, e.second);
          }
        }
        break;
      // Moving a tree may not fail at all (same allocator); moving an array map
      // builds a new one, and leaves both as they were if that fails.
      case MoveAround:
        attempt([&] {
          Cont tmp(std::move(*x.t));
          *x.t = std::move(tmp);
        },
                [&] { return may_fail(what) && unchanged(x, what); });
        break;
      case MoveAssign:
        if (!same_allocator()) break;
        if (attempt([&] { t = std::move(*y.t); }, [&] { return may_fail(what) && unchanged(x, what) && unchanged(y, what); })) {
          x.m = y.m;
          y.m.clear();
        }
        break;
      case SwapBoth:
        if (!same_allocator()) break;
        if (attempt([&] { std::swap(*s[0].t, *s[1].t); }, [&] { return may_fail(what) && unchanged(x, what) && unchanged(y, what); })) std::swap(s[0].m, s[1].m);
        break;
      case Fill:
        for (int64_t i = 0; i < std::min<int64_t>(o.c, 700); ++i) {
          if (x.m.size() >= cap) break;
          K kk = key(o.b + i * 3);
          V vv = val(i);
          t.try_emplace(kk, vv);
          x.m.emplace(kk, vv);
        }
        break;
      case Drain:
        for (int64_t i = 0; i < std::min<int64_t>(o.c, 700); ++i) {
          K kk = key(o.b + i * 2);
          CHECK(t.erase(kk) == x.m.erase(kk));
        }
        break;
      default: break;
    }
  }
  void run(const Case& c) {
    for (auto& o : c.ops) {
      Op q = o;
      q.code = ((o.code % kOps) + kOps) % kOps;
      st.hit(names[q.code]);
      uint64_t before = failures;
      apply(q);
      env.check();
      ++steps;
      if (failures != before) st.hit("operations_that_failed_and_recovered");
      for (auto& z : s) {
        big = std::max<uint64_t>(big, z.m.size());
        compare(z, names[q.code]);
        if (z.m.size() < 60 || steps % 8 == 0) lookups(z, names[q.code]);
      }
      st.mixin(s[0].m.size() * 31 + s[1].m.size() * 17 + static_cast<uint64_t>(q.code) + (failures - before) * 1009);
    }
    s[0].t.reset();
    s[1].t.reset();
    s[0].m.clear();
    s[1].m.clear();
    trk::check();
    env.finish();
    st.hit("failures_injected", failures);
    st.hit("failed_insertions", failed_inserts);
    st.hit("failed_removals", failed_erases);
    st.nontrivial = failed_inserts > 0 && failures > 2 && big > std::min<size_t>(cap - 1, 9);
  }
};

inline Case gen_fault(Rng& r, int64_t universe, bool tree) {
  Case c;
  static const int64_t us[] = {8, 20, 60, 150, 400};
  int64_t u = std::min(universe, tree ? us[r.below(5)] : us[r.below(3)]);
  c.params = {r.range(0, codec::kKeyModes - 1), u, r.range(0, 2), r.range(0, 2), r.range(0, 7)};
  int64_t n = r.size(3, 40);
  auto k = [&] { return static_cast<int64_t>(r.below(static_cast<uint64_t>(u))); };
  if (r.chance(3, 4)) c.ops.push_back({Fill, 0, k(), r.size(4, u)});
  if (r.chance(1, 3)) c.ops.push_back({Fill, 1, k(), r.size(4, u)});
  int64_t lean = r.range(0, 1);  // growing or shrinking
  for (int64_t i = 0; i < n; ++i) {
    if (r.chance(1, 10)) lean = r.range(0, 1);
    unsigned w = static_cast<unsigned>(r.below(100));
    int64_t a = r.chance(1, 5);
    if (w < 45) {
      if (lean == 0) c.ops.push_back({static_cast<int>(r.range(Insert, Subscript)), a, k(), r.range(0, 1000)});
      else c.ops.push_back({static_cast<int>(r.range(EraseKey, ErasePos)), a, k(), 0});
    } else if (w < 65) c.ops.push_back({static_cast<int>(r.range(Insert, Subscript)), a, k(), r.range(0, 1000)});
    else if (w < 78) c.ops.push_back({static_cast<int>(r.range(EraseKey, ErasePos)), a, k(), 0});
    else if (w < 82) {
      int64_t x = k();
      c.ops.push_back({EraseRange, a, x, r.chance(1, 3) ? k() : x + r.range(0, 30)});
    } else if (w < 83) c.ops.push_back({Clear, a, 0, 0});
    else if (w < 86) c.ops.push_back({CopyCtor, a, 0, 0});
    else if (w < 89) c.ops.push_back({CopyAssign, a, 0, 0});
    else if (w < 91) c.ops.push_back({RangeCtor, a, k(), r.range(0, 60)});
    else if (w < 92) c.ops.push_back({MoveAround, a, 0, 0});
    else if (w < 93) c.ops.push_back({SwapBoth, a, 0, 0});
    else if (w < 94) c.ops.push_back({MoveAssign, a, 0, 0});
    else if (w < 97) c.ops.push_back({Fill, a, k(), r.size(2, u)});
    else c.ops.push_back({Drain, a, k(), r.size(2, u)});
  }
  return c;
}
}  // namespace fm
