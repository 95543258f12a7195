// Sessions over several trees at once: copies, moves, assignments, swaps,
// destruction, construction from ranges, with stateful allocators whose arenas
// come and go.  Oracles: one std::map per tree, a ledger per arena, the object
// ledger of track.hpp, and references/iterators that must follow their elements.
#pragma once
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <typeinfo>
#include <fast_containers/btree.hpp>

#include "codecs.hpp"
#include "pbt.hpp"
#include "track.hpp"

namespace mm {
using namespace kressler::fast_containers;
using codec::KeyCodec;
using codec::show;
using codec::ValCodec;
using pbt::Case;
using pbt::Op;
using pbt::Rng;
using pbt::Stats;

constexpr int kSlots = 5;
enum Op_ { Create, CreateRange, CreateIlist, CopyCtor, MoveCtor, CopyAssign, MoveAssign, SelfCopy, SelfMove, Swap, StdSwap,
           Destroy, Insert, Erase, BulkInsert, BulkErase, Clear, Subscript, Hold, KillArena, EraseRange, MoveOutIn, kN };
inline const char* names[] = {"create", "create_range", "create_ilist", "copy_ctor", "move_ctor", "copy_assign", "move_assign",
                              "self_copy_assign", "self_move_assign", "swap", "std_swap", "destroy", "insert", "erase",
                              "bulk_insert", "bulk_erase", "clear", "subscript", "hold_refs", "kill_arena", "erase_range", "move_out_in"};

// ---- stateful allocator with every combination of traits --------------------
struct Arena {
  int id = 0;
  bool alive = true;
  std::map<const void*, std::pair<size_t, const std::type_info*>> blocks;
};
inline std::vector<std::unique_ptr<Arena>>& arenas() {
  static std::vector<std::unique_ptr<Arena>> v;
  return v;
}
enum Traits_ : unsigned { kPocca = 1, kPocma = 2, kPocs = 4, kSoccc = 8 };

template <class T, unsigned Tr>
struct ArenaAlloc {
  using value_type = T;
  using is_always_equal = std::false_type;
  using propagate_on_container_copy_assignment = std::bool_constant<(Tr & kPocca) != 0>;
  using propagate_on_container_move_assignment = std::bool_constant<(Tr & kPocma) != 0>;
  using propagate_on_container_swap = std::bool_constant<(Tr & kPocs) != 0>;
  template <class U>
  struct rebind {
    using other = ArenaAlloc<U, Tr>;
  };
  Arena* a;
  explicit ArenaAlloc(Arena* x) : a(x) {}
  template <class U>
  ArenaAlloc(const ArenaAlloc<U, Tr>& o) : a(o.a) {}
  ArenaAlloc select_on_container_copy_construction() const {
    return (Tr & kSoccc) ? ArenaAlloc(arenas()[0].get()) : *this;
  }
  T* allocate(size_t n) {
    if (!a->alive) trk::note("allocation from an arena that is gone");
    trk::maybe_throw(trk::kAlloc);
    void* p = ::operator new(n * sizeof(T), std::align_val_t(alignof(T)));
    a->blocks[p] = {n * sizeof(T), &typeid(T)};
    return static_cast<T*>(p);
  }
  void deallocate(T* p, size_t n) {
    if (!a->alive) trk::note("block returned to an arena that is gone");
    auto it = a->blocks.find(p);
    if (it == a->blocks.end()) {
      const char* why = "block returned that no arena handed out (or returned twice)";
      for (auto& o : arenas())
        if (o->blocks.count(p)) why = "block returned to another arena than the one it came from";
      trk::note(why);
      return;
    }
    if (it->second.first != n * sizeof(T) || *it->second.second != typeid(T)) trk::note("block returned with another size or type than it was obtained with");
    a->blocks.erase(it);
    ::operator delete(p, std::align_val_t(alignof(T)));
  }
  template <class U>
  bool operator==(const ArenaAlloc<U, Tr>& o) const { return a == o.a; }
};

// Environment over arenas. Tree uses ArenaAlloc.
template <class TreeT, unsigned Tr>
struct ArenaEnv {
  using Tree = TreeT;
  using Alloc = typename Tree::allocator_type;
  static constexpr bool tracked = true;  // allocator identities are predictable
  static constexpr bool swappable = false;
  std::vector<Arena*> cur;               // current arena of each number
  ArenaEnv() {
    arenas().clear();
    for (int i = 0; i < 3; ++i) cur.push_back(fresh(i));
  }
  static Arena* fresh(int i) {
    arenas().push_back(std::make_unique<Arena>());
    arenas().back()->id = i;
    return arenas().back().get();
  }
  Alloc alloc(int i) { return Alloc(cur[static_cast<size_t>(i) % 3]); }
  static bool same(const Tree& t, const Alloc& a) { return t.get_allocator() == a; }
  // Ends the life of arena i if no tree draws from it; arena 0 is the default.
  template <class F>
  bool kill(int i, F&& used) {
    i = 1 + i % 2;
    Arena* a = cur[static_cast<size_t>(i)];
    if (used(Alloc(a))) return false;
    if (!a->blocks.empty()) pbt::fail("an arena no tree draws from still has blocks out");
    a->alive = false;
    cur[static_cast<size_t>(i)] = fresh(i);
    return true;
  }
  void finish() {
    for (auto& a : arenas())
      if (!a->blocks.empty()) pbt::fail(std::to_string(a->blocks.size()) + " blocks never returned");
    arenas().clear();
  }
};

struct GlobalBlocks {
  std::map<const void*, size_t> m;
};
inline GlobalBlocks g_std_blocks;
// Stateless, always equal, counting.
template <class T>
struct PlainAlloc {
  using value_type = T;
  PlainAlloc() = default;
  template <class U>
  PlainAlloc(const PlainAlloc<U>&) {}
  T* allocate(size_t n) {
    trk::maybe_throw(trk::kAlloc);
    T* p = std::allocator<T>().allocate(n);
    g_std_blocks.m[p] = n * sizeof(T);
    return p;
  }
  void deallocate(T* p, size_t n) {
    auto it = g_std_blocks.m.find(p);
    if (it == g_std_blocks.m.end()) {
      trk::note("block returned twice or never obtained");
      return;
    }
    if (it->second != n * sizeof(T)) trk::note("block returned with another size");
    g_std_blocks.m.erase(it);
    std::allocator<T>().deallocate(p, n);
  }
  template <class U>
  bool operator==(const PlainAlloc<U>&) const { return true; }
};
template <class TreeT>
struct PlainEnv {
  using Tree = TreeT;
  using Alloc = typename Tree::allocator_type;
  static constexpr bool tracked = true;
  static constexpr bool swappable = true;
  PlainEnv() { g_std_blocks.m.clear(); }
  Alloc alloc(int) { return Alloc(); }
  static bool same(const Tree&, const Alloc&) { return true; }
  template <class F>
  bool kill(int, F&&) { return false; }
  void finish() {
    if (!g_std_blocks.m.empty()) pbt::fail(std::to_string(g_std_blocks.m.size()) + " blocks never returned");
  }
};

template <class Env>
struct Multi {
  using Tree = typename Env::Tree;
  using Alloc = typename Env::Alloc;
  using AT = std::allocator_traits<Alloc>;
  using K = typename Tree::key_type;
  using V = typename Tree::mapped_type;
  using Cmp = typename Tree::key_compare;
  using Model = std::map<K, V, Cmp>;
  struct Ref {
    K key;
    const V* addr;
    typename Tree::iterator it;
  };
  struct Slot {
    std::unique_ptr<Tree> t;
    Model m;
    std::optional<Alloc> al;
    std::vector<Ref> refs;
  };
  Env env;
  std::vector<Slot> s = std::vector<Slot>(kSlots);
  Stats& st;
  int mode;
  int64_t u;
  Cmp cmp{};
  uint64_t transfers = 0, copies = 0, big = 0, steps = 0;
  bool refs_kept = false;

  Multi(const Case& c, Stats& x) : st(x), mode(static_cast<int>(c.param(0))), u(std::max<int64_t>(1, c.param(1, 50))) {
    for (int i = 0; i < 2; ++i) create(i, i);
  }
  K key(int64_t id) const { return KeyCodec<K>::make(((id % u) + u) % u, mode); }
  static V val(int64_t v) { return ValCodec<V>::make(v); }
  bool eq(const K& a, const K& b) const { return !cmp(a, b) && !cmp(b, a); }
  Slot& at(int64_t i) { return s[static_cast<size_t>(((i % kSlots) + kSlots) % kSlots)]; }

  void create(int64_t i, int64_t a) {
    Slot& x = at(i);
    drop(x);
    x.al = env.alloc(static_cast<int>(a));
    x.t = std::make_unique<Tree>(*x.al);
  }
  static void drop(Slot& x) {
    x.refs.clear();
    x.t.reset();
    x.m.clear();
    x.al.reset();
  }

  void verify(Slot& x, bool deep) {
    if (!x.t) return;
    Tree& t = *x.t;
    const Tree& ct = t;
    CHECK_MSG(t.size() == x.m.size(), "size " << t.size() << ", expected " << x.m.size());
    CHECK(t.empty() == x.m.empty());
    auto it = t.begin();
    size_t n = 0;
    for (auto& [k, v] : x.m) {
      CHECK_MSG(it != t.end(), "iteration ends after " << n << " of " << x.m.size());
      CHECK_MSG(eq(it->first, k) && it->second == v, "element " << n << " is " << show(it->first) << " with another key or value than " << show(k));
      ++it;
      ++n;
    }
    CHECK_MSG(it == t.end(), "extra elements");
    if (deep) {
      for (auto& [k, v] : x.m) {
        auto f = ct.find(k);
        CHECK_MSG(f != ct.end() && f->second == v, "find(" << show(k) << ") after " << n);
      }
      auto ri = ct.rbegin();
      for (auto mi = x.m.rbegin(); mi != x.m.rend(); ++mi, ++ri) CHECK(ri != ct.rend() && eq(ri->first, mi->first));
      CHECK(ri == ct.rend());
    } else if (!x.m.empty()) {
      auto& k = x.m.rbegin()->first;
      CHECK(ct.contains(k) && ct.contains(x.m.begin()->first));
    }
    if (Env::tracked && x.al) CHECK_MSG(Env::same(t, *x.al), "the tree draws from another allocator than the allocator's traits prescribe");
    for (auto& r : x.refs) {
      refs_kept = true;
      auto f = t.find(r.key);
      CHECK_MSG(f != t.end() && &f->second == r.addr, "reference to " << show(r.key) << " does not designate the element any more");
      CHECK_MSG(r.it == f && &r.it->second == r.addr && eq(r.it->first, r.key), "iterator to " << show(r.key) << " does not designate the element any more");
      auto mi = x.m.find(r.key);
      auto w = r.it;
      for (int i = 0; i < 12 && mi != x.m.end(); ++i) {
        CHECK_MSG(eq(w->first, mi->first), "walking from a kept iterator");
        ++w;
        ++mi;
      }
      if (mi == x.m.end()) CHECK_MSG(w == t.end(), "walking from a kept iterator does not reach end()");
    }
  }
  void verify_all(bool deep) {
    for (auto& x : s) verify(x, deep);
    trk::check();
  }
  bool alloc_equal(const Slot& a, const Slot& b) const { return *a.al == *b.al; }

  void apply(const Op& o) {
    Slot& x = at(o.a);
    Slot& y = at(o.b);
    switch (o.code) {
      case Create: create(o.a, o.b); break;
      case CreateRange: {
        std::vector<std::pair<K, V>> in;
        for (int64_t i = 0; i < o.c; ++i) {
          int64_t id = o.b + i * 5;
          if (i % 7 == 3) id = o.b;  // duplicates
          in.emplace_back(key(id), val(i + o.b));
        }
        Model m;
        for (auto& e : in) m.emplace(e.first, e.second);
        if ((o.b & 3) == 1 && y.t && &y != &x) {  // from another tree
          drop(x);
          x.al = env.alloc(static_cast<int>(o.c));
          x.t = std::make_unique<Tree>(y.t->begin(), y.t->end(), *x.al);
          x.m = y.m;
        } else {
          drop(x);
          x.al = env.alloc(static_cast<int>(o.c));
          if ((o.b & 3) == 2) {
            std::list<std::pair<K, V>> l(in.begin(), in.end());
            x.t = std::make_unique<Tree>(l.begin(), l.end(), *x.al);
          } else if ((o.b & 3) == 3) {
            Model mm(m);
            x.t = std::make_unique<Tree>(mm.begin(), mm.end(), *x.al);
          } else {
            x.t = std::make_unique<Tree>(in.begin(), in.end(), *x.al);
          }
          x.m = m;
        }
        break;
      }
      case CreateIlist: {
        drop(x);
        x.al = env.alloc(static_cast<int>(o.b));
        using P = std::pair<K, V>;
        auto p = [&](int64_t i) { return P(key(o.c + i * 3 % 7), val(o.c + i)); };
        switch (o.c % 4) {
          case 0: x.t = std::make_unique<Tree>(std::initializer_list<P>{}, *x.al); break;
          case 1: x.t = std::make_unique<Tree>(std::initializer_list<P>{p(0)}, *x.al); break;
          case 2: x.t = std::make_unique<Tree>(std::initializer_list<P>{p(2), p(1), p(2)}, *x.al); break;
          default: x.t = std::make_unique<Tree>(std::initializer_list<P>{p(0), p(1), p(2), p(3), p(4), p(5), p(6), p(7), p(8), p(9)}, *x.al); break;
        }
        auto add = [&](int64_t i) { auto e = p(i); x.m.emplace(e.first, e.second); };
        switch (o.c % 4) {
          case 0: break;
          case 1: add(0); break;
          case 2: add(2); add(1); add(2); break;
          default: for (int64_t i = 0; i < 10; ++i) add(i);
        }
        break;
      }
      case CopyCtor:
        if (!y.t || &x == &y) break;
        drop(x);
        x.t = std::make_unique<Tree>(*y.t);
        x.m = y.m;
        x.al = AT::select_on_container_copy_construction(*y.al);
        ++copies;
        break;
      case MoveCtor:
        if (!y.t || &x == &y) break;
        drop(x);
        x.t = std::make_unique<Tree>(std::move(*y.t));
        x.m = std::move(y.m);
        y.m.clear();
        x.al = y.al;
        x.refs = std::move(y.refs);
        y.refs.clear();
        CHECK_MSG(y.t->empty() && y.t->size() == 0 && y.t->begin() == y.t->end(), "moved-from tree is not empty");
        ++transfers;
        break;
      case CopyAssign: {
        if (!x.t || !y.t || &x == &y) break;
        Tree& r = (*x.t = static_cast<const Tree&>(*y.t));
        CHECK(&r == x.t.get());
        x.refs.clear();
        x.m = y.m;
        if constexpr (AT::propagate_on_container_copy_assignment::value) x.al = y.al;
        ++copies;
        break;
      }
      case MoveAssign: {
        if (!x.t || !y.t || &x == &y) break;
        bool takes = AT::propagate_on_container_move_assignment::value || alloc_equal(x, y);
        Tree& r = (*x.t = std::move(*y.t));
        CHECK(&r == x.t.get());
        x.refs.clear();
        if (takes) x.refs = std::move(y.refs);
        y.refs.clear();
        x.m = std::move(y.m);
        y.m.clear();
        if constexpr (AT::propagate_on_container_move_assignment::value) x.al = y.al;
        CHECK_MSG(y.t->empty() && y.t->begin() == y.t->end(), "moved-from tree is not empty");
        st.hit(takes ? "move_assign_took_nodes" : "move_assign_elementwise");
        ++transfers;
        break;
      }
      case SelfCopy:
        if (x.t) {
          const Tree& r = *x.t;
          *x.t = r;
        }
        break;
      case SelfMove:
        if (x.t) {
          Tree& r = *x.t;
          *x.t = std::move(r);
        }
        break;
      case Swap:
        if (!x.t || !y.t) break;
        // Unequal allocators that do not propagate may not be swapped. The library's own pooled
        // allocators must be swappable whatever they declare.
        if (!Env::swappable && !AT::propagate_on_container_swap::value && !alloc_equal(x, y)) break;
        x.t->swap(*y.t);
        if (&x != &y) {
          std::swap(x.m, y.m);
          std::swap(x.refs, y.refs);
          if constexpr (AT::propagate_on_container_swap::value || Env::swappable) std::swap(x.al, y.al);
        }
        ++transfers;
        break;
      case StdSwap: {
        if (!x.t || !y.t || &x == &y) break;
        bool keep = AT::propagate_on_container_move_assignment::value || alloc_equal(x, y);
        std::swap(*x.t, *y.t);
        std::swap(x.m, y.m);
        if (keep) {
          std::swap(x.refs, y.refs);
        } else {
          x.refs.clear();
          y.refs.clear();
        }
        if constexpr (AT::propagate_on_container_move_assignment::value) std::swap(x.al, y.al);
        ++transfers;
        break;
      }
      case MoveOutIn: {  // move to a temporary and back
        if (!x.t) break;
        Tree tmp(std::move(*x.t));
        CHECK(x.t->empty());
        if (o.c & 1) x.t->insert(key(o.b), val(o.c));  // a moved-from tree is usable
        bool back = AT::propagate_on_container_move_assignment::value || tmp.get_allocator() == x.t->get_allocator();
        *x.t = std::move(tmp);
        if (!back) x.refs.clear();
        ++transfers;
        break;
      }
      case Destroy: drop(x); break;
      case Insert: {
        if (!x.t) break;
        K k = key(o.b);
        V v = val(o.c);
        bool n = x.m.emplace(k, v).second;
        if (n) x.refs.clear();
        auto r = x.t->insert(k, v);
        CHECK(r.second == n && eq(r.first->first, k));
        break;
      }
      case Erase: {
        if (!x.t) break;
        K k = key(o.b);
        size_t e = x.m.erase(k);
        if (e) x.refs.clear();
        CHECK(x.t->erase(k) == e);
        break;
      }
      case BulkInsert:
        if (!x.t) break;
        x.refs.clear();
        for (int64_t i = 0; i < o.c; ++i) {
          K k = key(o.b + i * 3);
          V v = val(o.b + i);
          bool n = x.m.emplace(k, v).second;
          CHECK(x.t->try_emplace(k, v).second == n);
        }
        break;
      case BulkErase:
        if (!x.t) break;
        x.refs.clear();
        for (int64_t i = 0; i < o.c; ++i) {
          K k = key(o.b + i * 2);
          CHECK(x.t->erase(k) == x.m.erase(k));
        }
        break;
      case EraseRange: {
        if (!x.t) break;
        x.refs.clear();
        K a = key(o.b), b = key(o.c);
        if (cmp(b, a)) std::swap(a, b);
        x.t->erase(x.t->lower_bound(a), x.t->upper_bound(b));
        x.m.erase(x.m.lower_bound(a), x.m.upper_bound(b));
        break;
      }
      case Clear:
        if (!x.t) break;
        x.refs.clear();
        x.t->clear();
        x.m.clear();
        break;
      case Subscript: {
        if (!x.t) break;
        K k = key(o.b);
        V v = val(o.c);
        if (!x.m.count(k)) x.refs.clear();
        (*x.t)[k] = v;
        x.m.insert_or_assign(k, v);
        break;
      }
      case Hold: {
        if (!x.t || x.m.empty()) break;
        x.refs.clear();
        for (int64_t i = 0; i < 4; ++i) {
          auto mi = x.m.lower_bound(key(o.b + i * o.c));
          if (mi == x.m.end()) mi = x.m.begin();
          auto it = x.t->find(mi->first);
          CHECK(it != x.t->end());
          x.refs.push_back({mi->first, &it->second, it});
        }
        break;
      }
      case KillArena: {
        bool k = env.kill(static_cast<int>(o.a), [&](const Alloc& al) {
          for (auto& z : s)
            if (z.t && z.al && *z.al == al) return true;
          return false;
        });
        st.hit(k ? "arena_ended" : "arena_in_use");
        break;
      }
      default: break;
    }
  }
  void run(const Case& c) {
    for (auto& o : c.ops) {
      Op q = o;
      q.code = ((o.code % kN) + kN) % kN;
      st.hit(names[q.code]);
      apply(q);
      ++steps;
      size_t total = 0;
      for (auto& x : s) {
        total += x.m.size();
        big = std::max<uint64_t>(big, x.m.size());
      }
      verify_all(total < 150 || steps % 8 == 0);
      st.mixin(total * 31 + static_cast<uint64_t>(q.code));
    }
    verify_all(true);
    // destroy in an order given by the case
    for (int64_t i = 0; i < kSlots; ++i) {
      drop(at(i * (1 + c.param(2) % 4) + c.param(2)));
      verify_all(false);
    }
    for (auto& x : s) drop(x);
    trk::check();
    env.finish();
    if (refs_kept) st.hit("case_with_kept_references");
    st.nontrivial = transfers > 0 && copies > 0 && big > 8;
  }
};

inline Case gen_multi(Rng& r, int64_t leaf, int64_t universe) {
  Case c;
  static const int64_t us[] = {6, 20, 60, 250, 900};
  int64_t u = std::min(us[r.below(5)], universe);
  c.params = {r.range(0, codec::kKeyModes - 1), u, r.range(0, 11)};
  int64_t n = r.size(4, 45);
  auto k = [&] { return static_cast<int64_t>(r.below(static_cast<uint64_t>(u))); };
  auto sl = [&] { return static_cast<int64_t>(r.below(kSlots)); };
  (void)leaf;
  // Most histories start from a few grown trees, most with other allocators.
  if (!r.chance(1, 6))
    for (int64_t i = 0, m = r.range(1, 4); i < m; ++i) {
      int64_t a = sl();
      c.ops.push_back({Create, a, r.range(0, 2), 0});
      c.ops.push_back({BulkInsert, a, k(), r.chance(1, 2) ? u : r.range(1, u)});
    }
  for (int64_t i = 0; i < n; ++i) {
    unsigned w = static_cast<unsigned>(r.below(100));
    int64_t a = sl(), b = sl();
    if (w < 16) c.ops.push_back({BulkInsert, a, k(), r.size(1, u)});
    else if (w < 20) c.ops.push_back({BulkErase, a, k(), r.size(1, u)});
    else if (w < 24) c.ops.push_back({CreateRange, a, k(), r.size(0, u)});
    else if (w < 26) c.ops.push_back({CreateIlist, a, r.range(0, 2), r.range(0, 40)});
    else if (w < 32) c.ops.push_back({Create, a, r.range(0, 2), 0});
    else if (w < 39) c.ops.push_back({CopyCtor, a, b, 0});
    else if (w < 46) c.ops.push_back({MoveCtor, a, b, 0});
    else if (w < 53) c.ops.push_back({CopyAssign, a, b, 0});
    else if (w < 61) c.ops.push_back({MoveAssign, a, b, 0});
    else if (w < 63) c.ops.push_back({r.chance(1, 2) ? SelfCopy : SelfMove, a, 0, 0});
    else if (w < 70) c.ops.push_back({Swap, a, b, 0});
    else if (w < 73) c.ops.push_back({StdSwap, a, b, 0});
    else if (w < 76) c.ops.push_back({MoveOutIn, a, k(), r.range(0, 100)});
    else if (w < 79) c.ops.push_back({Destroy, a, 0, 0});
    else if (w < 83) c.ops.push_back({Insert, a, k(), r.range(0, 1000)});
    else if (w < 86) c.ops.push_back({Erase, a, k(), 0});
    else if (w < 88) c.ops.push_back({Clear, a, 0, 0});
    else if (w < 90) c.ops.push_back({Subscript, a, k(), r.range(0, 1000)});
    else if (w < 96) c.ops.push_back({Hold, a, k(), r.range(1, 9)});
    else if (w < 98) c.ops.push_back({KillArena, a, 0, 0});
    else c.ops.push_back({EraseRange, a, k(), k()});
  }
  return c;
}

inline void begin_case() {
  trk::g_error.clear();
  trk::g_led = trk::Ledger();
  trk::disarm();
}
inline void end_case() {
  trk::check();
  if (trk::g_led.live.size() != 0) pbt::fail(std::to_string(trk::g_led.live.size()) + " objects never destroyed");
}

template <class Env>
void reg(const char* name, unsigned w = 1) {
  using Tree = typename Env::Tree;
  pbt::configs().push_back({name, [](Rng& r) { return gen_multi(r, 8, KeyCodec<typename Tree::key_type>::universe); },
                            [](const Case& c, Stats& s) {
                              begin_case();
                              {
                                Multi<Env> m(c, s);
                                m.run(c);
                              }
                              end_case();
                            },
                            w});
}
}  // namespace mm
