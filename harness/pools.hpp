// Sessions over the memory pools and the allocators on top of them, on simulated
// memory (vmem.hpp): every live block is filled with a pattern that must survive,
// is disjoint from every other one, aligned and inside a live mapping of the pool.
#pragma once
#include <cstdint>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <vector>

#include "pbt.hpp"
#include "vmem.hpp"

extern int64_t g_heap_countdown;  // <0: off; operator new fails when it reaches 0
extern uint64_t g_heap_refused;
extern int g_heap_armed;          // only calls into the library are subject to it
struct HeapScope {
  HeapScope() { ++g_heap_armed; }
  ~HeapScope() { --g_heap_armed; }
};

namespace {
using pbt::Case;
using pbt::Op;
using pbt::Rng;
using pbt::Stats;

struct Req {
  size_t size = 0, align = 1;
  int type = 0;
  size_t n = 1;
};
struct Got {
  uint64_t allocs = 0, deallocs = 0, growth = 0, bytes = 0, current = 0, peak = 0;
  size_t remaining = 0;
  bool has_remaining = true;
};
struct Want {
  uint64_t allocs = 0, deallocs = 0, growth = 0, bytes = 0, current = 0, peak = 0;
  size_t mapped = 0, fresh = 0;
};

enum POp { PAlloc, PFree, PFreeMany, PCycle, PImpossible, PNothing, PFault, PRecreate, PCopyHandle, PDropHandle, PVerify, PHeapFault, PBurst, PMarathon, kPN };
inline const char* pop_names[] = {"alloc", "free", "free_many", "cycle", "impossible", "zero_or_null", "set_faults", "recreate",
                                  "copy_handle", "drop_handle", "verify", "heap_fault", "burst", "marathon"};

// Fault plan: bit i of the pattern decides the i-th huge / regular mapping from
// now on; after 20 mappings the last bit (20) stays in force.
inline void set_plan(int64_t huge_bits, int64_t reg_bits) {
  auto hb = static_cast<uint64_t>(huge_bits), rb = static_cast<uint64_t>(reg_bits);
  auto hi = std::make_shared<unsigned>(0), ri = std::make_shared<unsigned>(0);
  vmem::g.allow = [=](bool huge, size_t) {
    unsigned& i = huge ? *hi : *ri;
    bool ok = ((huge ? hb : rb) >> (i < 20 ? i : 20)) & 1;
    ++i;
    return ok;
  };
}

template <class Target>
struct PoolSession {
  struct Block {
    uintptr_t p;
    Req r;
    size_t usable;
    uint8_t seed;
    uint64_t sub;
  };
  Target t;
  Stats& st;
  std::vector<Block> live;
  std::map<uintptr_t, size_t> order;                     // live blocks by address
  std::map<uintptr_t, std::pair<size_t, uint64_t>> handed;    // all memory ever handed out -> (size, sub-pool)
  std::map<uint64_t, Want> want;                              // per sub-pool
  std::vector<size_t> sizes, aligns;
  size_t initial, growth;
  bool huge;
  bool faults = false;
  uint8_t next_seed = 1;
  uint64_t steps = 0, frees = 0, reused = 0, grown = 0, refused = 0, overl = 0;
  uint64_t huge_at_birth = 0;

  PoolSession(const Case& c, Stats& s) : st(s) {
    initial = static_cast<size_t>(std::max<int64_t>(1, c.param(0, 8192)));
    huge = c.param(1) != 0;
    growth = static_cast<size_t>(std::max<int64_t>(1, c.param(2, 4096)));
    size_t ns = static_cast<size_t>(std::clamp<int64_t>(c.param(3, 1), 1, 64));
    for (size_t i = 0; i < ns; ++i) sizes.push_back(static_cast<size_t>(std::max<int64_t>(1, c.param(4 + i, 64))));
    size_t na = static_cast<size_t>(std::clamp<int64_t>(c.param(4 + ns, 1), 1, 64));
    for (size_t i = 0; i < na; ++i) aligns.push_back(size_t{1} << (static_cast<size_t>(c.param(5 + ns + i, 3)) & 63));
    vmem::begin();
  }
  ~PoolSession() { g_heap_countdown = -1; }

  struct Before {
    uint64_t hc, ho, rc, ro, heap;
    size_t bytes;
  };
  Before snap() const { return {vmem::g.huge_calls, vmem::g.huge_ok, vmem::g.reg_calls, vmem::g.reg_ok, g_heap_refused, vmem::g.live_bytes()}; }
  uint64_t mapped_since(const Before& b) const { return vmem::g.huge_ok - b.ho + vmem::g.reg_ok - b.ro; }
  bool reg_refused(const Before& b) const { return vmem::g.reg_calls - b.rc > vmem::g.reg_ok - b.ro; }
  bool huge_refused(const Before& b) const { return vmem::g.huge_calls - b.hc > vmem::g.huge_ok - b.ho; }

  void check_fallback(const Before& b, bool pool_was_huge) {
#if WHAT == 18
    if (!huge) CHECK_MSG(vmem::g.huge_calls == b.hc, "hugepages requested from the system although the pool was asked not to use them");
    if (pool_was_huge && vmem::g.reg_calls > b.rc)
      CHECK_MSG(huge_refused(b), "ordinary pages used although hugepages were not refused");
#endif
    (void)b;
    (void)pool_was_huge;
  }
  void check_truthful() {
#if WHAT == 18
    if (!t.alive()) return;
    bool any = false;
    for (auto& [a, r] : vmem::g.live) any |= r.huge;
    CHECK_MSG(t.using_hugepages() == any, "using_hugepages() says " << t.using_hugepages() << " but hugepage mappings " << (any ? "exist" : "do not exist"));
#endif
  }
  void create() {
    Before b = snap();
    try {
      HeapScope hs;
      t.create(initial, huge, growth);
    } catch (const std::bad_alloc&) {
      CHECK_MSG(reg_refused(b) || g_heap_refused != b.heap, "creation refused with bad_alloc although ordinary memory was not refused");
      st.hit("create_refused");
      ++refused;
      CHECK_MSG(vmem::g.live.empty(), "a refused creation keeps mappings");
      return;
    }
    check_fallback(b, huge);
    if (Target::eager) {
      CHECK_MSG(mapped_since(b) >= 1, "created without memory");
      // with several pools an upper bound for each
      for (int i = 0; i < Target::eager; ++i) want[static_cast<uint64_t>(i)].mapped = vmem::g.live_bytes() - b.bytes;
    }
    check_truthful();
  }
  void destroy() {
    live.clear();
    order.clear();
    handed.clear();
    want.clear();
    t.destroy();
    vmem::check();
    CHECK_MSG(vmem::g.live.empty(), vmem::g.live.size() << " mappings not released with the last user of the pool");
  }
  // Of giant blocks only the ends are written.
  static constexpr size_t kEdge = 8192;
  static void fill(const Block& b) {
    if (b.usable > (size_t{1} << 26)) {
      memset(reinterpret_cast<void*>(b.p), b.seed, kEdge);
      memset(reinterpret_cast<void*>(b.p + b.usable - kEdge), b.seed, kEdge);
    } else {
      memset(reinterpret_cast<void*>(b.p), b.seed, b.usable);
    }
  }
  static void verify(const Block& b) {
    auto* q = reinterpret_cast<const uint8_t*>(b.p);
    auto part = [&](size_t from, size_t to) {
      uint8_t bad = 0;
      for (size_t i = from; i < to; ++i) bad |= static_cast<uint8_t>(q[i] ^ b.seed);
      if (!bad) return;
      size_t i = from;
      while (q[i] == b.seed) ++i;
      pbt::fail("byte " + std::to_string(i) + " of a live block of " + std::to_string(b.r.size) + " bytes changed");
    };
    if (b.usable > (size_t{1} << 26)) {
      part(0, kEdge);
      part(b.usable - kEdge, b.usable);
    } else {
      part(0, b.usable);
    }
  }
  void verify_all() {
    for (auto& b : live) verify(b);
  }
  Req request(int64_t a, int64_t b) {
    return t.make(sizes[static_cast<size_t>(a < 0 ? -a : a) % sizes.size()], aligns[static_cast<size_t>(b < 0 ? -b : b) % aligns.size()],
                  static_cast<int>((a < 0 ? -a : a) % 16));
  }

  // Returns false when refused.
  bool alloc(const Req& r) {
    if (!t.alive()) return false;
    Before b = snap();
    bool was_huge = t.grows_with_hugepages(r, huge);
    bool existed = t.has_sub(r);
    size_t rem = existed && t.view(t.sub(r)).has_remaining ? t.view(t.sub(r)).remaining : 0;
    void* vp;
    try {
      t.note_request(r);
      HeapScope hs;
      vp = t.alloc(r);
    } catch (const std::bad_alloc&) {
      bool hopeless = r.size > std::numeric_limits<size_t>::max() / 4 || r.align > (size_t{1} << 40);
      CHECK_MSG(hopeless || reg_refused(b) || g_heap_refused != b.heap,
                "request for " << r.size << " bytes aligned to " << r.align << " refused with bad_alloc although ordinary memory was not refused");
      st.hit("alloc_refused");
      ++refused;
      account_mapping(r, b, existed);
      check_fallback(b, was_huge);
      after();
      return false;
    }
    uintptr_t p = reinterpret_cast<uintptr_t>(vp);
    CHECK_MSG(p != 0, "null block");
    Block blk{p, r, t.usable(r), next_seed, t.sub(r)};
    next_seed = static_cast<uint8_t>(next_seed + 1 == 256 ? 1 : next_seed + 1);
#if WHAT == 14 || WHAT == 16 || WHAT == 18
    CHECK_MSG((p & (r.align - 1)) == 0, "block of " << r.size << " bytes not aligned to " << r.align);
    CHECK_MSG(vmem::find(p, blk.usable), "block of " << r.size << " bytes (usable " << blk.usable << ") not inside one mapping of the pool");
    auto nx = order.lower_bound(p);
    if (nx != order.end()) CHECK_MSG(p + blk.usable <= nx->first, "block of " << r.size << " bytes overlaps a live block");
    if (nx != order.begin()) {
      auto pv = std::prev(nx);
      CHECK_MSG(pv->first + pv->second <= p, "block of " << r.size << " bytes overlaps a live block");
    }
#endif
    // fresh or reused memory
    bool fresh = true;
    auto h = handed.lower_bound(p);
    auto seen = [&](auto it) {
      if (it->first < p + blk.usable && p < it->first + it->second.first) {
        fresh = false;
#if WHAT == 16
        CHECK_MSG(it->second.second == blk.sub, "block of size class " << blk.sub << " reuses memory freed by size class " << it->second.second);
#endif
      }
    };
    if (h != handed.end()) seen(h);
    if (h != handed.begin()) seen(std::prev(h));
    if (fresh) handed[p] = {blk.usable, blk.sub};
    else ++reused;
    st.hit(fresh ? "fresh_block" : "reused_block");
    uint64_t maps = mapped_since(b);
    if (existed && maps) ++grown;
    account_mapping(r, b, existed);
    Want& w = want[blk.sub];
    size_t rec = t.recorded(r);
    w.allocs++;
    w.bytes += rec;
    w.current += rec;
    w.peak = std::max(w.peak, w.current);
    if (fresh) w.fresh += r.size;
#if WHAT == 15
    if (Got g = t.view(blk.sub); g.has_remaining) {
      if (existed && fresh && !maps)
        CHECK_MSG(g.remaining + r.size <= rem, "bytes_remaining went from " << rem << " to " << g.remaining << " for a fresh block of " << r.size);
      CHECK_MSG(g.remaining <= w.mapped, "bytes_remaining " << g.remaining << " exceeds the " << w.mapped << " bytes mapped");
      CHECK_MSG(g.remaining + w.fresh <= w.mapped, "bytes_remaining " << g.remaining << " plus " << w.fresh << " bytes handed out exceed the " << w.mapped << " bytes mapped");
    }
#endif
#if WHAT == 14
    // growth is for requests that do not fit; alignment and rounding may cost a little of what remains
    if (existed && maps && t.view(blk.sub).has_remaining) {
      st.hit("grew_when_full");
      CHECK_MSG(rem < blk.usable + std::max<size_t>(r.align, 64) + 16,
                "the pool mapped more memory for " << r.size << " bytes aligned to " << r.align << " although " << rem << " bytes remained");
    }
#endif
    (void)rem;
    check_fallback(b, was_huge);
    live.push_back(blk);
    order[p] = blk.usable;
    // the pool may touch only memory it owns, the owner all of its block
    if (vmem::find(p, blk.usable)) fill(blk);
    after();
    return true;
  }
  void account_mapping(const Req& r, const Before& b, bool existed) {
    uint64_t maps = mapped_since(b);
    if (!maps) return;
    if (r.size > std::numeric_limits<size_t>::max() / 4 && !t.has_sub(r)) return;
    Want& w = want[t.sub(r)];
    w.mapped += vmem::g.live_bytes() - b.bytes;
    w.growth += maps - (existed ? 0 : 1);
  }
  void free_at(size_t i) {
    Block b = live[i];
    verify(b);
    live[i] = live.back();
    live.pop_back();
    order.erase(b.p);
    Before bf = snap();
    {
      HeapScope hs;
      t.dealloc(reinterpret_cast<void*>(b.p), b.r);
    }
    CHECK_MSG(mapped_since(bf) == 0, "freeing a block maps memory");
    Want& w = want[b.sub];
    w.deallocs++;
    w.current -= t.recorded(b.r);
    ++frees;
    after();
  }
  void after() {
    vmem::check();
#if WHAT == 15
    for (auto& [sub, w] : want) check_stats(sub, w);
#endif
#if WHAT == 16 || WHAT == 18
    t.check_structure(want);
#endif
    check_truthful();
  }
  void check_stats(uint64_t sub, const Want& w) {
    Got g = t.view(sub);
    bool on = Target::stats_on;
    auto eq = [&](const char* n, uint64_t got, uint64_t exp) { CHECK_MSG(got == (on ? exp : 0), n << " of pool " << sub << " is " << got << ", expected " << (on ? exp : 0)); };
    eq("allocations", g.allocs, w.allocs);
    eq("deallocations", g.deallocs, w.deallocs);
    eq("growth events", g.growth, w.growth);
    eq("bytes allocated", g.bytes, w.bytes);
    eq("current usage", g.current, w.current);
    eq("peak usage", g.peak, w.peak);
    if (g.has_remaining) CHECK_MSG(g.remaining <= w.mapped, "bytes_remaining " << g.remaining << " exceeds the " << w.mapped << " bytes mapped");
  }
  bool uniform() const { return sizes.size() == 1 && aligns.size() == 1 && !faults; }

  void apply(const Op& o) {
    switch (o.code) {
      case PAlloc: {
        Req r = request(o.a, o.b);
        size_t outstanding = live.size();
        (void)outstanding;
#if WHAT == 14
        bool must_reuse = Target::single && uniform() && frees > 0 && want.size() == 1 && want.begin()->second.allocs > 0 &&
                          peak_live > live.size();
        Before b = snap();
        uint64_t ru = reused;
        if (alloc(r) && must_reuse) {
          CHECK_MSG(mapped_since(b) == 0, "the pool grew although a freed block of the same size was available");
          CHECK_MSG(reused == ru + 1, "fresh memory used although a freed block of the same size was available");
        }
        peak_live = std::max(peak_live, live.size());
#else
        alloc(r);
#endif
        break;
      }
      case PBurst: {
        int64_t n = std::min<int64_t>(o.c, 200);
        for (int64_t i = 0; i < n && live.size() < 3000; ++i)
          if (!alloc(request(o.a + i * o.b, i))) break;
#if WHAT == 14
        peak_live = std::max(peak_live, live.size());
#endif
        break;
      }
      case PFree:
        if (!live.empty()) free_at(static_cast<size_t>(o.a < 0 ? -o.a : o.a) % live.size());
        break;
      case PFreeMany: {
        int64_t n = std::min<int64_t>(o.b, static_cast<int64_t>(live.size()));
        for (int64_t i = 0; i < n; ++i) {
          size_t k = o.a % 3 == 0 ? live.size() - 1 : o.a % 3 == 1 ? 0 : static_cast<size_t>(i * 7 + o.c) % live.size();
          free_at(k);
        }
        break;
      }
      case PCycle: {
        if (!t.alive()) break;
        Req r = request(o.a, o.b);
        if (!alloc(r)) break;
#if WHAT == 14
        peak_live = std::max(peak_live, live.size());
#endif
        free_at(live.size() - 1);
        Before b = snap();
        for (int64_t i = 0; i < std::min<int64_t>(o.c, 60); ++i) {
          if (!alloc(r)) break;
          free_at(live.size() - 1);
        }
#if WHAT == 14 || WHAT == 16
        CHECK_MSG(mapped_since(b) == 0, "repeated allocate/free of " << r.size << " bytes grows the pool");
#endif
        break;
      }
      case PImpossible: {
        if (!t.alive()) break;
        static const size_t big[] = {~size_t{0}, ~size_t{0} - 7, ~size_t{0} - 8, ~size_t{0} - 4096, size_t{1} << 63, (size_t{1} << 63) + 1, (size_t{1} << 63) - 1,
                                     size_t{1} << 62, (size_t{1} << 62) + 3, size_t{1} << 48, (size_t{1} << 40) + 5, ~size_t{0} - (2u << 20) + 1, ~size_t{0} / 24 + 1, ~size_t{0} / 8 + 1,
                                     ~size_t{0} / 8 + 2, ~size_t{0} / 4 + 2};
        t.impossible(big[static_cast<size_t>(o.a < 0 ? -o.a : o.a) % 16], aligns[0], static_cast<int>(o.b & 15), [&](const Req& r, auto&& call) {
          Before b = snap();
          bool existed = t.has_sub(r), threw = false;
          bool was_huge = t.grows_with_hugepages(r, huge);
          try {
            void* p = call();
            CHECK_MSG(p == nullptr, "an impossible request of " << r.size << " bytes (n = " << r.n << ") was served");
            pbt::fail("an impossible request returned a null pointer");
          } catch (const std::bad_alloc&) {  // bad_array_new_length included
            threw = true;
          }
          CHECK(threw);
          account_mapping(r, b, existed);
          check_fallback(b, was_huge);
        });
        after();
        break;
      }
      case PMarathon: {
        // very many cycles of one block, checked at the end only
        if (!t.alive()) break;
        Req r = request(o.a, o.b);
        if (!alloc(r)) break;
        Block b = live.back();
        free_at(live.size() - 1);
        Before before = snap();
        int64_t n = std::min<int64_t>(o.c, 70000);
        try {
          for (int64_t i = 0; i < n; ++i) {
            void* p = t.alloc(r);
            Want& w = want[b.sub];
            w.allocs++;
            w.bytes += t.recorded(r);
            w.peak = std::max<uint64_t>(w.peak, w.current + t.recorded(r));
            t.dealloc(p, r);
            w.deallocs++;
          }
        } catch (const std::bad_alloc&) {
          pbt::fail("request refused although a freed block of the same size was available");
        }
        CHECK_MSG(mapped_since(before) == 0, "repeated allocate/free of " << r.size << " bytes grows the pool");
        after();
        break;
      }
      case PNothing:
        if (t.alive()) t.nothing();
        after();
        break;
      case PFault:
#if WHAT == 18
        set_plan(o.a, o.b);
        vmem::g.madvise_fails = o.c & 1;
        faults = true;
#endif
        break;
      case PHeapFault:
#if WHAT == 18
        g_heap_countdown = o.a % 6;
        faults = true;
#endif
        break;
      case PRecreate:
        verify_all();
        g_heap_countdown = -1;
        destroy();
        create();
#if WHAT == 14
        peak_live = 0;
        frees = 0;
#endif
        break;
      case PCopyHandle:
        if (t.alive()) t.copy_handle(static_cast<int>(o.a));
        break;
      case PDropHandle:
        if (t.alive()) t.drop_handle(static_cast<int>(o.a));
        break;
      case PVerify: verify_all(); break;
      default: break;
    }
  }
  size_t peak_live = 0;

  void run(const Case& c) {
    std::vector<Op> ops = c.ops;
    size_t i = 0;
    // faults that precede creation
    for (; i < ops.size() && ops[i].code == PFault; ++i) apply(ops[i]);
    create();
    for (; i < ops.size(); ++i) {
      Op q = ops[i];
      q.code = ((q.code % kPN) + kPN) % kPN;
      st.hit(pop_names[q.code]);
      if (!t.alive() && q.code != PRecreate && q.code != PFault) continue;
      apply(q);
      if (++steps % 8 == 0) verify_all();
      st.mixin(live.size() * 31 + static_cast<uint64_t>(q.code) + vmem::g.live.size() * 977);
    }
    g_heap_countdown = -1;
    verify_all();
    st.hit("blocks_reused", reused);
    st.hit("regions_grown", grown);
    st.hit("requests_refused", refused);
#if WHAT == 18
    st.nontrivial = refused > 0 || (grown > 0 && vmem::g.huge_calls > vmem::g.huge_ok);
#else
    st.nontrivial = reused > 0 && grown > 0;
#endif
    destroy();
    vmem::reset();
  }
};

struct PGen {
  bool typed = false;
  bool multi = false;
  size_t max_type_n = 0;  // >0: sizes are object counts up to this
};
inline Case gen_pool(Rng& r, PGen g) {
  Case c;
  static const int64_t init[] = {1, 64, 1000, 4096, 8192, 10000, 65536, 300000, 2097152, 2097153};
  static const int64_t grow[] = {1, 100, 4096, 5000, 8192, 65536, 2097152, 3000000};
  int64_t ini = init[r.below(r.chance(1, 4) ? 10 : 7)], gr = grow[r.below(r.chance(1, 4) ? 8 : 6)];
  // Around the limits of 32-bit arithmetic.
  auto giant = [&] { return (int64_t{1} << r.range(31, 33)) + r.range(-2, 3) * (r.chance(1, 2) ? 1 : 4096) + r.range(0, 5000) * r.range(0, 1); };
  bool giants = r.chance(1, 60);
  if (giants && r.chance(1, 3)) ini = giant();
  if (giants && r.chance(1, 3)) gr = giant();
  int64_t huge = r.chance(1, 3);
  int64_t ns = r.chance(1, 4) ? 1 : r.range(1, 6);
  c.params = {ini, huge, gr, ns};
  for (int64_t i = 0; i < ns; ++i) {
    int64_t s;
    switch (r.below(8)) {
      case 0: s = r.range(1, 9); break;
      case 1: s = r.range(1, 64); break;
      case 2: s = 8 * r.range(1, 40); break;
      case 3: s = r.range(500, 520) + r.range(0, 1) * 1536; break;
      case 4: s = r.range(1, 3000); break;
      case 5: s = (int64_t{1} << r.range(0, 13)) + r.range(-1, 1); break;
      case 6: s = std::min<int64_t>(gr, 3000000) + r.range(-70, 70); break;
      default: s = r.chance(1, 8) ? r.range(100000, 2200000) : r.range(2000, 12000); break;
    }
    if (s > 300000 && !r.chance(1, 6)) s = r.range(1, 300);
    if (g.max_type_n) s = r.size(1, static_cast<int64_t>(g.max_type_n));
    if (giants && r.chance(1, 3)) s = g.max_type_n ? giant() / (r.chance(1, 2) ? 1 : 8) : giant();
    if (i > 0 && r.chance(1, 3)) s = c.params[4] + r.range(-9, 9);  // close to the first
    c.params.push_back(std::max<int64_t>(1, s));
  }
  int64_t na = r.chance(1, 2) ? 1 : r.range(1, 4);
  c.params.push_back(na);
  for (int64_t i = 0; i < na; ++i) c.params.push_back(r.chance(1, 10) ? r.range(7, 16) : r.chance(1, 40) ? r.range(17, 22) : r.range(0, 7));
#if WHAT == 18
  auto bits = [&]() -> int64_t {
    switch (r.below(5)) {
      case 0: return 0;
      case 1: return (1 << 21) - 1;
      case 2: return (int64_t{1} << r.range(0, 6)) - 1;         // first few succeed
      case 3: return ((1 << 21) - 1) & ~((1 << r.range(0, 6)) - 1);  // first few fail
      default: return static_cast<int64_t>(r.next() & ((1 << 21) - 1));
    }
  };
  if (r.chance(1, 2)) c.params[1] = 1;
  if (r.chance(2, 3)) c.ops.push_back({PFault, bits(), r.chance(1, 2) ? (1 << 21) - 1 : bits(), r.range(0, 1)});
#endif
  int64_t n = r.size(4, 70);
  int64_t bias = r.range(0, 2);
  for (int64_t i = 0; i < n; ++i) {
    if (r.chance(1, 12)) bias = r.range(0, 2);
    unsigned w = static_cast<unsigned>(r.below(100));
    int64_t a = r.range(0, 47), b = r.range(0, 15);
    if (w < 40) c.ops.push_back({(bias == 0 && r.chance(1, 2)) ? PFree : PAlloc, a, b, 0});
    else if (w < 55) c.ops.push_back({bias == 2 ? PAlloc : PFree, r.range(0, 500), b, 0});
    else if (w < 63) c.ops.push_back({PBurst, a, r.range(0, 5), r.size(2, 100)});
    else if (w < 73) c.ops.push_back({PFreeMany, r.range(0, 2), r.size(1, 80), r.range(0, 9)});
    else if (w < 80) c.ops.push_back({PCycle, a, b, r.size(2, 60)});
    else if (w < 84) c.ops.push_back({PImpossible, r.range(0, 15), b, 0});
    else if (w < 86) c.ops.push_back({PNothing, 0, 0, 0});
    else if (w < 88) c.ops.push_back({PRecreate, 0, 0, 0});
    else if (w < 89 && r.chance(1, 60)) c.ops.push_back({PMarathon, a, b, r.range(60000, 70000)});
    else if (w < 91) c.ops.push_back({PCopyHandle, a, 0, 0});
    else if (w < 94) c.ops.push_back({PDropHandle, a, 0, 0});
#if WHAT == 18
    else if (w < 98) c.ops.push_back({PFault, bits(), bits(), r.range(0, 1)});
    else c.ops.push_back({PHeapFault, r.range(0, 5), 0, 0});
#else
    else c.ops.push_back({PVerify, 0, 0, 0});
#endif
  }
  return c;
}
template <class Target>
void reg_pool(const char* name, PGen g, unsigned w = 1) {
  pbt::configs().push_back({name, [g](Rng& r) { return gen_pool(r, g); },
                            [](const Case& c, Stats& s) {
                              g_heap_countdown = -1;
                              PoolSession<Target> p(c, s);
                              p.run(c);
                            },
                            w});
}
}  // namespace
