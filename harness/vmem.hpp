// Simulated virtual memory for the pool harnesses.  Link with
// -Wl,--wrap=mmap,--wrap=munmap,--wrap=madvise.  Calls the library makes go to a
// ledger: every mapping gets PROT_NONE guard pages, released mappings stay
// PROT_NONE until reset() (so use after release faults), hugepage mappings are
// simulated with 2 MB aligned ordinary memory, and a fault plan may refuse calls.
#pragma once
#include <errno.h>
#include <sys/mman.h>

#include <cstdint>
#include <deque>
#include <functional>
#include <map>
#include <string>
#include <vector>

#include "pbt.hpp"

extern "C" {
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
int __real_madvise(void*, size_t, int);
}

namespace vmem {
constexpr size_t kPage = 4096, kHuge = 2UL << 20;
struct Region {
  uintptr_t base = 0;
  size_t req = 0, len = 0;  // requested / mapped
  bool huge = false;
  uintptr_t raw = 0;
  size_t rawlen = 0;
};
struct State {
  bool on = false;
  std::map<uintptr_t, Region> live;
  std::vector<Region> dead;
  std::string error;
  // decides whether a mapping succeeds: (huge, requested length)
  std::function<bool(bool, size_t)> allow;
  bool madvise_fails = false;
  size_t limit = size_t{24} << 30, total = size_t{64} << 30;  // one mapping, all live ones
  uint64_t huge_calls = 0, huge_ok = 0, reg_calls = 0, reg_ok = 0, unmaps = 0, madvises = 0;
  size_t dead_bytes = 0;
  size_t live_bytes() const {
    size_t s = 0;
    for (auto& [b, r] : live) s += r.len;
    return s;
  }
};
inline State g;
inline int busy = 0;  // inside the simulation: its own allocations are not the library's
struct Busy {
  Busy() { ++busy; }
  ~Busy() { --busy; }
};
inline void note(const std::string& e) {
  if (g.error.empty()) g.error = e;
}
inline void check() {
  if (!g.error.empty()) {
    std::string e = g.error;
    g.error.clear();
    pbt::fail(e);
  }
}
// The live mapping containing [p, p+n), or nullptr.
inline const Region* find(uintptr_t p, size_t n) {
  auto it = g.live.upper_bound(p);
  if (it == g.live.begin()) return nullptr;
  --it;
  const Region& r = it->second;
  if (p < r.base || n > r.len || p - r.base > r.len - n) return nullptr;
  return &r;
}
inline void reset() {
  for (auto& [b, r] : g.live) __real_munmap(reinterpret_cast<void*>(r.raw), r.rawlen);
  for (auto& r : g.dead) __real_munmap(reinterpret_cast<void*>(r.raw), r.rawlen);
  g = State();
}
inline void begin() {
  reset();
  g.on = true;
}
inline size_t up(size_t n, size_t a) { return (n + a - 1) / a * a; }

inline void* do_mmap(size_t len, bool huge) {
  Busy bz;
  (huge ? g.huge_calls : g.reg_calls)++;
  if (len == 0) {
    errno = EINVAL;
    return MAP_FAILED;
  }
  bool ok = len <= g.limit && (len < (size_t{1} << 28) || (g.live_bytes() + len <= g.total && g.dead_bytes + len <= 4 * g.total));
  ok = (!g.allow || g.allow(huge, len)) && ok;
  if (!ok) {
    errno = ENOMEM;
    return MAP_FAILED;
  }
  const size_t unit = huge ? kHuge : kPage;
  Region r;
  r.req = len;
  r.len = up(len, unit);
  r.huge = huge;
  r.rawlen = r.len + 2 * kPage + (huge ? 2 * kHuge : 2 * kPage);
  void* raw = __real_mmap(nullptr, r.rawlen, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (raw == MAP_FAILED) return MAP_FAILED;  // a refusal like any other
  r.raw = reinterpret_cast<uintptr_t>(raw);
  r.base = r.raw + kPage;
  if (huge) r.base = up(r.base, kHuge);
  else if ((r.base / kPage) % 2 == 0) r.base += kPage;  // page aligned, and no more
  if (mprotect(reinterpret_cast<void*>(r.base), r.len, PROT_READ | PROT_WRITE) != 0) {
    fprintf(stderr, "vmem: mprotect failed\n");
    _exit(70);
  }
  g.live[r.base] = r;
  (huge ? g.huge_ok : g.reg_ok)++;
  return reinterpret_cast<void*>(r.base);
}
inline int do_munmap(void* p, size_t len) {
  Busy bz;
  ++g.unmaps;
  auto it = g.live.find(reinterpret_cast<uintptr_t>(p));
  if (it == g.live.end()) {
    note("munmap of memory that is not a live mapping");
    errno = EINVAL;
    return -1;
  }
  Region& r = it->second;
  if (up(len, kPage) != r.len) {
    std::ostringstream os;
    os << "munmap of " << len << " bytes of a mapping of " << r.len;
    note(os.str());
  }
  mprotect(reinterpret_cast<void*>(r.base), r.len, PROT_NONE);
  __real_madvise(reinterpret_cast<void*>(r.raw), r.rawlen, MADV_DONTNEED);
  g.dead_bytes += r.len;
  g.dead.push_back(r);
  g.live.erase(it);
  return 0;
}
inline int do_madvise(void* p, size_t len) {
  Busy bz;
  ++g.madvises;
  if (!find(reinterpret_cast<uintptr_t>(p), len)) note("madvise outside the mapped memory");
  if (g.madvise_fails) {
    errno = EINVAL;
    return -1;
  }
  return 0;
}
}  // namespace vmem

#ifndef PBT_NO_MAIN
extern "C" {
void* __wrap_mmap(void* a, size_t len, int prot, int flags, int fd, off_t off) {
  if (vmem::g.on && a == nullptr && (flags & MAP_ANONYMOUS)) return vmem::do_mmap(len, (flags & MAP_HUGETLB) != 0);
  return __real_mmap(a, len, prot, flags, fd, off);
}
int __wrap_munmap(void* p, size_t len) {
  if (vmem::g.on) return vmem::do_munmap(p, len);
  return __real_munmap(p, len);
}
int __wrap_madvise(void* p, size_t len, int adv) {
  if (vmem::g.on) return vmem::do_madvise(p, len);
  return __real_madvise(p, len, adv);
}
}
#endif
