// Instrumented key/value types: a ledger of every construction, copy, move,
// assignment and destruction, detection of use before construction, after
// destruction, of moved-from reads and of bitwise relocation, and injectable
// exceptions from copies / value constructions.
#pragma once
#include <cstdint>
#include <functional>
#include <new>
#include <stdexcept>
#include <string>
#include <tuple>
#include <unordered_set>
#include <vector>

#include "codecs.hpp"
#include "pbt.hpp"

namespace trk {

struct Injected : std::runtime_error {
  Injected() : std::runtime_error("injected copy failure") {}
};

// First error seen inside a special member (they may be noexcept, so it is
// raised later by check()).
inline std::string g_error;
inline void note(const std::string& e) {
  if (g_error.empty()) g_error = e;
}
inline void check() {
  if (!g_error.empty()) {
    std::string e = g_error;
    g_error.clear();
    pbt::fail(e);
  }
}

// Open-addressing set of addresses of live objects.
class AddrSet {
  std::vector<const void*> tab_;
  size_t used_ = 0, live_ = 0;
  static size_t h(const void* p) { return (reinterpret_cast<uintptr_t>(p) >> 3) * 0x9E3779B97F4A7C15ULL >> 20; }
  static const void* tomb() { return reinterpret_cast<const void*>(1); }
  void grow() {
    std::vector<const void*> old = std::move(tab_);
    size_t n = 64;
    while (n < live_ * 4) n *= 2;
    tab_.assign(n, nullptr);
    used_ = live_ = 0;
    for (auto p : old)
      if (p && p != tomb()) insert(p);
  }

 public:
  bool contains(const void* p) const {
    if (tab_.empty()) return false;
    for (size_t i = h(p);; ++i) {
      const void* q = tab_[i & (tab_.size() - 1)];
      if (!q) return false;
      if (q == p) return true;
    }
  }
  bool insert(const void* p) {
    if (contains(p)) return false;
    if (tab_.empty() || (used_ + 1) * 2 > tab_.size()) grow();
    for (size_t i = h(p);; ++i) {
      auto& q = tab_[i & (tab_.size() - 1)];
      if (!q || q == tomb()) {
        if (!q) ++used_;
        q = p;
        ++live_;
        return true;
      }
    }
  }
  bool erase(const void* p) {
    if (tab_.empty()) return false;
    for (size_t i = h(p);; ++i) {
      auto& q = tab_[i & (tab_.size() - 1)];
      if (!q) return false;
      if (q == p) {
        q = tomb();
        --live_;
        return true;
      }
    }
  }
  size_t size() const { return live_; }
  void clear() { tab_.clear(); used_ = live_ = 0; }
};

struct Ledger {
  AddrSet live;
  uint64_t constructed = 0, destroyed = 0, copies = 0, moves = 0, value_ctors = 0, default_ctors = 0, assigns = 0;
  uint64_t mutations() const { return constructed + copies + moves + assigns; }
};
inline Ledger g_led;
struct Cnt {
  uint64_t constructed = 0, copies = 0, moves = 0, value_ctors = 0, default_ctors = 0, assigns = 0;
  uint64_t touched() const { return constructed + copies + moves + assigns; }
};
inline Cnt g_cnt[4];  // per tag

// Exception injection: fail the n-th event whose kind is in the mask.
enum Kind : unsigned { kCopy = 1, kValue = 2, kDefault = 4, kAlloc = 8, kCompare = 16 };
struct Inject {
  unsigned mask = 0;
  int64_t countdown = -1;  // <0: off
  uint64_t fired = 0;
  uint64_t events = 0;
};
inline Inject g_inj;
inline bool should_fire(Kind k) {
  if (!(g_inj.mask & k)) return false;
  ++g_inj.events;
  if (g_inj.countdown < 0) return false;
  if (g_inj.countdown-- == 0) {
    ++g_inj.fired;
    return true;
  }
  return false;
}
inline void maybe_throw(Kind k) {
  if (should_fire(k)) throw Injected();
}
inline void arm(unsigned mask, int64_t n) {
  g_inj.mask = mask;
  g_inj.countdown = n;
  g_inj.events = 0;
}
inline void disarm() {
  g_inj.mask = 0;
  g_inj.countdown = -1;
}

// An argument that records whether it was consumed (moved from).
struct Token {
  int64_t v;
  mutable int consumed = 0;
  explicit Token(int64_t x) : v(x) {}
};

// Result of reading an object that holds nothing any more.
inline constexpr int64_t kMovedValue = -777000777;

// Tag 0: key, tag 1: value.  Payload is one integer; Pad makes it bigger.
template <int Tag, size_t Pad = 0>
class Obj {
  static constexpr uint64_t kLive = 0xA11CE5A11CE50000ULL + Tag, kDead = 0xDEADDEADDEAD0000ULL + Tag;
  const Obj* self_;
  uint64_t magic_;
  int64_t v_;
  bool moved_;
  [[no_unique_address]] std::conditional_t<Pad != 0, std::array<uint8_t, Pad ? Pad : 1>, std::tuple<>> pad_{};

  void born() {
    if (!g_led.live.insert(this)) note("object constructed on top of a live object (its destructor never ran)");
    self_ = this;
    magic_ = kLive;
    ++g_led.constructed;
    ++g_cnt[Tag].constructed;
    fill();
  }
  void fill() {
    if constexpr (Pad != 0)
      for (size_t i = 0; i < Pad; ++i) pad_[i] = static_cast<uint8_t>(v_ * 31 + static_cast<int64_t>(i));
  }
  void ok(const char* what) const {
    if (magic_ != kLive) note(std::string(what) + (magic_ == kDead ? ": object already destroyed" : ": not a constructed object"));
    else if (self_ != this) note(std::string(what) + ": object was relocated without its move constructor");
    else if constexpr (Pad != 0) {
      if (pad_[0] != static_cast<uint8_t>(v_ * 31) || pad_[Pad - 1] != static_cast<uint8_t>(v_ * 31 + static_cast<int64_t>(Pad - 1)))
        note(std::string(what) + ": object torn");
    }
  }
  void ok_read(const char* what) const {
    ok(what);
    if (moved_) note(std::string(what) + ": reads a moved-from object");
  }

 public:
  Obj() : v_(0), moved_(false) {
    maybe_throw(kDefault);
    ++g_led.default_ctors;
    ++g_cnt[Tag].default_ctors;
    born();
  }
  explicit Obj(int64_t v) : v_(v), moved_(false) {
    maybe_throw(kValue);
    ++g_led.value_ctors;
    ++g_cnt[Tag].value_ctors;
    born();
  }
  Obj(int64_t a, int64_t b) : Obj(a * 1000 + b) {}
  explicit Obj(Token&& t) : Obj(t.v) { ++t.consumed; }
  explicit Obj(const Token& t) : Obj(t.v) {}
  Obj(const Obj& o) : v_(0), moved_(false) {
    maybe_throw(kCopy);
    o.ok_read("copy construction");
    v_ = o.v_;
    ++g_led.copies;
    ++g_cnt[Tag].copies;
    born();
  }
  Obj(Obj&& o) noexcept : v_(0), moved_(false) {
    o.ok("move construction");
    v_ = o.v_;
    moved_ = o.moved_;
    o.mark_moved();
    ++g_led.moves;
    ++g_cnt[Tag].moves;
    born();
  }
  Obj& operator=(const Obj& o) {
    maybe_throw(kCopy);
    ok("copy assignment target");
    o.ok_read("copy assignment source");
    v_ = o.v_;
    moved_ = o.moved_;
    fill();
    ++g_led.copies;
    ++g_cnt[Tag].copies;
    ++g_led.assigns;
    ++g_cnt[Tag].assigns;
    return *this;
  }
  Obj& operator=(Obj&& o) noexcept {
    ok("move assignment target");
    o.ok("move assignment source");
    if (&o == this) {  // self-move leaves a valid but unspecified value
      mark_moved();
      return *this;
    }
    v_ = o.v_;
    moved_ = o.moved_;
    o.mark_moved();
    fill();
    ++g_led.moves;
    ++g_cnt[Tag].moves;
    ++g_led.assigns;
    ++g_cnt[Tag].assigns;
    return *this;
  }
  Obj& operator=(int64_t v) {  // assignment from another type
    maybe_throw(kCopy);
    ok("assignment target");
    v_ = v;
    moved_ = false;
    fill();
    ++g_led.assigns;
    ++g_cnt[Tag].assigns;
    return *this;
  }
  Obj& operator=(Token&& t) {
    *this = t.v;
    ++t.consumed;
    return *this;
  }
  ~Obj() {
    if (magic_ != kLive) note(magic_ == kDead ? "object destroyed twice" : "destruction of something never constructed");
    else if (self_ != this) note("destruction of an object relocated without its move constructor");
    else if (!g_led.live.erase(this)) note("destruction of an unregistered object");
    magic_ = kDead;
    ++g_led.destroyed;
  }
  void mark_moved() {
    v_ = kMovedValue;
    moved_ = true;
    fill();
  }
  bool moved() const { return moved_; }
  int64_t get() const {
    ok_read("read");
    return v_;
  }
  // Tag 2: equality says nothing about whether two may be confused.
  friend bool operator==(const Obj& a, const Obj& b) { return Tag == 2 || a.get() == b.get(); }
  bool same(const Obj& o) const { return get() == o.get(); }
  friend bool operator<(const Obj& a, const Obj& b) { return a.get() < b.get(); }
  friend bool operator>(const Obj& a, const Obj& b) { return b.get() < a.get(); }
};

using TKey = Obj<0>;
using TVal = Obj<1>;
using TBig = Obj<1, 200>;
using TCoarse = Obj<2>;

}  // namespace trk

namespace codec {
template <int T, size_t P>
struct KeyCodec<trk::Obj<T, P>> {
  static constexpr int64_t universe = 1000000;
  static trk::Obj<T, P> make(int64_t v, int mode) {
    switch (mode) {
      case 1: return trk::Obj<T, P>(-v);
      case 2: return trk::Obj<T, P>(v * 7 - 50);
      default: return trk::Obj<T, P>(v);
    }
  }
};
template <int T, size_t P>
struct ValCodec<trk::Obj<T, P>> {
  static trk::Obj<T, P> make(int64_t v) { return trk::Obj<T, P>(v); }
};
template <int T, size_t P>
std::string show(const trk::Obj<T, P>& o) {
  return "obj" + std::to_string(o.get());
}
}  // namespace codec
