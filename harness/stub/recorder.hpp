// Recording containers that stand in for the ones the benchmark measures, with
// a simulated cycle counter.  Everything is written to shared memory, so that
// the parent process can read it.
#pragma once
#include <sys/mman.h>

#include <array>
#include <chrono>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <utility>

#include <fast_containers/btree.hpp>

namespace rec {
struct Op {
  char kind;  // i insert, f find, e erase, b iteration started, n step of it
  bool hit;
  uint32_t cost;
  int64_t key;
};
struct RunRec {
  char name[64];
  uint32_t from, to;
  uint64_t peak, left;
  bool moved_twice, ended;
};
struct Shared {
  uint64_t tsc = 0;
  double rate = 1;  // cycles per nanosecond
  uint64_t salt = 0;
  uint32_t nops = 0, nruns = 0;
  bool overflow = false;
  RunRec runs[256];
  Op ops[1 << 20];
};
inline Shared* sh = [] {
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) abort();
  return static_cast<Shared*>(p);
}();
inline void reset(uint64_t salt, double rate) {
  sh->tsc = 1000000007ULL + salt % 1000003;
  sh->rate = rate;
  sh->salt = salt;
  sh->nops = sh->nruns = 0;
  sh->overflow = false;
}
inline uint64_t rdtsc() { return sh->tsc; }
inline uint64_t rdtscp(unsigned* aux) {
  *aux = 0;
  return sh->tsc;
}
inline uint32_t cost(char kind) {
  uint64_t h = (sh->salt + sh->nops) * 0x9E3779B97F4A7C15ULL;
  h ^= h >> 29;
  uint32_t v = static_cast<uint32_t>(h % 997);
  switch (kind) {
    case 'i':
      return 5000 + v;
    case 'f':
      return 20000 + v;
    case 'e':
      return 70000 + v;
    case 'b':
      return 300000 + v;
    default:
      return 11 + v % 7;
  }
}
inline void log(char kind, int64_t key, bool hit) {
  uint32_t c = cost(kind);
  sh->tsc += c;
  if (sh->nops < sizeof(sh->ops) / sizeof(Op))
    sh->ops[sh->nops++] = {kind, hit, c, key};
  else
    sh->overflow = true;
}
// Calls that are not among the measured operations.
inline void elsewhere() { sh->tsc += 1000003; }

struct fake_clock {
  using duration = std::chrono::nanoseconds;
  using rep = duration::rep;
  using period = duration::period;
  using time_point = std::chrono::time_point<fake_clock>;
  static constexpr bool is_steady = true;
  static time_point now() { return time_point(duration(static_cast<rep>(static_cast<double>(sh->tsc) / sh->rate))); }
};

inline int64_t as_i64(int64_t k) { return k; }
template <class K>
int64_t as_i64(const K& k) {
  uint64_t h = 1469598103934665603ULL;
  for (auto& x : k) h = (h ^ static_cast<uint64_t>(x)) * 1099511628211ULL;
  return static_cast<int64_t>(h);
}

template <class A>
struct is_std_alloc : std::false_type {};
template <class T>
struct is_std_alloc<std::allocator<T>> : std::true_type {};

// Name: static std::string get()
template <class K, class V, class Name, class A>
class container {
  std::map<K, V> m_;
  int run_ = -1;
  void start() {
    if (run_ >= 0) return;
    run_ = static_cast<int>(sh->nruns);
    if (sh->nruns >= 256) {
      sh->overflow = true;
      return;
    }
    auto& r = sh->runs[sh->nruns++];
    r = RunRec{};
    snprintf(r.name, sizeof r.name, "%s%s", Name::get().c_str(), is_std_alloc<A>::value ? "" : "_hp");
    r.from = r.to = sh->nops;
  }
  void op(char kind, int64_t key, bool hit) {
    start();
    log(kind, key, hit);
    if (run_ < 256) {
      auto& r = sh->runs[run_];
      r.to = sh->nops;
      r.peak = m_.size() > r.peak ? m_.size() : r.peak;
      r.left = m_.size();
    }
  }

 public:
  using key_type = K;
  using mapped_type = V;
  using value_type = std::pair<const K, V>;
  using size_type = size_t;
  using allocator_type = A;
  struct iterator {
    typename std::map<K, V>::iterator it;
    container* c = nullptr;
    using iterator_category = std::bidirectional_iterator_tag;
    using value_type = container::value_type;
    using difference_type = ptrdiff_t;
    using pointer = value_type*;
    using reference = value_type&;
    value_type& operator*() const { return *it; }
    value_type* operator->() const { return &*it; }
    iterator& operator++() {
      c->op('n', as_i64(it->first), true);
      ++it;
      return *this;
    }
    iterator operator++(int) {
      iterator o = *this;
      ++*this;
      return o;
    }
    bool operator==(const iterator& o) const { return it == o.it; }
  };
  using const_iterator = iterator;
  container() { elsewhere(); }
  explicit container(const A&) { elsewhere(); }
  container(container&& o) noexcept : m_(std::move(o.m_)), run_(o.run_) {
    elsewhere();
    o.run_ = -1;
    o.m_.clear();
  }
  container(const container& o) : m_(o.m_) { elsewhere(); }
  container& operator=(const container&) = delete;
  ~container() {
    elsewhere();
    if (run_ >= 0 && run_ < 256) sh->runs[run_].ended = true;
  }
  std::pair<iterator, bool> insert(const value_type& v) {
    auto r = m_.insert(v);
    op('i', as_i64(v.first), r.second);
    return {{r.first, this}, r.second};
  }
  std::pair<iterator, bool> insert(const K& k, const V& v) { return insert(value_type(k, v)); }
  template <class... X>
  std::pair<iterator, bool> emplace(X&&... x) {
    return insert(value_type(std::forward<X>(x)...));
  }
  template <class... X>
  std::pair<iterator, bool> try_emplace(const K& k, X&&... x) {
    return insert(value_type(k, V(std::forward<X>(x)...)));
  }
  iterator find(const K& k) {
    auto it = m_.find(k);
    op('f', as_i64(k), it != m_.end());
    return {it, this};
  }
  bool contains(const K& k) { return find(k).it != m_.end(); }
  size_t count(const K& k) { return contains(k); }
  size_t erase(const K& k) {
    size_t n = m_.erase(k);
    op('e', as_i64(k), n > 0);
    return n;
  }
  iterator begin() {
    op('b', 0, true);
    return {m_.begin(), this};
  }
  iterator end() { return {m_.end(), this}; }
  iterator cbegin() { return begin(); }
  iterator cend() { return end(); }
  size_t size() const {
    elsewhere();
    return m_.size();
  }
  bool empty() const { return m_.empty(); }
};

inline std::string kv(size_t k, size_t v) { return "_" + std::to_string(k) + "_" + std::to_string(v); }
template <class V>
struct measured : std::false_type {};
template <size_t N>
struct measured<std::array<std::byte, N>> : std::true_type {};

#define REC_NAME(N, S)                                                                   \
  template <class K, class V>                                                            \
  struct N {                                                                             \
    static std::string get() { return S + kv(sizeof(K), sizeof(V)); }                    \
  };
REC_NAME(AbslName, "absl")
REC_NAME(MapName, "map")
REC_NAME(UnorderedName, "unordered_map")
REC_NAME(DenseName, "unordered_dense")
#undef REC_NAME
template <class K, class V, size_t L, size_t I, kressler::fast_containers::SearchMode S>
struct BtreeName {
  static std::string get() {
    using kressler::fast_containers::SearchMode;
    return "btree" + kv(sizeof(K), sizeof(V)) + kv(L, I) + (S == SearchMode::Linear ? "_linear" : S == SearchMode::Binary ? "_binary" : "_simd");
  }
};
template <class K, class V, class C, class A>
struct MapSel {
  using type = std::map<K, V, C, A>;
};
template <class K, class V, class C, class A>
  requires measured<V>::value
struct MapSel<K, V, C, A> {
  using type = container<K, V, MapName<K, V>, A>;
};
template <class K, class V, class H, class E, class A>
struct UMapSel {
  using type = std::unordered_map<K, V, H, E, A>;
};
template <class K, class V, class H, class E, class A>
  requires measured<V>::value
struct UMapSel<K, V, H, E, A> {
  using type = container<K, V, UnorderedName<K, V>, A>;
};
}  // namespace rec

namespace std {
template <class K, class V, class C = std::less<K>, class A = std::allocator<std::pair<const K, V>>>
using rec_map = typename rec::MapSel<K, V, C, A>::type;
template <class K, class V, class H = std::hash<K>, class E = std::equal_to<K>, class A = std::allocator<std::pair<const K, V>>>
using rec_unordered_map = typename rec::UMapSel<K, V, H, E, A>::type;
namespace chrono {
using fake_clock = rec::fake_clock;
}
}  // namespace std
namespace absl {
template <class K, class V, class C = std::less<K>, class A = std::allocator<std::pair<const K, V>>>
using btree_map = rec::container<K, V, rec::AbslName<K, V>, A>;
}
namespace ankerl::unordered_dense {
template <class K, class V, class H = std::hash<K>, class E = std::equal_to<K>, class A = std::allocator<std::pair<K, V>>>
using rec_map = rec::container<K, V, rec::DenseName<K, V>, A>;
}
namespace kressler::fast_containers {
template <class K, class V, size_t L = default_leaf_node_size<K, V>(), size_t I = default_internal_node_size<K>(), class C = std::less<K>, SearchMode S = SearchMode::Linear,
          class A = std::allocator<std::pair<K, V>>>
using rec_btree = rec::container<K, V, rec::BtreeName<K, V, L, I, S>, A>;
}
