// C10: the position found by linear, binary and SIMD search of an array map, for
// every primitive key type, both orders and many capacities, against
// std::lower_bound / std::upper_bound on a plain sorted vector.  The slots beyond
// the last element hold adversarial left-over keys.
#ifndef PART
#define PART 0
#endif
#if PART != 0
#define PBT_NO_MAIN
#endif
#include <algorithm>
#include <bit>
#include <cmath>
#include <fast_containers/dense_map.hpp>
#include <limits>

#include "codecs.hpp"
#include "pbt.hpp"

using namespace kressler::fast_containers;
using codec::show;
using pbt::Case;
using pbt::Op;
using pbt::Rng;
using pbt::Stats;

namespace {
enum Op_ { Key, Stale, Probe, kN };

template <class T>
using Bits = std::conditional_t<sizeof(T) == 1, uint8_t,
                                std::conditional_t<sizeof(T) == 2, uint16_t, std::conditional_t<sizeof(T) == 4, uint32_t, uint64_t>>>;

template <class T>
T from_bits(int64_t raw) {
  T t = std::bit_cast<T>(static_cast<Bits<T>>(static_cast<uint64_t>(raw)));
  if constexpr (std::is_floating_point_v<T>)
    if (std::isnan(t)) t = static_cast<T>(raw % 1000);
  return t;
}
template <class T>
int64_t to_bits(T t) {
  return static_cast<int64_t>(static_cast<uint64_t>(std::bit_cast<Bits<T>>(t)));
}
template <class T>
T up(T t) {
  if constexpr (std::is_floating_point_v<T>) return std::nextafter(t, std::numeric_limits<T>::infinity());
  else return t == std::numeric_limits<T>::max() ? t : static_cast<T>(t + 1);
}
template <class T>
T down(T t) {
  if constexpr (std::is_floating_point_v<T>) return std::nextafter(t, -std::numeric_limits<T>::infinity());
  else return t == std::numeric_limits<T>::min() ? t : static_cast<T>(t - 1);
}

template <class T>
T draw(Rng& r, int dist, T base) {
  using L = std::numeric_limits<T>;
  if constexpr (std::is_floating_point_v<T>) {
    switch (dist) {
      case 0: return static_cast<T>(r.range(-40, 40));
      case 1: return from_bits<T>(static_cast<int64_t>(r.next()));
      case 2: {
        static const T sp[] = {0, -T(0), L::infinity(), -L::infinity(), L::max(), L::lowest(), L::min(), -L::min(),
                               L::denorm_min(), -L::denorm_min(), 1, -1, L::epsilon()};
        return sp[r.below(13)];
      }
      case 3: {  // neighbours
        T t = base;
        for (int64_t i = r.range(0, 20); i > 0; --i) t = up(t);
        return t;
      }
      case 4: return (r.chance(1, 2) ? -1 : 1) * std::bit_cast<T>(static_cast<Bits<T>>(r.below(60)));  // subnormals
      default: return static_cast<T>(r.range(-1000, 1000)) / static_cast<T>(8) + base * static_cast<T>(1e-3);
    }
  } else {
    switch (dist) {
      case 0: return static_cast<T>(r.range(-40, 40));
      case 1: return static_cast<T>(r.next());
      case 2: {
        T t = r.chance(1, 2) ? L::max() : L::min();
        int64_t d = r.range(0, 40);
        return t == L::max() ? static_cast<T>(t - static_cast<T>(d)) : static_cast<T>(t + static_cast<T>(d));
      }
      case 3: return static_cast<T>(base + static_cast<T>(r.range(-30, 30)));
      case 4: {  // differ in single (mostly high) bits
        unsigned n = sizeof(T) * 8;
        unsigned b = n - 1 - static_cast<unsigned>(r.below(r.chance(1, 2) ? n : std::min(n, 4u)));
        Bits<T> x = static_cast<Bits<T>>(base);
        x = static_cast<Bits<T>>(x ^ static_cast<Bits<T>>(Bits<T>{1} << b));
        if (r.chance(1, 2)) x = static_cast<Bits<T>>(x ^ static_cast<Bits<T>>(Bits<T>{1} << r.below(n)));
        return static_cast<T>(x);
      }
      default: {  // around the signed/unsigned turning point
        Bits<T> x = static_cast<Bits<T>>(Bits<T>{1} << (sizeof(T) * 8 - 1));
        return static_cast<T>(static_cast<Bits<T>>(x + static_cast<Bits<T>>(r.range(-60, 60))));
      }
    }
  }
}

template <class T, class Cmp, size_t Cap>
struct Sess {
  template <SearchMode M>
  using Map = dense_map<T, uint8_t, Cap, Cmp, M>;

  template <SearchMode M>
  static void one(const std::vector<T>& keys, const std::vector<T>& stale, const std::vector<T>& probes, const char* mname) {
    Cmp cmp;
    // Exact heap block, so that reading outside the map is seen by the sanitizer.
    auto holder = std::make_unique<Map<M>>();
    Map<M>& d = *holder;
    for (auto& k : stale) d.insert(k, 1);
    d.clear();
    for (auto& k : keys) d.insert(k, 2);
    CHECK_MSG(d.size() == keys.size(), mname << ": " << d.size() << " of " << keys.size() << " keys stored");
    const Map<M>& cd = d;
    for (auto& p : probes) {
      size_t lo = static_cast<size_t>(std::lower_bound(keys.begin(), keys.end(), p, cmp) - keys.begin());
      size_t hi = static_cast<size_t>(std::upper_bound(keys.begin(), keys.end(), p, cmp) - keys.begin());
      size_t l = static_cast<size_t>(d.lower_bound(p) - d.begin());
      size_t cl = static_cast<size_t>(cd.lower_bound(p) - cd.begin());
      size_t h = static_cast<size_t>(d.upper_bound(p) - d.begin());
      size_t ch = static_cast<size_t>(cd.upper_bound(p) - cd.begin());
      size_t f = static_cast<size_t>(d.find(p) - d.begin());
      size_t cf = static_cast<size_t>(cd.find(p) - cd.begin());
      size_t want_f = lo == hi ? keys.size() : lo;
      CHECK_MSG(l == lo && cl == lo, mname << ": lower_bound(" << show(p) << ") = " << l << "/" << cl << ", expected " << lo << " of " << keys.size());
      CHECK_MSG(h == hi && ch == hi, mname << ": upper_bound(" << show(p) << ") = " << h << "/" << ch << ", expected " << hi << " of " << keys.size());
      CHECK_MSG(f == want_f && cf == want_f, mname << ": find(" << show(p) << ") = " << f << "/" << cf << ", expected " << want_f << " of " << keys.size());
    }
  }

  static std::vector<T> sorted(std::vector<T> v) {
    Cmp cmp;
    std::sort(v.begin(), v.end(), cmp);
    v.erase(std::unique(v.begin(), v.end(), [&](T a, T b) { return !cmp(a, b) && !cmp(b, a); }), v.end());
    if (v.size() > Cap) v.resize(Cap);
    return v;
  }

  static void run(const Case& c, Stats& st) {
    std::vector<T> keys, stale, probes;
    for (auto& o : c.ops) {
      T t = from_bits<T>(o.a);
      (o.code % kN == Key ? keys : o.code % kN == Stale ? stale : probes).push_back(t);
    }
    keys = sorted(keys);
    // left-over keys in the reverse of sorted order as well
    stale = sorted(stale);
    for (auto& k : keys) {
      probes.push_back(k);
      probes.push_back(up(k));
      probes.push_back(down(k));
    }
    using L = std::numeric_limits<T>;
    probes.push_back(L::max());
    probes.push_back(L::lowest());
    probes.push_back(static_cast<T>(0));
    if constexpr (std::is_floating_point_v<T>) {
      probes.push_back(-static_cast<T>(0));
      probes.push_back(L::infinity());
      probes.push_back(-L::infinity());
      probes.push_back(L::denorm_min());
    }
    one<SearchMode::Linear>(keys, stale, probes, "linear");
    one<SearchMode::Binary>(keys, stale, probes, "binary");
    one<SearchMode::SIMD>(keys, stale, probes, "simd");
    st.hit("probes", probes.size());
    st.hit("keys", keys.size());
    if (keys.size() == Cap) st.hit("full_map");
    if (stale.size() > keys.size()) st.hit("stale_tail");
    st.nontrivial = keys.size() >= 2;
    for (auto& k : keys) st.mixin(static_cast<uint64_t>(to_bits(k)));
    st.mixin(probes.size());
  }

  static Case gen(Rng& r) {
    Case c;
    size_t n = r.chance(1, 4) ? Cap : r.below(Cap + 1);
    int dist = static_cast<int>(r.below(6));
    T base = from_bits<T>(static_cast<int64_t>(r.next()));
    if (r.chance(1, 3)) base = static_cast<T>(r.range(-5, 5));
    bool mix = r.chance(1, 3);
    auto d = [&] { return mix ? static_cast<int>(r.below(6)) : dist; };
    for (size_t i = 0; i < n; ++i) c.ops.push_back({Key, to_bits(draw<T>(r, d(), base)), 0, 0});
    if (r.chance(2, 3))
      for (size_t i = 0; i < Cap; ++i) c.ops.push_back({Stale, to_bits(draw<T>(r, r.chance(1, 2) ? d() : 1, base)), 0, 0});
    for (size_t i = r.below(8); i > 0; --i) c.ops.push_back({Probe, to_bits(draw<T>(r, d(), base)), 0, 0});
    return c;
  }
};

template <class T, class Cmp, size_t... Cap>
void reg(const std::string& n) {
  (pbt::configs().push_back({n + "_" + std::to_string(Cap), [](Rng& r) { return Sess<T, Cmp, Cap>::gen(r); },
                             [](const Case& c, Stats& s) { Sess<T, Cmp, Cap>::run(c, s); }, 1}),
   ...);
}
template <class T>
void regt(const char* n) {
  reg<T, std::less<T>, 1, 3, 8, 16, 17, 33, 64, 200>(std::string(n) + "_asc");
  reg<T, std::greater<T>, 2, 5, 9, 24, 32, 40, 129>(std::string(n) + "_desc");
}

struct Init {
  Init() {
#if PART == 0
    regt<int8_t>("i8");
#elif PART == 1
    regt<uint8_t>("u8");
#elif PART == 2
    regt<int16_t>("i16");
#elif PART == 3
    regt<uint16_t>("u16");
#elif PART == 4
    regt<int32_t>("i32");
#elif PART == 5
    regt<uint32_t>("u32");
#elif PART == 6
    regt<int64_t>("i64");
#elif PART == 7
    regt<uint64_t>("u64");
#elif PART == 8
    regt<float>("f32");
#elif PART == 9
    regt<double>("f64");
#elif PART == 10
    reg<char, std::less<char>, 1, 6, 16, 20, 32, 50, 64>("char_asc");
    reg<char, std::greater<char>, 3, 8, 17, 33, 64>("char_desc");
    // positions beyond one byte
    reg<int16_t, std::less<int16_t>, 300>("i16_asc");
    reg<uint32_t, std::greater<uint32_t>, 300>("u32_desc");
    reg<int64_t, std::less<int64_t>, 300>("i64_asc");
    reg<float, std::greater<float>, 300>("f32_desc");
#endif
  }
} init;
}  // namespace
