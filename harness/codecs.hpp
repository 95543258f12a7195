// Deterministic mapping from small integers (as they appear in case files) to
// keys and values of every type the containers are exercised with.
#pragma once
#include <array>
#include <bit>
#include <cmath>
#include <concepts>
#include <cstdint>
#include <cstring>
#include <limits>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>

namespace codec {

constexpr int kKeyModes = 6;

// Whether two equivalent keys are the very same representative.  Key types
// whose equivalence classes have several members overload rep().
template <class K>
bool same_rep(const K& a, const K& b) {
  if constexpr (std::is_arithmetic_v<K> || std::is_pointer_v<K>) return a == b;
  else if constexpr (requires { rep(a) == rep(b); }) return rep(a) == rep(b);
  else return true;
}

template <class K>
struct KeyCodec;

// ---- integers --------------------------------------------------------------
template <class K>
  requires std::integral<K>
struct KeyCodec<K> {
  // Universe of distinct ids for which make() is injective.
  static constexpr int64_t universe = sizeof(K) == 1 ? 256 : sizeof(K) == 2 ? 60000 : 1000000;
  static K make(int64_t v, int mode) {
    using U = std::make_unsigned_t<K>;
    constexpr int bits = sizeof(K) * 8;
    U u = static_cast<U>(v);
    switch (mode) {
      case 1:  // spread over the whole range
        return static_cast<K>(static_cast<U>(u * static_cast<U>(0x9E3779B97F4A7C15ULL)));
      case 2:  // around zero (around 2^(n-1) and 0 for unsigned)
        return static_cast<K>(static_cast<U>(u - static_cast<U>(100)));
      case 3:  // just below the maximum
        return static_cast<K>(static_cast<U>(static_cast<U>(std::numeric_limits<K>::max()) - u));
      case 4:  // just above the minimum
        return static_cast<K>(static_cast<U>(static_cast<U>(std::numeric_limits<K>::min()) + u));
      case 5: {  // differ only in the top bits / bit reversed
        U r = 0;
        for (int i = 0; i < bits; ++i)
          if (static_cast<U>(u >> i) & U{1}) r = static_cast<U>(r | static_cast<U>(U{1} << (bits - 1 - i)));
        return static_cast<K>(r);
      }
      default:
        return static_cast<K>(u);
    }
  }
};

// ---- floating point ----------------------------------------------------------
template <class K>
  requires std::floating_point<K>
struct KeyCodec<K> {
  static constexpr int64_t universe = 60000;
  static K make(int64_t v, int mode) {
    using B = std::conditional_t<sizeof(K) == 4, uint32_t, uint64_t>;
    switch (mode) {
      case 1: {  // spread bit patterns, no NaN; alternate signs
        B m = static_cast<B>(static_cast<B>(v) * static_cast<B>(sizeof(K) == 4 ? 2654435761ULL : 0x9E3779B97F4A7C15ULL));
        K k = std::bit_cast<K>(m);
        if (std::isnan(k)) k = static_cast<K>(v);
        return k;
      }
      case 2:
        return (static_cast<K>(v) - static_cast<K>(100)) / static_cast<K>(4);
      case 3: {  // neighbours of 1.0 in the last place
        B one = std::bit_cast<B>(static_cast<K>(1));
        return std::bit_cast<K>(static_cast<B>(one + static_cast<B>(v)));
      }
      case 4: {  // subnormals of both signs and zeros
        B b = static_cast<B>(v / 2);
        K k = std::bit_cast<K>(b);
        return (v & 1) ? -k : k;
      }
      case 5: {  // specials first, then huge magnitudes
        switch (v) {
          case 0: return std::numeric_limits<K>::infinity();
          case 1: return -std::numeric_limits<K>::infinity();
          case 2: return std::numeric_limits<K>::max();
          case 3: return std::numeric_limits<K>::lowest();
          case 4: return std::numeric_limits<K>::min();
          case 5: return -std::numeric_limits<K>::min();
          case 6: return static_cast<K>(0);
          case 7: return -static_cast<K>(0);
          default: break;
        }
        K k = std::ldexp(static_cast<K>(1 + (v % 97) / static_cast<K>(128)), static_cast<int>(v % 120) - 20);
        return (v & 1) ? -k : k;
      }
      default:
        return static_cast<K>(v);
    }
  }
};

// ---- strings -----------------------------------------------------------------
template <>
struct KeyCodec<std::string> {
  static constexpr int64_t universe = 1000000;
  static std::string make(int64_t v, int mode) {
    uint64_t u = static_cast<uint64_t>(v);
    char buf[64];
    switch (mode) {
      case 1:
        snprintf(buf, sizeof buf, "%llu", static_cast<unsigned long long>(u * 2654435761ULL % 100000007ULL));
        return buf;
      case 2: {  // long, heap allocated, long common prefix
        snprintf(buf, sizeof buf, "%012llu", static_cast<unsigned long long>(u));
        return std::string(40, 'p') + buf;
      }
      case 3: {  // binary content incl. NUL and bytes >= 0x80
        std::string s;
        do {
          s.push_back(static_cast<char>(u & 0xff));
          u >>= 8;
        } while (u);
        return s;
      }
      case 4:  // prefixes of one another
        snprintf(buf, sizeof buf, "%llu", static_cast<unsigned long long>(u / 5));
        return std::string(buf) + std::string(u % 5, 'z');
      case 5: {
        std::string s;
        for (int i = 0; i < 20; ++i) s.push_back((u >> i) & 1 ? 'b' : 'a');
        return s;
      }
      default:
        snprintf(buf, sizeof buf, "k%07llu", static_cast<unsigned long long>(u));
        return buf;
    }
  }
};

// ---- fixed byte arrays ---------------------------------------------------------
template <size_t N>
struct KeyCodec<std::array<uint8_t, N>> {
  static constexpr int64_t universe = 1000000;
  static std::array<uint8_t, N> make(int64_t v, int mode) {
    std::array<uint8_t, N> a{};
    uint64_t u = static_cast<uint64_t>(v);
    for (int i = 0; i < 8 && i < static_cast<int>(N); ++i) {
      size_t pos = (mode & 1) ? static_cast<size_t>(i) : N - 1 - static_cast<size_t>(i);
      a[pos] = static_cast<uint8_t>(u >> (8 * i));
    }
    return a;
  }
};

// Pair keys: ordered by first then second.
template <>
struct KeyCodec<std::pair<int, int>> {
  static constexpr int64_t universe = 1000000;
  static std::pair<int, int> make(int64_t v, int mode) {
    if (mode & 1) return {static_cast<int>(v % 7), static_cast<int>(v)};
    return {static_cast<int>(v / 16) - 5, static_cast<int>(v % 16)};
  }
};

// ---- values --------------------------------------------------------------------
template <class V>
struct ValCodec;

template <class V>
  requires std::is_arithmetic_v<V>
struct ValCodec<V> {
  static V make(int64_t v) { return static_cast<V>(v); }
};
template <>
struct ValCodec<std::string> {
  static std::string make(int64_t v) {
    // mixes SSO and heap strings
    std::string s = "v" + std::to_string(v);
    if (v % 3 == 0) s += std::string(30 + static_cast<size_t>(v % 17 + 17) % 17, '#');
    return s;
  }
};
template <size_t N>
struct Blob {
  std::array<uint8_t, N> d{};
  bool operator==(const Blob&) const = default;
};
template <size_t N>
struct ValCodec<Blob<N>> {
  static Blob<N> make(int64_t v) {
    Blob<N> b;
    uint64_t x = static_cast<uint64_t>(v) * 0x9E3779B97F4A7C15ULL;
    for (size_t i = 0; i < N; ++i) {
      b.d[i] = static_cast<uint8_t>(x >> (8 * (i & 7)));
      if ((i & 7) == 7) x = x * 6364136223846793005ULL + 1442695040888963407ULL;
    }
    return b;
  }
};
template <>
struct ValCodec<std::shared_ptr<int>> {
  static std::shared_ptr<int> make(int64_t v) { return std::make_shared<int>(static_cast<int>(v)); }
};

template <class T>
std::string show(const T& t) {
  if constexpr (std::is_arithmetic_v<T>) {
    if constexpr (sizeof(T) == 1) return std::to_string(static_cast<int>(t));
    else return std::to_string(t);
  } else if constexpr (std::is_same_v<T, std::string>) {
    std::string o = "\"";
    for (char c : t) {
      if (c >= 32 && c < 127) o += c;
      else {
        char b[8];
        snprintf(b, sizeof b, "\\x%02x", static_cast<unsigned char>(c));
        o += b;
      }
    }
    return o + "\"";
  } else if constexpr (requires { t.first; t.second; }) {
    return "(" + show(t.first) + "," + show(t.second) + ")";
  } else if constexpr (requires { t.size(); t[0]; }) {
    std::string o = "[";
    for (auto& x : t) o += show(x) + " ";
    return o + "]";
  } else {
    return "<obj>";
  }
}

}  // namespace codec

namespace codec {
template <class T>
struct ValCodec<T*> {
  static T* make(int64_t v) { return reinterpret_cast<T*>(static_cast<uintptr_t>(v) * 16); }
};
}  // namespace codec
