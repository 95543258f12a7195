// C20: key identity is decided by the comparator alone.  Trees and array maps
// over key types whose equality operator is missing, constant, or finer than the
// comparator's equivalence, against std::map with the same comparator.
#ifndef PART
#define PART 0
#endif
#if PART != 0
#define PBT_NO_MAIN
#endif
#include <cmath>
#include <cstring>

#include "codecs.hpp"
namespace ck {
// classes of 4 members, exact operator==
struct Exact {
  int v;
  bool operator==(const Exact&) const = default;
};
struct ExactLess {
  bool operator()(const Exact& a, const Exact& b) const { return a.v / 4 < b.v / 4; }
};
// operator== that changes its mind on every call (the type without any
// operator== is exercised by probe_flipeq.cpp, since it cannot even compile when
// the library needs one)
inline unsigned g_flip = 0;
struct NoEq {
  int id;
  int tag;
  bool operator==(const NoEq&) const { return ++g_flip & 1; }
  bool operator!=(const NoEq&) const { return ++g_flip & 1; }
};
struct NoEqLess {
  bool operator()(const NoEq& a, const NoEq& b) const { return a.id > b.id; }
};
// everything is "equal", and the built-in order is reversed
struct AllEq {
  int id;
  int tag;
  bool operator==(const AllEq&) const { return true; }
  bool operator!=(const AllEq&) const { return false; }
  bool operator<(const AllEq& o) const { return id > o.id; }
};
struct AllEqLess {
  bool operator()(const AllEq& a, const AllEq& b) const { return a.id < b.id; }
};
// nothing is "equal", not even to itself
struct NeverEq {
  int id;
  std::string pad = std::string(20, 'x');
  bool operator==(const NeverEq&) const { return false; }
  bool operator!=(const NeverEq&) const { return true; }
  bool operator<(const NeverEq&) const { return true; }
};
struct NeverEqLess {
  bool operator()(const NeverEq& a, const NeverEq& b) const { return a.id < b.id; }
};
// equality by another member than the order
struct CrossEq {
  int id;
  int tag;
  bool operator==(const CrossEq& o) const { return tag == o.tag; }
};
struct CrossEqLess {
  bool operator()(const CrossEq& a, const CrossEq& b) const { return a.id < b.id; }
};
// case-insensitive strings
struct CiLess {
  bool operator()(const std::string& a, const std::string& b) const {
    size_t n = std::min(a.size(), b.size());
    for (size_t i = 0; i < n; ++i) {
      int x = std::tolower(static_cast<unsigned char>(a[i])), y = std::tolower(static_cast<unsigned char>(b[i]));
      if (x != y) return x < y;
    }
    return a.size() < b.size();
  }
};
struct Ci {
  std::string s;
  bool operator==(const Ci&) const = default;
};
struct CiKeyLess {
  bool operator()(const Ci& a, const Ci& b) const { return CiLess()(a.s, b.s); }
};
// plain int keys, identified modulo something, in a scrambled order
struct ModLess {
  bool operator()(int a, int b) const { return ((a & 0xffff) ^ 0x55) < ((b & 0xffff) ^ 0x55); }
};
// doubles identified by their integer part, descending
struct FloorGreater {
  bool operator()(double a, double b) const { return std::floor(a) > std::floor(b); }
};
// C strings by content: equal content at different addresses
struct CstrLess {
  bool operator()(const char* a, const char* b) const { return std::strcmp(a, b) < 0; }
};
// absolute value
struct AbsLess {
  bool operator()(int64_t a, int64_t b) const { return std::llabs(a) < std::llabs(b); }
};
inline auto rep(const Exact& k) { return k.v; }
inline auto rep(const NoEq& k) { return std::pair(k.id, k.tag); }
inline auto rep(const AllEq& k) { return std::pair(k.id, k.tag); }
inline auto rep(const CrossEq& k) { return std::pair(k.id, k.tag); }
inline auto rep(const Ci& k) { return k.s; }
inline const char* pool(int64_t i) {
  // 4 copies of each content at different addresses
  static char text[4][3000][8];
  static bool done = false;
  if (!done) {
    for (auto& c : text)
      for (int j = 0; j < 3000; ++j) snprintf(c[j], 8, "%05d", j * 37 % 3001);
    done = true;
  }
  return text[i % 4][(i / 4) % 3000];
}
}  // namespace ck
namespace codec {
template <>
struct KeyCodec<ck::Exact> {
  static constexpr int64_t universe = 1000000;
  static ck::Exact make(int64_t v, int mode) {
    int x = static_cast<int>(v);
    if (mode & 1) x = static_cast<int>((v * 5) % 4 + v / 4 * 4);
    if (mode & 2) x += 1 << 20;
    return {x};
  }
};
template <class T>
  requires(std::is_same_v<T, ck::NoEq> || std::is_same_v<T, ck::AllEq> || std::is_same_v<T, ck::CrossEq>)
struct KeyCodec<T> {
  static constexpr int64_t universe = 1000000;
  static T make(int64_t v, int mode) {
    int cls = (mode & 1) ? 3 : 2;
    int id = static_cast<int>(v / cls), tag = static_cast<int>(v % cls);
    if (mode & 2) id = id * 7919 % 1000003;
    if (mode & 4) tag += id % 5;
    return {id, tag};
  }
};
template <>
struct KeyCodec<ck::NeverEq> {
  static constexpr int64_t universe = 1000000;
  static ck::NeverEq make(int64_t v, int mode) { return {static_cast<int>((mode & 1) ? -v : v)}; }
};
template <>
struct KeyCodec<ck::Ci> {
  static constexpr int64_t universe = 1000000;
  static ck::Ci make(int64_t v, int mode) {
    std::string s;
    int64_t x = v / 4;
    for (int i = 0; i < 5; ++i) {
      s.push_back(static_cast<char>('a' + (mode & 1 ? x % 26 : (x >> (4 * (4 - i))) & 15)));
      if (mode & 1) x /= 26;
    }
    if (mode & 2) s = "AnExtraLongCommonPrefixOfTheKeys" + s;
    for (int i = 0; i < 2; ++i)
      if (v >> i & 1) s[s.size() - 1 - static_cast<size_t>(i) * 2] = static_cast<char>(std::toupper(s[s.size() - 1 - static_cast<size_t>(i) * 2]));
    return {s};
  }
};
template <>
struct KeyCodec<const char*> {
  static constexpr int64_t universe = 12000;
  static const char* make(int64_t v, int) { return ck::pool(v); }
};
}  // namespace codec

#include "dmap_model.hpp"
#include "tree_model.hpp"

namespace {
using namespace kressler::fast_containers;
// The three modes of int keys that exercise ModLess need equivalent pairs:
struct WInt {
  int v;
  bool operator==(const WInt&) const = default;
};
struct WIntLess {
  bool operator()(const WInt& a, const WInt& b) const { return ck::ModLess()(a.v, b.v); }
};
inline auto rep(const WInt& k) { return k.v; }
}  // namespace
namespace codec {
template <>
struct KeyCodec<WInt> {
  static constexpr int64_t universe = 180000;
  static WInt make(int64_t v, int mode) {
    int base = static_cast<int>(v / 3), t = static_cast<int>(v % 3);
    return {base + ((mode & 1) ? -t : t) * 0x10000};
  }
};
}  // namespace codec

namespace {
constexpr auto Bin = SearchMode::Binary;
constexpr auto Lin = SearchMode::Linear;
template <class K, class V, size_t L, size_t I, class C, SearchMode S>
using T_ = btree<K, V, L, I, C, S, tmod::CountAlloc<std::pair<K, V>>>;
// quarter steps: four doubles per integer part
struct QLess {
  bool operator()(double a, double b) const { return std::floor(a / 4) > std::floor(b / 4); }
};
struct I5 {
  bool operator()(int a, int b) const { return (a >> 2) < (b >> 2); }
};
struct U5 {
  bool operator()(uint32_t a, uint32_t b) const { return (a >> 2) > (b >> 2); }
};

struct R {
  R() {
    constexpr unsigned A = tmod::kOutcome | tmod::kLookup | tmod::kPos;
    (void)A;
#if PART == 0
    tmod::reg<T_<ck::Exact, int, 8, 8, ck::ExactLess, Bin>>("tree_exact_8_8_bin", A, 2);
    tmod::reg<T_<ck::NoEq, int, 8, 9, ck::NoEqLess, Lin>>("tree_flipeq_8_9_lin", A, 2);
#elif PART == 1
    tmod::reg<T_<ck::AllEq, int, 8, 8, ck::AllEqLess, Bin>>("tree_alleq_8_8_bin", A, 2);
    tmod::reg<T_<ck::NeverEq, std::string, 8, 8, ck::NeverEqLess, Lin>>("tree_nevereq_8_8_lin", A, 1);
#elif PART == 2
    tmod::reg<T_<ck::Ci, std::string, 9, 8, ck::CiKeyLess, Bin>>("tree_ci_9_8_bin", A, 2);
    tmod::reg<T_<WInt, int, 16, 8, WIntLess, Lin>>("tree_modint_16_8_lin", A, 1);
#elif PART == 3
    tmod::reg<T_<int, int, 8, 8, I5, Bin>>("tree_int_shift_8_8_bin", A, 2);
    tmod::reg<T_<double, int, 10, 8, QLess, Lin>>("tree_double_floor_10_8_lin", A, 1);
    tmod::reg<T_<const char*, int, 8, 8, ck::CstrLess, Bin>>("tree_cstr_8_8_bin", A, 1);
#elif PART == 4
    tmod::reg<btree<ck::CrossEq, int, 12, 8, ck::CrossEqLess, Bin>>("tree_crosseq_12_8_stdalloc", A, 1);
    dmod::reg<dense_map<ck::CrossEq, int, 16, ck::CrossEqLess, Lin>>("map_crosseq_16_lin");
    dmod::reg<dense_map<ck::NoEq, int, 8, ck::NoEqLess, Bin>>("map_flipeq_8_bin");
    dmod::reg<dense_map<ck::Exact, std::string, 7, ck::ExactLess, Lin>>("map_exact_7_lin");
#elif PART == 5
    dmod::reg<dense_map<ck::AllEq, int, 12, ck::AllEqLess, Bin>>("map_alleq_12_bin");
    dmod::reg<dense_map<ck::NeverEq, int, 9, ck::NeverEqLess, Lin>>("map_nevereq_9_lin");
    dmod::reg<dense_map<ck::Ci, int, 20, ck::CiKeyLess, Bin>>("map_ci_20_bin");
    dmod::reg<dense_map<uint32_t, int, 24, U5, Lin>>("map_u32_shift_24_lin");
    dmod::reg<dense_map<const char*, int, 32, ck::CstrLess, Bin>>("map_cstr_32_bin");
#endif
  }
} r_;
}  // namespace
