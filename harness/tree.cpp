// C01-C04: model-based histories over many tree instantiations.
// Compiled once per PART (each part registers some configs); ASPECTS selects
// what is compared with the oracle.
#ifndef PART
#define PART 0
#endif
#if PART != 0
#define PBT_NO_MAIN
#endif
#include "tree_model.hpp"
#ifndef ASPECTS
#define ASPECTS 15
#endif
using namespace tmod;
using std::greater;
using std::less;
using std::string;
template <class T, class U>
using CA = CountAlloc<std::pair<T, U>>;
template <class K, class V, size_t L, size_t I, class C, SearchMode S>
using T_ = btree<K, V, L, I, C, S, CA<K, V>>;
using B256 = codec::Blob<256>;
using B24 = codec::Blob<24>;
using A32 = std::array<uint8_t, 32>;
#ifdef __clang__
constexpr size_t kWide = 64;  // clang refuses more inside dense_map (alignas(64) members)
#else
constexpr size_t kWide = 128;
#endif
struct alignas(kWide) Wide {
  int64_t v = 0;
  Wide() { check(); }
  explicit Wide(int64_t x) : v(x) { check(); }
  Wide(const Wide& o) : v(o.v) { check(); }
  Wide& operator=(const Wide& o) {
    v = o.v;
    check();
    return *this;
  }
  bool operator==(const Wide& o) const { return v == o.v; }
  void check() const {
    auto a = reinterpret_cast<uintptr_t>(this);
    asm("" : "+r"(a));  // the compiler may presume alignment
    if (a % kWide) pbt::fail("an over-aligned value lives at a misaligned address");
  }
};
enum class Enum : uint16_t {};
namespace codec {
template <>
struct ValCodec<Wide> {
  static Wide make(int64_t v) { return Wide(v); }
};
template <>
struct KeyCodec<Enum> {
  static constexpr int64_t universe = KeyCodec<uint16_t>::universe;
  static Enum make(int64_t v, int mode) { return static_cast<Enum>(KeyCodec<uint16_t>::make(v, mode)); }
};
}  // namespace codec
constexpr auto Bin = SearchMode::Binary;
constexpr auto Lin = SearchMode::Linear;
constexpr auto Simd = SearchMode::SIMD;

namespace {
struct R {
  R() {
    [[maybe_unused]] constexpr unsigned A = ASPECTS;
#if PART == 0
    reg<T_<int, int, 8, 8, less<int>, Bin>>("int_int_8_8_less_bin", A, 3);
    reg<T_<string, int, 8, 8, less<string>, Bin>>("str_int_8_8_less_bin", A, 2);
#elif PART == 1
    reg<T_<int, string, 8, 8, less<int>, Lin>>("int_str_8_8_less_lin", A, 2);
    reg<T_<int64_t, int64_t, 9, 9, greater<int64_t>, Simd>>("i64_i64_9_9_greater_simd", A, 2);
#elif PART == 2
    reg<T_<int32_t, int, 8, 8, less<int32_t>, Simd>>("i32_int_8_8_less_simd", A, 2);
    reg<T_<uint8_t, int, 8, 8, less<uint8_t>, Simd>>("u8_int_8_8_less_simd", A, 1);
    reg<btree<int16_t, string, 10, 11, less<int16_t>, Simd>>("i16_str_10_11_less_simd_stdalloc", A, 1);
#elif PART == 3
    reg<T_<float, int, 13, 8, greater<float>, Simd>>("f32_int_13_8_greater_simd", A, 1);
    reg<T_<double, string, 8, 9, less<double>, Simd>>("f64_str_8_9_less_simd", A, 1);
    reg<T_<uint64_t, B256, 8, 12, less<uint64_t>, Simd>>("u64_b256_8_12_less_simd", A, 1);
#elif PART == 4
    reg<T_<string, string, 16, 9, greater<string>, Lin>>("str_str_16_9_greater_lin", A, 1);
    reg<T_<A32, int, 8, 16, less<A32>, Bin>>("a32_int_8_16_less_bin", A, 1);
    reg<btree<int64_t, B24, 96, 128, less<int64_t>, Simd>>("i64_b24_96_128_less_simd_stdalloc", A, 1);
#elif PART == 5
    reg<btree<int, int>>("int_int_defaults", A, 1);
    reg<T_<uint32_t, int, 24, 21, less<uint32_t>, Simd>>("u32_int_24_21_less_simd", A, 1);
    reg<T_<int8_t, int, 12, 8, greater<int8_t>, Simd>>("i8_int_12_8_greater_simd", A, 1);
#elif PART == 6
    // unusual but accepted types: over-aligned values, enumerations, pairs, char, bool, wide nodes
    reg<T_<int, Wide, 8, 8, less<int>, Bin>>("int_wide_8_8_less_bin", A, 1);
    reg<T_<Enum, Wide, 9, 8, less<Enum>, Lin>>("enum_wide_9_8_less_lin", A, 1);
    reg<T_<std::pair<int, int>, int, 8, 8, greater<std::pair<int, int>>, Bin>>("pair_int_8_8_greater_bin", A, 1);
    reg<T_<char, bool, 8, 8, less<char>, Simd>>("char_bool_8_8_less_simd", A, 1);
    reg<T_<int16_t, char, 300, 200, less<int16_t>, Simd>>("i16_char_300_200_less_simd", A, 1);
#endif
  }
} r_;
}  // namespace
