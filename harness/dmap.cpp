// C11: dense_map against std::map with a capacity.
#ifndef PART
#define PART 0
#endif
#if PART != 0
#define PBT_NO_MAIN
#endif
#include "dmap_model.hpp"
using namespace dmod;
namespace {
constexpr auto Bin = SearchMode::Binary;
constexpr auto Lin = SearchMode::Linear;
constexpr auto Simd = SearchMode::SIMD;
using std::greater;
using std::less;
using std::string;
struct R {
  R() {
#if PART == 0
    reg<dense_map<int, int, 8>>("int_int_8_bin", 2);
    reg<dense_map<int, int, 1>>("int_int_1_bin");
    reg<dense_map<int, int, 2, less<int>, Lin>>("int_int_2_lin");
    reg<dense_map<int64_t, string, 7, less<int64_t>, Simd>>("i64_str_7_simd");
    reg<dense_map<uint8_t, int, 64, greater<uint8_t>, Simd>>("u8_int_64_greater_simd");
#elif PART == 1
    reg<dense_map<string, int, 8, less<string>, Bin>>("str_int_8_bin", 2);
    reg<dense_map<string, string, 16, greater<string>, Lin>>("str_str_16_greater_lin");
    reg<dense_map<std::pair<int, int>, int, 5>>("pair_int_5_bin");
    reg<dense_map<std::array<uint8_t, 32>, codec::Blob<24>, 12>>("a32_b24_12_bin");
#elif PART == 2
    reg<dense_map<trk::TKey, trk::TVal, 8>>("obj_obj_8_bin", 2);
    reg<dense_map<int, trk::TVal, 13, less<int>, Simd>>("int_obj_13_simd", 2);
    reg<dense_map<uint16_t, std::shared_ptr<int>, 24, less<uint16_t>, Simd>>("u16_sp_24_simd");
    reg<dense_map<float, int, 17, less<float>, Simd>>("f32_int_17_simd");
#elif PART == 3
    reg<dense_map<double, codec::Blob<256>, 10, greater<double>, Simd>>("f64_b256_10_greater_simd");
    reg<dense_map<int8_t, int8_t, 100, less<int8_t>, Simd>>("i8_i8_100_simd");
    reg<dense_map<uint32_t, int, 33, less<uint32_t>, Simd>>("u32_int_33_simd");
    reg<dense_map<int16_t, int, 40, greater<int16_t>, Lin>>("i16_int_40_greater_lin");
    reg<dense_map<uint64_t, int64_t, 128, less<uint64_t>, Bin>>("u64_i64_128_bin");
    reg<dense_map<uint16_t, int, 300, less<uint16_t>, Simd>>("u16_int_300_simd");
#endif
  }
} r_;
}  // namespace
