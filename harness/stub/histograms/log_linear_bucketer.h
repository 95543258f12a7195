#pragma once
namespace kressler::histograms {
template <int A, int B, int C>
struct LogLinearBucketer {};
}  // namespace kressler::histograms
