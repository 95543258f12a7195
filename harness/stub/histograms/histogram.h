// Exact stand-in: keeps every observation.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <vector>
namespace kressler::histograms {
inline double exact_percentile(std::vector<uint64_t> v, double p) {
  if (v.empty()) return 0;
  std::sort(v.begin(), v.end());
  double pos = p * static_cast<double>(v.size() - 1);
  size_t i = static_cast<size_t>(pos);
  double frac = pos - static_cast<double>(i);
  return i + 1 < v.size() ? static_cast<double>(v[i]) * (1 - frac) + static_cast<double>(v[i + 1]) * frac : static_cast<double>(v[i]);
}
template <class Bucketer>
class Histogram {
  std::vector<uint64_t> obs_;

 public:
  void observe(uint64_t v) { obs_.push_back(v); }
  std::vector<double> percentiles(const std::vector<double>& ps) const {
    std::vector<double> r;
    for (double p : ps) r.push_back(exact_percentile(obs_, p));
    return r;
  }
  double percentile(double p) const { return exact_percentile(obs_, p); }
};
}  // namespace kressler::histograms
