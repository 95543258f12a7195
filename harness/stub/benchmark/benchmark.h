#pragma once
namespace benchmark {
template <class T>
inline void DoNotOptimize(T&& t) {
  asm volatile("" : : "r"(&t) : "memory");
}
inline void ClobberMemory() { asm volatile("" : : : "memory"); }
}  // namespace benchmark
