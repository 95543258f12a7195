// C25: the benchmark program src/binary/btree_benchmark.cpp, run on recording
// stand-ins for every container it measures and on a simulated cycle counter.
#include <bits/stdc++.h>
#include <time.h>

#include <algorithm>
#include <array>
#include <chrono>
#include <cmath>
#include <deque>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <optional>
#include <print>
#include <random>
#include <set>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#if defined(__x86_64__)
#include <x86intrin.h>
#endif
#include <fast_containers/btree.hpp>
#include <fast_containers/hugepage_allocator.hpp>
#include <fast_containers/hugepage_pool.hpp>
#include <fast_containers/multi_size_hugepage_allocator.hpp>
#include <fast_containers/multi_size_hugepage_pool.hpp>
#include <fast_containers/policy_based_hugepage_allocator.hpp>

#include <benchmark/benchmark.h>
#include <histograms/histogram.h>
#include <histograms/log_linear_bucketer.h>
#include <lyra/lyra.hpp>

#include "recorder.hpp"
#define PBT_NO_MAIN
#include "toolrun.hpp"

namespace {
bool simulated = false;
}
extern "C" int __real_nanosleep(const struct timespec*, struct timespec*);
extern "C" int __wrap_nanosleep(const struct timespec* t, struct timespec* r) {
  if (!simulated) return __real_nanosleep(t, r);
  rec::sh->tsc += static_cast<uint64_t>((static_cast<double>(t->tv_sec) * 1e9 + static_cast<double>(t->tv_nsec)) * rec::sh->rate);
  return 0;
}

#define btree rec_btree
#define map rec_map
#define unordered_map rec_unordered_map
#define high_resolution_clock fake_clock
#define steady_clock fake_clock
#define system_clock fake_clock
#define __rdtsc rec::rdtsc
#define __rdtscp rec::rdtscp
#include "binary/btree_benchmark.cpp"
#undef __rdtscp
#undef __rdtsc
#undef system_clock
#undef steady_clock
#undef high_resolution_clock
#undef unordered_map
#undef map
#undef btree

namespace {
using pbt::Case;
using pbt::Rng;
using pbt::Stats;

// The names the documentation, the A/B script's runs and the published results use.
const std::vector<std::string> kNames{
    "btree_8_32_96_128_linear", "btree_8_32_96_128_linear_hp", "btree_8_32_96_128_simd", "btree_8_32_96_128_simd_hp", "absl_8_32", "absl_8_32_hp", "map_8_32", "unordered_map_8_32",
    "unordered_dense_8_32", "btree_8_256_8_128_linear", "btree_8_256_8_128_linear_hp", "btree_8_256_8_128_simd", "btree_8_256_8_128_simd_hp", "absl_8_256", "absl_8_256_hp", "map_8_256",
    "unordered_map_8_256", "unordered_dense_8_256"};

struct Json {
  const std::string& s;
  size_t i = 0;
  std::map<std::string, std::string> leaves;
  [[noreturn]] void bad(const char* m) { pbt::fail("the output is not one JSON document (" + std::string(m) + " at byte " + std::to_string(i) + "): " + s.substr(i > 40 ? i - 40 : 0, 120)); }
  void ws() {
    while (i < s.size() && isspace(static_cast<unsigned char>(s[i]))) ++i;
  }
  std::string str() {
    if (i >= s.size() || s[i] != '"') bad("string expected");
    std::string r;
    for (++i; i < s.size() && s[i] != '"'; ++i) r += s[i];
    if (i >= s.size()) bad("unterminated string");
    ++i;
    return r;
  }
  void value(const std::string& path) {
    ws();
    if (i < s.size() && s[i] == '{') {
      ++i;
      ws();
      if (i < s.size() && s[i] == '}') {
        ++i;
        return;
      }
      for (;;) {
        ws();
        std::string k = str();
        ws();
        if (i >= s.size() || s[i] != ':') bad("colon expected");
        ++i;
        std::string p = path.empty() ? k : path + "." + k;
        if (leaves.count(p)) bad("repeated key");
        value(p);
        ws();
        if (i < s.size() && s[i] == ',') {
          ++i;
          continue;
        }
        if (i < s.size() && s[i] == '}') {
          ++i;
          return;
        }
        bad("comma or brace expected");
      }
    }
    if (i < s.size() && s[i] == '"') {
      leaves[path] = str();
      return;
    }
    size_t j = i;
    while (j < s.size() && (isdigit(static_cast<unsigned char>(s[j])) || strchr("+-.eE", s[j]))) ++j;
    if (j == i) bad("value expected");
    leaves[path] = s.substr(i, j - i);
    i = j;
  }
  void parse() {
    value("");
    ws();
    if (i != s.size()) bad("text after the document");
  }
};

// params: seed, tree size, batches, batch size, iterations, record ramp-up, mode
// (0 text, 1 JSON), rate index, what (0 run, 1 unknown name, 2 batch too large,
// 3 help, 4 JSON with several names), form of the options;  ops: names
Case gen(Rng& r) {
  Case c;
  int64_t n = r.chance(1, 8) ? r.range(0, 3) : r.size(1, 90);
  int64_t what = r.chance(1, 10) ? r.range(1, 4) : 0;
  int64_t bs = r.chance(1, 6) ? n : r.range(0, n);
  if (what == 2) bs = n + r.range(1, 5);
  c.params = {static_cast<int64_t>(r.next() >> 2), n, r.chance(1, 8) ? 0 : r.range(1, 4), bs, r.range(1, 3), r.range(0, 3) ? 1 : 0, r.range(0, 1), r.range(0, 4), what,
              static_cast<int64_t>(r.below(64))};
  int64_t k = what == 4 ? r.range(2, 3) : c.params[6] ? 1 : r.range(1, 3);
  for (int64_t i = 0; i < k; ++i) c.ops.push_back({0, static_cast<int64_t>(r.below(kNames.size())), 0, 0});
  return c;
}
struct Sums {
  std::vector<uint64_t> ins, fnd, ers;
  uint64_t iterate = 0;
};
uint64_t sum(const std::vector<uint64_t>& v) {
  uint64_t s = 0;
  for (auto x : v) s += x;
  return s;
}
bool near(double a, double b, double rel) { return std::fabs(a - b) <= rel * std::max(std::fabs(a), std::fabs(b)) + 1e-9; }

// One run: the documented workload, and what of it is to be measured.
void workload(const rec::RunRec& r, uint64_t n, uint64_t batches, uint64_t bs, bool ramp, Sums& s) {
  uint32_t i = r.from;
  auto* ops = rec::sh->ops;
  std::set<int64_t> present;
  auto next = [&](char k, const char* phase) -> rec::Op& {
    CHECK_MSG(i < r.to, r.name << ": the run ended before '" << phase << "' was complete");
    auto& o = ops[i++];
    CHECK_MSG(o.kind == k, r.name << ": an operation '" << o.kind << "' in the phase '" << phase << "'");
    CHECK_MSG(o.hit, r.name << ": a '" << k << "' in the phase '" << phase << "' met " << (k == 'i' ? "a present" : "a missing") << " key");
    return o;
  };
  auto insert = [&](bool rec, const char* p) {
    auto& o = next('i', p);
    CHECK(present.insert(o.key).second);
    if (rec) s.ins.push_back(o.cost);
  };
  auto erase = [&](bool rec, const char* p) {
    auto& o = next('e', p);
    CHECK(present.erase(o.key) == 1);
    if (rec) s.ers.push_back(o.cost);
  };
  auto find_all = [&](const char* p) {
    std::set<int64_t> f;
    for (uint64_t k = 0; k < n; ++k) {
      auto& o = next('f', p);
      CHECK_MSG(f.insert(o.key).second, r.name << ": a key was looked up twice in the phase '" << p << "'");
      s.fnd.push_back(o.cost);
    }
    CHECK(f == present);
  };
  for (uint64_t k = 0; k < n; ++k) insert(ramp, "filling");
  find_all("finding after filling");
  for (uint64_t b = 0; b < batches; ++b) {
    for (uint64_t k = 0; k < bs; ++k) erase(true, "batch of removals");
    for (uint64_t k = 0; k < bs; ++k) insert(true, "batch of insertions");
    find_all("finding after a batch");
  }
  s.iterate += next('b', "iteration").cost;
  for (uint64_t k = 0; k < n; ++k) s.iterate += next('n', "iteration").cost;
  for (uint64_t k = 0; k < n; ++k) erase(ramp, "emptying");
  CHECK_MSG(i == r.to, r.name << ": " << r.to - i << " more operations than the options ask for");
  CHECK_MSG(r.left == 0 && r.ended, r.name << ": the container was left with " << r.left << " elements");
}

std::vector<std::string> words(const std::string& l, const char* seps) {
  std::vector<std::string> w;
  for (size_t i = 0; i < l.size();) {
    size_t j = l.find_first_of(seps, i);
    if (j == std::string::npos) j = l.size();
    if (j > i) w.push_back(l.substr(i, j - i));
    i = j + 1;
  }
  return w;
}

void run(const Case& c, Stats& st) {
  static const double rates[] = {1.0, 0.5, 2.1, 3.7, 4.25};
  auto* sh = rec::sh;
  uint64_t n = static_cast<uint64_t>(c.param(1)), batches = static_cast<uint64_t>(c.param(2)), bs = static_cast<uint64_t>(c.param(3)), iters = static_cast<uint64_t>(c.param(4));
  bool ramp = c.param(5), json = c.param(6);
  int64_t what = c.param(8), form = c.param(9);
  double rate = rates[static_cast<size_t>(c.param(7)) % 5];
  std::vector<std::string> names;
  for (auto& o : c.ops) names.push_back(kNames[static_cast<size_t>(o.a) % kNames.size()]);
  if (names.empty() || n > 5000 || batches > 50 || iters > 20 || iters < 1) return;
  if (what == 4) {
    json = true;
    if (names.size() < 2) return;
  } else if (json) {
    names.resize(1);
  }
  if (what != 2 && bs > n) return;
  auto s = [](auto v) { return std::to_string(v); };
  std::vector<std::pair<std::vector<std::string>, std::string>> o{{{"-d", "--seed"}, s(c.param(0))},    {{"-i", "--iterations"}, s(iters)}, {{"-t", "--tree-size"}, s(n)},
                                                                  {{"-b", "--batches"}, s(batches)}, {{"-s", "--batch-size"}, s(bs)}};
  std::vector<std::string> a;
  for (size_t i = 0; i < o.size(); ++i) {
    size_t j = (i * 3 + static_cast<size_t>(form)) % o.size();
    a.push_back(o[j].first[static_cast<size_t>(form >> (i % 3)) & 1]);
    a.push_back(o[j].second);
  }
  if (!ramp || (form & 8)) {
    a.push_back(form & 16 ? "--record-rampup" : "-r");
    a.push_back(ramp ? "true" : "false");
  }
  if (json) a.push_back(form & 32 ? "-j" : "--json");
  auto given = names;
  if (what == 1) given.insert(given.begin() + static_cast<long>(static_cast<size_t>(form) % (given.size() + 1)), "no_such_8_32");
  if (what == 3) given.push_back("--help");
  a.insert(form & 4 ? a.begin() : a.end(), given.begin(), given.end());
  rec::reset(static_cast<uint64_t>(c.param(0)) ^ 0x5bd1e995, rate);
  simulated = true;
  auto r = tool::run(tool::program, a);
  simulated = false;
  CHECK(!sh->overflow);
  std::string all = r.out + r.err;
  if (what == 1 || what == 2 || what == 3) {
    CHECK_MSG((r.code == 0) == (what == 3), "exit status " << r.code << " for " << (what == 1 ? "an unknown name" : what == 2 ? "a batch larger than the tree" : "--help"));
    CHECK_MSG(sh->nops == 0, "a request that is to be refused was run");
    CHECK_MSG(all.find("Sanitizer") == std::string::npos && all.find("runtime error:") == std::string::npos, r.tail());
    if (what != 2) {
      auto w = words(all, " \n\t,");
      for (auto& k : kNames) CHECK_MSG(std::count(w.begin(), w.end(), k) == 1, k << " is not listed among the valid names");
    }
    st.hit(what == 1 ? "unknown_names" : what == 2 ? "oversized_batches" : "help");
    return;
  }
  if (what == 4) {
    CHECK_MSG(!r.crashed() && r.code != 0, "JSON output for several names was not refused: status " << r.code);
    st.hit("json_of_several");
    return;
  }
  CHECK_MSG(!r.crashed() && r.code == 0, "status " << r.code << ": " << r.tail());
  CHECK_MSG(sh->nruns == (n ? names.size() * iters : sh->nruns), sh->nruns << " containers were run for " << names.size() << " names and " << iters << " iterations");
  std::map<std::string, Sums> want;
  for (auto& k : names) want[k];
  uint64_t h0 = 0;
  for (uint32_t i = 0; i < sh->nruns; ++i) {
    auto& rr = sh->runs[i];
    const auto& name = names[i % names.size()];
    CHECK_MSG(name == rr.name, "the configuration " << name << " runs a container that is " << rr.name);
    workload(rr, n, batches, bs, ramp, want[name]);
    uint64_t h = 1469598103934665603ULL;
    for (uint32_t j = rr.from; j < rr.to; ++j)
      if (sh->ops[j].kind != 'n') h = (h ^ static_cast<uint64_t>(sh->ops[j].key) ^ static_cast<uint64_t>(sh->ops[j].kind)) * 1099511628211ULL;
    if (i == 0) h0 = h;
    CHECK_MSG(h == h0, "run " << i << " (" << name << ") performs other operations than run 0 with the same seed");
    st.mixin(h);
    st.hit(("config_" + name).c_str());
  }
  static const double ps[] = {0.0, 0.5, 0.95, 0.99, 0.999, 0.9999};
  auto pct = [&](const std::vector<uint64_t>& v, double p) { return kressler::histograms::exact_percentile(v, p); };
  if (json) {
    Json j{r.out, 0, {}};
    j.parse();
    auto get = [&](const std::string& k) {
      CHECK_MSG(j.leaves.count(k), "no " << k << " in the JSON output");
      return j.leaves[k];
    };
    auto& w = want[names[0]];
    CHECK_MSG(get("config") == names[0], "config is " << get("config"));
    CHECK(get("iterations") == s(iters));
    std::map<std::string, const std::vector<uint64_t>*> ops{{"insert", &w.ins}, {"find", &w.fnd}, {"erase", &w.ers}};
    CHECK_MSG(get("total_cycles.iterate") == s(w.iterate), "iterate total " << get("total_cycles.iterate") << ", measured " << w.iterate);
    static const char* const keys[] = {"p0", "p50", "p95", "p99", "p99_9", "p99_99"};
    for (auto& [op, v] : ops) {
      CHECK_MSG(get("total_cycles." + op) == s(sum(*v)), op << " total " << get("total_cycles." + op) << ", measured " << sum(*v));
      for (size_t k = 0; k < 6; ++k) {
        double got = strtod(get("performance." + op + "." + keys[k]).c_str(), nullptr), exp = pct(*v, ps[k]) / rate;
        CHECK_MSG(near(got, exp, 1e-4), op << " " << keys[k] << " is " << got << " ns, measured " << exp);
      }
    }
    st.hit("json_reports");
  } else {
    std::istringstream is(r.out);
    std::string l;
    std::map<std::string, int> rows;
    uint64_t announced = 0;
    std::string block;
    std::map<std::string, int> prow;
    while (std::getline(is, l)) {
      auto w = words(l, " ,:\t");
      if (!w.empty() && w[0] == "Iteration" && w.size() == 2) ++announced;
      if (w.size() == 5 && want.count(w[0])) {
        auto& e = want[w[0]];
        CHECK_MSG(w[1] == s(sum(e.ins)) && w[2] == s(sum(e.fnd)) && w[3] == s(sum(e.ers)) && w[4] == s(e.iterate),
                  "row '" << l << "', measured insert " << sum(e.ins) << " find " << sum(e.fnd) << " erase " << sum(e.ers) << " iterate " << e.iterate);
        rows[w[0]]++;
      }
      if (w.size() == 1 && want.count(w[0])) block = w[0];
      if (w.size() == 7 && !block.empty() && (w[0] == "i" || w[0] == "f" || w[0] == "e")) {
        auto& e = want[block];
        auto& v = w[0] == "i" ? e.ins : w[0] == "f" ? e.fnd : e.ers;
        for (size_t k = 0; k < 6; ++k)
          CHECK_MSG(near(strtod(w[k + 1].c_str(), nullptr), pct(v, ps[k]) / rate, 1e-4), block << ": percentile " << ps[k] << " of " << w[0] << " is " << w[k + 1] << ", measured " << pct(v, ps[k]) / rate);
        prow[block + w[0]]++;
      }
    }
    CHECK_MSG(announced == iters, announced << " iterations announced, " << iters << " asked for");
    if (iters)
      for (auto& [k, e] : want) CHECK_MSG(rows[k] >= 1 && prow[k + "i"] >= 1 && prow[k + "f"] >= 1 && prow[k + "e"] >= 1, "no complete report for " << k << ":\n" << r.out);
    st.hit("text_reports");
  }
  st.mixin(static_cast<uint64_t>(ramp) * 2 + json);
  st.nontrivial = n > 1 && batches > 0 && bs > 0 && iters > 0;
}
pbt::Register reg("benchmark", gen, run);
}  // namespace
