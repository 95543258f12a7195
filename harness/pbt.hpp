// Minimal property-based testing engine used by every C++ harness in /verif.
//
// A harness registers "configs"; each config has a generator (seed -> Case)
// and a runner (Case -> checks against an oracle, throws pbt::Failure).  A case
// is plain data (a list of numeric ops), so it can be written to a file,
// replayed and shrunk by the driver (bin/check.py), which also handles crashes
// (assert, sanitizer, signal) because cases run in a child process whose
// current case number is published through a small mmapped state file.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

struct Failure : std::exception {
  std::string msg;
  explicit Failure(std::string m) : msg(std::move(m)) {}
  const char* what() const noexcept override { return msg.c_str(); }
};

[[noreturn]] inline void fail(const std::string& m) { throw Failure(m); }

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
#define CHECK(cond)                                                      \
  do {                                                                   \
    if (!(cond)) ::pbt::fail(std::string(__FILE__ ":" PBT_STR(__LINE__) ": ") + #cond); \
  } while (0)
#define CHECK_MSG(cond, ...)                                             \
  do {                                                                   \
    if (!(cond)) {                                                       \
      std::ostringstream os_;                                            \
      os_ << __FILE__ ":" PBT_STR(__LINE__) ": " << #cond << " : " << __VA_ARGS__; \
      ::pbt::fail(os_.str());                                            \
    }                                                                    \
  } while (0)

struct Rng {
  uint64_t s[2];
  static uint64_t mix(uint64_t& x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  explicit Rng(uint64_t seed) {
    s[0] = mix(seed);
    s[1] = mix(seed);
  }
  uint64_t next() {
    uint64_t a = s[0], b = s[1];
    s[0] = b;
    a ^= a << 23;
    s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
    return s[1] + b;
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) {  // inclusive
    return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo) + 1));
  }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  // log-uniform-ish size in [lo, hi]
  int64_t size(int64_t lo, int64_t hi) {
    int64_t m = hi;
    unsigned k = static_cast<unsigned>(below(4));
    while (k-- && m > lo + 2) m = lo + (m - lo) / 3;
    return range(lo, m);
  }
  template <class V>
  const auto& pick(const V& v) {
    return v[below(v.size())];
  }
};

struct Op {
  int code = 0;
  int64_t a = 0, b = 0, c = 0;
};

struct Case {
  std::string cfg;
  std::vector<int64_t> params;
  std::vector<Op> ops;
  int64_t param(size_t i, int64_t def = 0) const {
    return i < params.size() ? params[i] : def;
  }
  std::string text() const {
    std::ostringstream os;
    os << "cfg " << cfg << "\nparams";
    for (auto p : params) os << ' ' << p;
    os << "\n";
    for (auto& o : ops)
      os << "op " << o.code << ' ' << o.a << ' ' << o.b << ' ' << o.c << "\n";
    return os.str();
  }
  static Case parse(std::istream& is) {
    Case c;
    std::string line;
    while (std::getline(is, line)) {
      if (line.empty() || line[0] == '#') continue;
      std::istringstream ls(line);
      std::string kw;
      ls >> kw;
      if (kw == "cfg") {
        ls >> c.cfg;
      } else if (kw == "params") {
        int64_t v;
        while (ls >> v) c.params.push_back(v);
      } else if (kw == "op") {
        Op o;
        ls >> o.code >> o.a >> o.b >> o.c;
        c.ops.push_back(o);
      }
    }
    return c;
  }
};

// Statistics of one case / accumulated.
struct Stats {
  std::map<std::string, uint64_t> counters;  // op and class counters
  bool nontrivial = false;
  uint64_t trace = 1469598103934665603ULL;  // behaviour hash for distinctness
  void hit(const char* k, uint64_t n = 1) { counters[k] += n; }
  void mixin(uint64_t v) { trace = (trace ^ v) * 1099511628211ULL; }
};

struct Config {
  std::string name;
  std::function<Case(Rng&)> gen;
  std::function<void(const Case&, Stats&)> run;
  unsigned weight = 1;
};

inline std::vector<Config>& configs() {
  static std::vector<Config> v;
  return v;
}
struct Register {
  Register(std::string n, std::function<Case(Rng&)> g,
           std::function<void(const Case&, Stats&)> r, unsigned w = 1) {
    configs().push_back({std::move(n), std::move(g), std::move(r), w});
  }
};

inline uint64_t hash_str(const std::string& s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char ch : s) h = (h ^ ch) * 1099511628211ULL;
  return h;
}

inline const Config* find_cfg(const std::string& n) {
  for (auto& c : configs())
    if (c.name == n) return &c;
  return nullptr;
}

inline Case generate(uint64_t seed, uint64_t idx) {
  static std::vector<size_t> table;
  if (table.empty())
    for (size_t i = 0; i < configs().size(); ++i)
      for (unsigned w = 0; w < configs()[i].weight; ++w) table.push_back(i);
  const Config& c = configs()[table[idx % table.size()]];
  Rng r(seed * 0x9E3779B97F4A7C15ULL + idx * 0xD1B54A32D192ED03ULL +
        hash_str(c.name));
  Case cs = c.gen(r);
  cs.cfg = c.name;
  return cs;
}

inline volatile uint64_t* state_ptr = nullptr;
// CPU seconds one case may use before it counts as non-terminating.
inline int case_cpu_limit = 60;

inline void arm_cpu_limit() {
  struct itimerval it {};
  it.it_value.tv_sec = case_cpu_limit;
  setitimer(ITIMER_PROF, &it, nullptr);
}

inline void on_cpu_limit(int) {
  const char m[] = "FAIL: case did not terminate within its CPU budget\n";
  ssize_t r = write(2, m, sizeof(m) - 1);
  (void)r;
  _exit(77);
}

// Runs one case; returns empty string on success.
inline std::string run_case(const Case& c, Stats& st) {
  const Config* cfg = find_cfg(c.cfg);
  if (!cfg) {
    fprintf(stderr, "unknown config %s\n", c.cfg.c_str());
    exit(64);
  }
  arm_cpu_limit();
  try {
    cfg->run(c, st);
  } catch (const Failure& f) {
    return f.msg.empty() ? "failure" : f.msg;
  } catch (const std::exception& e) {
    return std::string("unexpected exception: ") + e.what();
  } catch (...) {
    return "unexpected exception of unknown type";
  }
  return "";
}

inline std::string json_escape(const std::string& s) {
  std::string o;
  for (char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += ch;
    } else if (ch == '\n') {
      o += "\\n";
    } else if (static_cast<unsigned char>(ch) < 32) {
      o += ' ';
    } else {
      o += ch;
    }
  }
  return o;
}

inline int main_impl(int argc, char** argv) {
  // Same addresses on every run, so that a case replays exactly.
  if (!getenv("PBT_NOREEXEC")) {
    int p = personality(0xffffffff);
    if (p != -1 && !(p & ADDR_NO_RANDOMIZE)) {
      if (personality(p | ADDR_NO_RANDOMIZE) != -1) {
        setenv("PBT_NOREEXEC", "1", 1);
        execv("/proc/self/exe", argv);
      }
    }
  }
  signal(SIGPROF, on_cpu_limit);
  std::string mode = argc > 1 ? argv[1] : "";
  std::map<std::string, std::string> opt;
  for (int i = 2; i + 1 < argc; i += 2) opt[argv[i]] = argv[i + 1];
  auto num = [&](const char* k, uint64_t d) {
    return opt.count(k) ? strtoull(opt[k].c_str(), nullptr, 10) : d;
  };
  if (opt.count("--cpu")) case_cpu_limit = static_cast<int>(num("--cpu", 60));
  if (opt.count("--only")) {
    std::vector<Config> keep;
    for (auto& c : configs())
      if (c.name.find(opt["--only"]) != std::string::npos) keep.push_back(c);
    configs() = keep;
  }
  if (mode == "list") {
    for (auto& c : configs()) printf("%s\n", c.name.c_str());
    return 0;
  }
  if (mode == "dump") {
    printf("%s", generate(num("--seed", 1), num("--idx", 0)).text().c_str());
    return 0;
  }
  if (mode == "replay") {
    std::ifstream f(opt["--file"]);
    if (!f) {
      fprintf(stderr, "cannot open %s\n", opt["--file"].c_str());
      return 64;
    }
    Case c = Case::parse(f);
    Stats st;
    std::string e = run_case(c, st);
    if (!e.empty()) {
      printf("FAIL: %s\n", e.c_str());
      return 3;
    }
    printf("OK\n");
    return 0;
  }
  if (mode == "run") {
    uint64_t seed = num("--seed", 1), from = num("--from", 0), to = num("--to", 100);
    uint64_t step = num("--step", 1);
    double max_s = static_cast<double>(num("--max-seconds", 100000));
    if (opt.count("--state")) {
      int fd = open(opt["--state"].c_str(), O_RDWR | O_CREAT, 0644);
      if (fd >= 0 && ftruncate(fd, 4096) == 0) {
        void* p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p != MAP_FAILED) state_ptr = static_cast<volatile uint64_t*>(p);
      }
    }
    std::map<std::string, uint64_t> counters;
    std::map<std::string, uint64_t> per_cfg;
    std::unordered_set<uint64_t> seen;
    uint64_t done = 0, nontrivial = 0;
    std::vector<std::string> samples;
    struct timespec t0;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    bool timed_out = false;
    std::string failure;
    for (uint64_t i = from; i < to; i += step) {
      if (state_ptr) {
        state_ptr[0] = i;
        state_ptr[1] = 1;
      }
      Case c = generate(seed, i);
      Stats st;
      failure = run_case(c, st);
      if (!failure.empty()) {
        if (state_ptr) state_ptr[0] = i;
        printf("FAIL %llu: %s\n", static_cast<unsigned long long>(i), failure.c_str());
        fflush(stdout);
        _exit(3);
      }
      ++done;
      per_cfg[c.cfg]++;
      for (auto& [k, v] : st.counters) counters[k] += v;
      if (st.nontrivial) {
        uint64_t h = st.trace ^ hash_str(c.cfg);
        if (seen.insert(h).second) {
          ++nontrivial;
          if (samples.size() < 2 && c.ops.size() < 60) samples.push_back(c.text());
        }
      }
      if ((done & 15) == 0) {
        struct timespec t1;
        clock_gettime(CLOCK_MONOTONIC, &t1);
        if (static_cast<double>(t1.tv_sec - t0.tv_sec) > max_s) {
          timed_out = true;
          break;
        }
      }
    }
    if (state_ptr) state_ptr[1] = 2;
    struct itimerval off {};
    setitimer(ITIMER_PROF, &off, nullptr);
    std::ofstream o(opt["--stats"]);
    o << "{\"done\":" << done << ",\"distinct_nontrivial\":" << nontrivial
      << ",\"timed_out\":" << (timed_out ? "true" : "false") << ",\"counters\":{";
    bool first = true;
    for (auto& [k, v] : counters) {
      o << (first ? "" : ",") << "\"" << json_escape(k) << "\":" << v;
      first = false;
    }
    o << "},\"per_config\":{";
    first = true;
    for (auto& [k, v] : per_cfg) {
      o << (first ? "" : ",") << "\"" << json_escape(k) << "\":" << v;
      first = false;
    }
    o << "},\"hashes\":[";
    first = true;
    for (auto h : seen) {
      o << (first ? "" : ",") << "\"" << std::hex << h << std::dec << "\"";
      first = false;
    }
    o << "],\"samples\":[";
    first = true;
    for (auto& s : samples) {
      o << (first ? "" : ",") << "\"" << json_escape(s) << "\"";
      first = false;
    }
    o << "]}\n";
    o.close();
    return 0;
  }
  fprintf(stderr, "usage: run|replay|dump|list\n");
  return 64;
}

}  // namespace pbt

#ifndef PBT_NO_MAIN
int main(int argc, char** argv) { return pbt::main_impl(argc, argv); }
#endif
