// C24: the stress program src/binary/btree_stress.cpp, run on a stand-in tree
// that is either correct or broken on purpose in one generated way.
#include <bits/stdc++.h>
#include <chrono>
#include <deque>
#include <limits>
#include <list>
#include <map>
#include <random>
#include <set>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#if defined(__x86_64__)
#include <x86intrin.h>
#endif
#include <fast_containers/btree.hpp>

#define PBT_NO_MAIN
#include "toolrun.hpp"

namespace shim {
enum Fault { kNone, kLostInsert, kLostErase, kWrongValue, kExtraErase, kExtraInsert, kFindMiss, kFindOther, kDupStart, kFaults };
struct Run {
  char kind;
  uint64_t n, size_before, size_after;
};
struct Tree {
  uint64_t hash = 1469598103934665603ULL, nruns = 0, left = 0;
  bool ended = false;
  Run runs[512];
};
struct Shared {
  int fault = 0;
  uint64_t at = 0;     // modification count at which the fault strikes
  uint64_t arg = 0;    // selects the key it strikes
  bool fired = false, missed = false;
  char why[160] = {};
  uint64_t mods = 0, ntrees = 0;
  Tree trees[8];
};
inline Shared* sh = tool::shared<Shared>();
}  // namespace shim

namespace kressler::fast_containers {
// A correct ordered map (std::map underneath) with the tree's interface, until
// the fault strikes; `ref` is what it should contain.
template <class K, class V, class... Rest>
struct stress_tree_ {
  using M = std::map<K, V>;
  M m_, ref_;
  std::optional<K> miss_, other_, twice_;
  shim::Tree* rec_ = nullptr;
  using key_type = K;
  using mapped_type = V;
  using value_type = std::pair<K, V>;
  using size_type = size_t;
  struct iterator {
    typename M::iterator it;
    stress_tree_* t;
    bool again = false;  // the second visit of the doubled element is due
    std::pair<const K, V>& operator*() const { return *it; }
    std::pair<const K, V>* operator->() const { return &*it; }
    iterator& operator++() {
      if (again) {
        again = false;
        return *this;
      }
      ++it;
      again = t->twice_ && it != t->m_.end() && it->first == *t->twice_;
      return *this;
    }
    iterator operator++(int) {
      iterator o = *this;
      ++*this;
      return o;
    }
    iterator& operator--() {
      --it;
      return *this;
    }
    bool operator==(const iterator& o) const { return it == o.it && again == o.again; }
  };
  using const_iterator = iterator;
  stress_tree_() {
    auto* s = shim::sh;
    if (s->ntrees < 8) rec_ = &s->trees[s->ntrees];
    ++s->ntrees;
  }
  stress_tree_(const stress_tree_&) = delete;
  bool broken(bool finds) {
    if (m_ != ref_) return true;
    if (twice_ && m_.count(*twice_)) return true;
    return finds && ((miss_ && m_.count(*miss_)) || (other_ && m_.count(*other_)));
  }
  void verify(const char* when, bool finds) {
    if (broken(finds) && !shim::sh->missed) {
      shim::sh->missed = true;
      snprintf(shim::sh->why, sizeof shim::sh->why, "the program went on after %s although the tree disagreed with the reference", when);
    }
  }
  ~stress_tree_() {
    if (!rec_) return;
    verify("the last removal", false);
    rec_->left = ref_.size();
    rec_->ended = true;
  }
  // Before a modification: bookkeeping; returns whether the fault strikes now.
  bool begin_mod(char kind, const K& k) {
    if (rec_) {
      if (rec_->nruns == 0 || rec_->runs[rec_->nruns - 1].kind != kind) {
        if (kind == 'E') verify("a round of insertions", true);
        if (rec_->nruns < 512) rec_->runs[rec_->nruns++] = {kind, 0, ref_.size(), ref_.size()};
      }
      rec_->runs[rec_->nruns - 1].n++;
      rec_->hash = (rec_->hash ^ static_cast<uint64_t>(static_cast<uint32_t>(k)) ^ (uint64_t(kind) << 40)) * 1099511628211ULL;
    }
    return shim::sh->fault && !shim::sh->fired && shim::sh->mods++ >= shim::sh->at;
  }
  void end_mod() {
    if (rec_ && rec_->nruns) rec_->runs[rec_->nruns - 1].size_after = ref_.size();
  }
  std::optional<K> some_key(const K& not_this) {
    std::vector<K> ks;
    for (auto& [k, v] : m_)
      if (k != not_this) ks.push_back(k);
    if (ks.empty()) return {};
    return ks[shim::sh->arg % ks.size()];
  }
  // Faults that can accompany any modification.
  void general_fault(const K& k) {
    auto* s = shim::sh;
    auto o = some_key(k);
    switch (s->fault) {
      case shim::kWrongValue:
        if (o) m_[*o] ^= 1 << (s->arg % 31), s->fired = true;
        break;
      case shim::kExtraErase:
        if (o) m_.erase(*o), s->fired = true;
        break;
      case shim::kExtraInsert: {
        K n = static_cast<K>(s->arg * 2654435761u);
        if (!m_.count(n)) m_[n] = 0, s->fired = true;
        break;
      }
      case shim::kFindMiss:
        if (o) miss_ = o, s->fired = true;
        break;
      case shim::kFindOther:
        // the wrong entry must be tellable by its value
        if (o && m_.size() > 1) other_ = o, s->fired = true;
        break;
      case shim::kDupStart:
        if (o) twice_ = o, s->fired = true;
        break;
      default:
        break;
    }
  }
  std::pair<iterator, bool> insert(const K& k, const V& v) {
    bool strike = begin_mod('I', k);
    ref_.insert({k, v});
    std::pair<typename M::iterator, bool> r{m_.end(), false};
    if (strike && shim::sh->fault == shim::kLostInsert && !m_.count(k)) {
      shim::sh->fired = true;
    } else {
      r = m_.insert({k, v});
      if (strike) general_fault(k);
    }
    end_mod();
    return {iterator{m_.find(k), this}, r.second};
  }
  template <class P>
    requires requires(P p) { p.first; p.second; }
  std::pair<iterator, bool> insert(const P& p) {
    return insert(p.first, p.second);
  }
  std::pair<iterator, bool> insert(const std::pair<K, V>& p) { return insert(p.first, p.second); }
  std::pair<iterator, bool> emplace(const K& k, const V& v) { return insert(k, v); }
  std::pair<iterator, bool> try_emplace(const K& k, const V& v) { return insert(k, v); }
  size_t erase(const K& k) {
    bool strike = begin_mod('E', k);
    ref_.erase(k);
    size_t n = 0;
    if (strike && shim::sh->fault == shim::kLostErase && m_.count(k)) {
      shim::sh->fired = true;
    } else {
      n = m_.erase(k);
      if (strike) general_fault(k);
    }
    end_mod();
    return n;
  }
  iterator erase(iterator i) {
    auto n = std::next(i.it);
    std::optional<K> nk;
    if (n != m_.end()) nk = n->first;
    erase(K(i->first));
    return nk ? iterator{m_.find(*nk), this} : end();
  }
  iterator find(const K& k) {
    if (miss_ && *miss_ == k) return end();
    if (other_ && *other_ == k) {
      auto it = m_.find(k);
      if (it != m_.end())
        for (auto j = m_.begin(); j != m_.end(); ++j)
          if (j->second != it->second) return {j, this};
    }
    return {m_.find(k), this};
  }
  bool contains(const K& k) { return find(k) != end(); }
  size_t count(const K& k) { return contains(k) ? 1 : 0; }
  V& at(const K& k) {
    auto i = find(k);
    if (i == end()) throw std::out_of_range("at");
    return i->second;
  }
  iterator begin() {
    auto it = m_.begin();
    return {it, this, twice_ && it != m_.end() && it->first == *twice_};
  }
  iterator end() { return {m_.end(), this}; }
  iterator cbegin() { return begin(); }
  iterator cend() { return end(); }
  iterator lower_bound(const K& k) { return {m_.lower_bound(k), this}; }
  iterator upper_bound(const K& k) { return {m_.upper_bound(k), this}; }
  size_t size() const { return m_.size(); }
  bool empty() const { return m_.empty(); }
};
template <class K, class V, size_t L = 8, size_t I = 8, class C = std::less<K>, SearchMode S = SearchMode::Linear, class A = std::allocator<int>>
using stress_tree = stress_tree_<K, V>;
}  // namespace kressler::fast_containers

#define btree stress_tree
#include "binary/btree_stress.cpp"
#undef btree

namespace {
using pbt::Case;
using pbt::Rng;
using pbt::Stats;
// params: seed, iterations, min, max, batches, batch size, fault, at, arg, form of the options
Case gen(Rng& r) {
  Case c;
  int64_t seed = r.chance(1, 4) ? static_cast<int64_t>(r.below(4)) : static_cast<int64_t>(r.next() >> 2);
  int64_t iters = r.chance(1, 12) ? 0 : r.range(1, 3);
  int64_t mn = r.chance(1, 6) ? r.range(0, 3) : r.size(0, 220);
  int64_t mx = r.chance(1, 4) ? mn : mn + r.size(0, 150);
  int64_t batches = r.chance(1, 8) ? 0 : r.range(1, 5);
  int64_t bs = r.chance(1, 3) ? r.range(0, 12) : r.chance(1, 5) ? r.size(0, 300) : r.size(0, 60);
  int64_t fault = r.chance(1, 4) ? 0 : r.range(1, shim::kFaults - 1);
  int64_t total = mx + batches * bs * 2 + mx;
  c.params = {seed, iters, mn, mx, batches, bs, fault, static_cast<int64_t>(r.below(static_cast<uint64_t>(total * std::max<int64_t>(1, iters)) + 2)),
              static_cast<int64_t>(r.below(1000000)), static_cast<int64_t>(r.below(8))};
  return c;
}
std::vector<std::string> args(uint64_t seed, const Case& c, int64_t iters, int64_t form) {
  auto s = [](auto v) { return std::to_string(v); };
  std::vector<std::pair<std::vector<std::string>, std::string>> o{{{"-d", "--seed"}, s(seed)},
                                                                  {{"-i", "--iterations"}, s(iters)},
                                                                  {{"--min-keys", "--min-keys"}, s(c.param(2))},
                                                                  {{"--max-keys", "--max-keys"}, s(c.param(3))},
                                                                  {{"-b", "--batches"}, s(c.param(4))},
                                                                  {{"-s", "--batch-size"}, s(c.param(5))}};
  std::vector<std::string> a;
  for (size_t i = 0; i < o.size(); ++i) {
    size_t j = (i * 5 + static_cast<size_t>(form)) % o.size();  // some order
    a.push_back(o[j].first[static_cast<size_t>(form >> (i % 3)) & 1]);
    a.push_back(o[j].second);
  }
  return a;
}
struct Line {
  uint64_t iter, keys, seed;
};
std::vector<Line> lines(const std::string& out) {
  std::vector<Line> v;
  std::istringstream is(out);
  std::string l;
  while (std::getline(is, l)) {
    std::vector<uint64_t> n;
    for (size_t i = 0; i < l.size();) {
      if (isdigit(static_cast<unsigned char>(l[i]))) {
        size_t j = i;
        while (j < l.size() && isdigit(static_cast<unsigned char>(l[j]))) ++j;
        n.push_back(strtoull(l.substr(i, j - i).c_str(), nullptr, 10));
        i = j;
      } else {
        ++i;
      }
    }
    if (l.find("teration") != std::string::npos && n.size() >= 3) v.push_back({n[0], n[1], n[2]});
  }
  return v;
}
void run(const Case& c, Stats& st) {
  auto* sh = shim::sh;
  auto reset = [&](bool fault) {
    *sh = shim::Shared{};
    if (fault) {
      sh->fault = static_cast<int>(c.param(6));
      sh->at = static_cast<uint64_t>(c.param(7));
      sh->arg = static_cast<uint64_t>(c.param(8));
    }
  };
  uint64_t seed = static_cast<uint64_t>(c.param(0)), N = static_cast<uint64_t>(c.param(1)), mn = static_cast<uint64_t>(c.param(2)),
           mx = static_cast<uint64_t>(c.param(3)), B = static_cast<uint64_t>(c.param(4)), bs = static_cast<uint64_t>(c.param(5));
  if (mx < mn || N > 8) return;
  auto a = args(seed, c, static_cast<int64_t>(N), c.param(9));
  // on a correct tree
  reset(false);
  auto r = tool::run(tool::program, a);
  CHECK_MSG(!r.crashed(), "the program crashed on a correct tree: status " << r.code << " " << r.tail());
  CHECK_MSG(r.code == 0, "the program reports a failure on a correct tree: " << r.tail());
  auto ls = lines(r.out);
  CHECK_MSG(ls.size() == N, ls.size() << " iterations announced, " << N << " asked for");
  CHECK_MSG(sh->ntrees == N, sh->ntrees << " trees built for " << N << " iterations");
  for (size_t i = 0; i < N; ++i) {
    CHECK_MSG(ls[i].iter == i && ls[i].seed == seed + i && ls[i].keys >= mn && ls[i].keys <= mx, "iteration " << i << " announces " << ls[i].iter << ", " << ls[i].keys << " keys, seed " << ls[i].seed);
    auto& t = sh->trees[i];
    CHECK_MSG(t.ended && t.left == 0, "iteration " << i << " ended with " << t.left << " keys in the tree");
    // expected rounds
    std::vector<std::pair<char, uint64_t>> want;
    auto add = [&](char k, uint64_t n) {
      if (!n) return;
      if (!want.empty() && want.back().first == k)
        want.back().second += n;
      else
        want.push_back({k, n});
    };
    uint64_t size = ls[i].keys;
    add('I', size);
    for (uint64_t b = 0; b < B; ++b) {
      uint64_t e = std::min(bs, size);
      add('E', e);
      add('I', bs);
      size = size - e + bs;
    }
    add('E', size);
    bool same = want.size() == t.nruns;
    // removals of missing keys and repeated insertions do not count
    for (size_t j = 0; same && j < want.size(); ++j) {
      auto& w = t.runs[j];
      uint64_t eff = w.kind == 'I' ? w.size_after - w.size_before : w.size_before - w.size_after;
      same = w.kind == want[j].first && (eff == want[j].second || w.n == want[j].second);
    }
    std::ostringstream os;
    if (!same) {
      for (size_t j = 0; j < t.nruns && j < 12; ++j) os << t.runs[j].kind << t.runs[j].n << " ";
      os << "instead of ";
      for (size_t j = 0; j < want.size() && j < 12; ++j) os << want[j].first << want[j].second << " ";
    }
    CHECK_MSG(same, "iteration " << i << " ran " << os.str());
    st.mixin(t.hash);
  }
  // the announced seed reproduces the iteration
  std::vector<uint64_t> hashes;
  for (size_t i = 0; i < N; ++i) hashes.push_back(sh->trees[i].hash);
  if (N > 0) {
    size_t i = static_cast<size_t>(c.param(8)) % N;
    reset(false);
    auto r2 = tool::run(tool::program, args(ls[i].seed, c, 1, c.param(9) + 3));
    CHECK_MSG(!r2.crashed() && r2.code == 0, "status " << r2.code << " " << r2.tail());
    auto l2 = lines(r2.out);
    CHECK_MSG(l2.size() == 1 && l2[0].keys == ls[i].keys && sh->trees[0].hash == hashes[i], "running seed " << ls[i].seed << " alone does not repeat iteration " << i);
    st.hit("reproduced_iterations");
  }
  st.hit("correct_runs");
  if (c.param(6) <= 0 || c.param(6) >= shim::kFaults) return;
  // on a broken tree
  reset(true);
  auto f = tool::run(tool::program, a);
  CHECK_MSG(!f.crashed(), "the program crashed on a broken tree: status " << f.code << " " << f.tail());
  CHECK_MSG(!sh->missed, "fault " << c.param(6) << " at modification " << c.param(7) << ": " << sh->why << " (exit status " << f.code << ")");
  if (!sh->fired) {
    CHECK_MSG(f.code == 0, "no fault struck but the program reports a failure");
    st.hit("fault_did_not_strike");
    return;
  }
  if (f.code != 0) {
    CHECK_MSG(f.out.size() > r.out.size() || f.out.find('!') != std::string::npos || !f.err.empty() || f.out.find("ismatch") != std::string::npos, "the program failed without a word");
    st.hit("faults_reported");
  } else {
    st.hit("faults_gone_before_check");
  }
  st.hit(("fault_" + std::to_string(c.param(6))).c_str());
  st.mixin(static_cast<uint64_t>(c.param(6)) * 1000003 + sh->at);
  st.nontrivial = B > 0 && bs > 0;
}
pbt::Register reg("stress", gen, run);
}  // namespace
