// C12: split_at / transfer_prefix_from / transfer_suffix_from on pairs of array
// maps of any capacities, against two plain sorted vectors.
#ifndef PART
#define PART 0
#endif
#if PART != 0
#define PBT_NO_MAIN
#endif
#include <algorithm>
#include <fast_containers/dense_map.hpp>

#include "codecs.hpp"
#include "pbt.hpp"
#include "track.hpp"

using namespace kressler::fast_containers;
using codec::KeyCodec;
using codec::show;
using codec::ValCodec;
using pbt::Case;
using pbt::Op;
using pbt::Rng;
using pbt::Stats;

namespace {
enum Op_ { Split, Prefix, Suffix, Insert, Erase, Fill, BadSplit, BadCount, NoRoom, Swap, Clear, kN };
const char* names[] = {"split_at", "transfer_prefix", "transfer_suffix", "insert", "erase", "fill", "bad_split_nonempty",
                       "bad_count", "bad_no_room", "switch_side", "clear"};

template <class A, class B>
struct Sess {
  using K = typename A::key_type;
  using V = typename A::mapped_type;
  using C = typename A::key_compare;
  using Vec = std::vector<std::pair<K, V>>;
  A a;
  B b;
  Vec ma, mb;
  Stats& st;
  int mode;
  int64_t u;
  C cmp{};
  uint64_t moved = 0, refused = 0;
  Sess(const Case& c, Stats& s) : st(s), mode(static_cast<int>(c.param(0))), u(std::max<int64_t>(1, c.param(1, 8))) {}
  K key(int64_t id) const { return KeyCodec<K>::make(((id % u) + u) % u, mode); }
  bool eq(const K& x, const K& y) const { return !cmp(x, y) && !cmp(y, x); }
  // all keys of x before all keys of y
  bool before(const Vec& x, const Vec& y) const { return x.empty() || y.empty() || cmp(x.back().first, y.front().first); }

  template <class M>
  void same(const M& d, const Vec& v, const char* which) {
    CHECK_MSG(d.size() == v.size(), which << " size " << d.size() << " expected " << v.size());
    CHECK(d.empty() == v.empty());
    CHECK(d.full() == (v.size() == d.capacity()));
    size_t i = 0;
    for (auto it = d.begin(); it != d.end(); ++it, ++i) {
      CHECK_MSG(eq(it->first, v[i].first), which << "[" << i << "] key " << show(it->first) << " expected " << show(v[i].first));
      CHECK_MSG(it->second == v[i].second, which << "[" << i << "] value differs");
    }
  }

  template <class X, class Y>
  void split(X& x, Vec& mx, Y& y, Vec& my, int64_t posraw) {
    size_t pos = static_cast<size_t>(posraw) % (mx.size() + 1);
    size_t n = mx.size() - pos;
    bool ok = my.empty() && n <= y.capacity();
    bool threw = false;
    try {
      x.split_at(x.begin() + static_cast<int64_t>(pos), y);
    } catch (const std::runtime_error&) {
      threw = true;
    }
    CHECK_MSG(threw == !ok, "split_at(" << pos << ") of " << mx.size() << " into a map holding " << my.size() << "/" << y.capacity()
                                        << (threw ? " threw" : " did not throw"));
    if (!ok) {
      ++refused;
      st.hit(my.empty() ? "split_refused_capacity" : "split_refused_nonempty");
      return;
    }
    my.assign(std::make_move_iterator(mx.begin() + static_cast<int64_t>(pos)), std::make_move_iterator(mx.end()));
    mx.resize(pos);
    moved += n;
    st.hit("split_ok");
  }
  template <class X, class Y>
  void prefix(X& x, Vec& mx, Y& y, Vec& my, size_t n) {  // first n of y appended to x
    bool ok = n <= my.size() && mx.size() + n <= x.capacity();
    bool threw = false;
    try {
      x.transfer_prefix_from(y, n);
    } catch (const std::runtime_error&) {
      threw = true;
    }
    CHECK_MSG(threw == !ok, "transfer_prefix_from(" << n << " of " << my.size() << ") into " << mx.size() << "/" << x.capacity()
                                                    << (threw ? " threw" : " did not throw"));
    if (!ok) {
      ++refused;
      st.hit("prefix_refused");
      return;
    }
    for (size_t i = 0; i < n; ++i) mx.push_back(my[i]);
    my.erase(my.begin(), my.begin() + static_cast<int64_t>(n));
    moved += n;
    st.hit("prefix_ok");
  }
  template <class X, class Y>
  void suffix(X& x, Vec& mx, Y& y, Vec& my, size_t n) {  // last n of y prepended to x
    bool ok = n <= my.size() && mx.size() + n <= x.capacity();
    bool threw = false;
    try {
      x.transfer_suffix_from(y, n);
    } catch (const std::runtime_error&) {
      threw = true;
    }
    CHECK_MSG(threw == !ok, "transfer_suffix_from(" << n << " of " << my.size() << ") into " << mx.size() << "/" << x.capacity()
                                                    << (threw ? " threw" : " did not throw"));
    if (!ok) {
      ++refused;
      st.hit("suffix_refused");
      return;
    }
    Vec t(my.end() - static_cast<int64_t>(n), my.end());
    my.resize(my.size() - n);
    mx.insert(mx.begin(), t.begin(), t.end());
    moved += n;
    st.hit("suffix_ok");
  }
  template <class X>
  void insert(X& x, Vec& mx, const Vec& other, int64_t id, int64_t v) {
    // Only keys that keep the two key ranges apart, so transfers stay legal.
    K k = key(id);
    if (mx.size() >= x.capacity()) return;
    if (!other.empty()) {
      bool x_first = mx.empty() ? cmp(k, other.front().first) : cmp(mx.back().first, other.front().first);
      if (x_first ? !cmp(k, other.front().first) : !cmp(other.back().first, k)) return;
    }
    auto p = std::lower_bound(mx.begin(), mx.end(), k, [&](auto& e, const K& q) { return cmp(e.first, q); });
    bool had = p != mx.end() && eq(p->first, k);
    V val = ValCodec<V>::make(v);
    auto r = x.insert(k, val);
    CHECK(r.second == !had);
    CHECK(r.first.index() == static_cast<size_t>(p - mx.begin()));
    if (!had) mx.insert(p, {k, val});
  }
  template <class X>
  void erase(X& x, Vec& mx, int64_t i) {
    if (mx.empty()) return;
    size_t p = static_cast<size_t>(i) % mx.size();
    CHECK(x.erase(K(mx[p].first)) == 1);
    mx.erase(mx.begin() + static_cast<int64_t>(p));
  }
  template <class X, class Y>
  void apply(const Op& o, X& x, Vec& mx, Y& y, Vec& my) {
    switch (o.code) {
      case Split:
        if (o.b) { y.clear(); my.clear(); }
        split(x, mx, y, my, o.a);
        break;
      case BadSplit: split(x, mx, y, my, o.a); break;
      case Prefix:
        if (before(mx, my)) prefix(x, mx, y, my, static_cast<size_t>(o.a) % (my.size() + 1));
        else if (before(my, mx)) prefix(y, my, x, mx, static_cast<size_t>(o.a) % (mx.size() + 1));
        break;
      case Suffix:
        if (before(my, mx)) suffix(x, mx, y, my, static_cast<size_t>(o.a) % (my.size() + 1));
        else if (before(mx, my)) suffix(y, my, x, mx, static_cast<size_t>(o.a) % (mx.size() + 1));
        break;
      case BadCount: {
        size_t n = my.size() + 1 + static_cast<size_t>(o.a % 5);
        if (o.b == 1) n = static_cast<size_t>(-1) - static_cast<size_t>(o.a % 5);  // wraps size_ + count
        if (o.c) prefix(x, mx, y, my, n); else suffix(x, mx, y, my, n);
        break;
      }
      case NoRoom:
        if (my.size() + mx.size() > x.capacity()) {
          if (before(mx, my)) prefix(x, mx, y, my, my.size());
          else if (before(my, mx)) suffix(x, mx, y, my, my.size());
        }
        break;
      case Insert: insert(x, mx, my, o.a, o.b); break;
      case Erase: erase(x, mx, o.a); break;
      case Fill:
        for (int64_t i = 0; i < o.b; ++i) insert(x, mx, my, o.a + i * (o.c ? o.c : 1), i);
        break;
      case Clear: x.clear(); mx.clear(); break;
      default: break;
    }
  }
  void run(const Case& c) {
    bool side = false;
    for (auto& o : c.ops) {
      st.hit(o.code >= 0 && o.code < kN ? names[o.code] : "?");
      if (o.code == Swap) side = !side;
      else if (side) apply(o, b, mb, a, ma);
      else apply(o, a, ma, b, mb);
      same(a, ma, "first map");
      same(b, mb, "second map");
      trk::check();
      st.mixin(ma.size() * 1000 + mb.size() * 31 + static_cast<uint64_t>(o.code));
    }
    if (refused) st.hit("case_with_refusal");
    st.nontrivial = moved > 0;
  }
};

template <class A, class B>
void reg(const char* name, unsigned w = 1) {
  const int64_t uni = KeyCodec<typename A::key_type>::universe;
  pbt::configs().push_back(
      {name,
       [uni](Rng& r) {
         Case c;
         int64_t ca = static_cast<int64_t>(A().capacity()), cb = static_cast<int64_t>(B().capacity());
         int64_t u = std::min<int64_t>(uni, ca + cb + static_cast<int64_t>(r.below(static_cast<uint64_t>(ca + cb) * 2)));
         c.params = {static_cast<int64_t>(r.below(6)), u};
         int64_t n = r.size(3, 50);
         c.ops.push_back({Fill, r.range(0, u - 1), r.range(1, std::max(ca, cb) * 2), r.range(-3, 3)});
         for (int64_t i = 0; i < n; ++i) {
           unsigned s = static_cast<unsigned>(r.below(100));
           int64_t x = r.range(0, 1000);
           if (s < 18) c.ops.push_back({Split, x, r.below(3) ? 1 : 0, 0});
           else if (s < 36) c.ops.push_back({Prefix, x, 0, 0});
           else if (s < 54) c.ops.push_back({Suffix, x, 0, 0});
           else if (s < 60) c.ops.push_back({BadCount, x, r.range(0, 1), r.range(0, 1)});
           else if (s < 66) c.ops.push_back({NoRoom, 0, 0, 0});
           else if (s < 76) c.ops.push_back({Swap, 0, 0, 0});
           else if (s < 84) c.ops.push_back({Insert, r.range(0, u - 1), x, 0});
           else if (s < 90) c.ops.push_back({Erase, x, 0, 0});
           else if (s < 98) c.ops.push_back({Fill, r.range(0, u - 1), r.range(1, ca + cb), r.range(-3, 3)});
           else c.ops.push_back({Clear, 0, 0, 0});
         }
         return c;
       },
       [](const Case& c, Stats& s) {
         {
           Sess<A, B> ss(c, s);
           ss.run(c);
         }
         trk::check();
       },
       w});
}
constexpr auto Lin = SearchMode::Linear;
constexpr auto Simd = SearchMode::SIMD;
using std::greater;
using std::less;
using std::string;
struct R {
  R() {
#if PART == 0
    reg<dense_map<int, int, 8>, dense_map<int, int, 8>>("int_8_8", 2);
    reg<dense_map<int, string, 10>, dense_map<int, string, 5>>("int_str_10_5", 2);
    reg<dense_map<int, int, 1>, dense_map<int, int, 16>>("int_1_16");
#elif PART == 1
    reg<dense_map<string, string, 7>, dense_map<string, string, 20>>("str_str_7_20", 2);
    reg<dense_map<trk::TKey, trk::TVal, 9>, dense_map<trk::TKey, trk::TVal, 12>>("obj_obj_9_12", 2);
    reg<dense_map<std::array<uint8_t, 32>, codec::Blob<256>, 6>, dense_map<std::array<uint8_t, 32>, codec::Blob<256>, 6>>("a32_b256_6_6");
#elif PART == 2
    reg<dense_map<int64_t, int, 33, greater<int64_t>, Simd>, dense_map<int64_t, int, 64, greater<int64_t>, Simd>>("i64_33_64_greater_simd");
    reg<dense_map<uint8_t, std::shared_ptr<int>, 40, less<uint8_t>, Simd>, dense_map<uint8_t, std::shared_ptr<int>, 20, less<uint8_t>, Simd>>("u8_sp_40_20_simd");
    reg<dense_map<float, int8_t, 3, less<float>, Lin>, dense_map<float, int8_t, 100, less<float>, Lin>>("f32_3_100_lin");
    reg<dense_map<int, int, 300>, dense_map<int, int, 280>>("int_300_280");
    reg<dense_map<int, int*, 16>, dense_map<int, int*, 16>>("int_ptr_16_16");
#endif
  }
} r_;
}  // namespace
