// Compile probe of C20: the containers accept a key type that has no operator==
// and no operator<, only a comparator.  With -DCONTROL the type has both.
#include <fast_containers/btree.hpp>
#include <fast_containers/dense_map.hpp>
#include <cstdio>
#include <string>
using namespace kressler::fast_containers;
struct K {
  int id;
#ifdef CONTROL
  bool operator==(const K& o) const { return id == o.id; }
  bool operator!=(const K& o) const { return id != o.id; }
  bool operator<(const K& o) const { return id < o.id; }
#endif
};
struct L {
  bool operator()(const K& a, const K& b) const { return a.id < b.id; }
};
template <SearchMode M>
int use() {
  btree<K, std::string, 8, 8, L, M> t;
  for (int i = 0; i < 500; ++i) t.insert(K{i * 7 % 500}, "x");
  t.insert_or_assign(K{3}, std::string("y"));
  t.try_emplace(K{4}, "z");
  t.emplace(K{5}, "w");
  t.emplace_hint(t.begin(), K{6}, "w");
  t[K{7}] = "q";
  auto c = t;
  auto d = std::move(c);
  c = d;
  swap(c, d);
  int n = static_cast<int>(t.contains(K{9}) + t.count(K{10}) + (t.find(K{11}) != t.end()) + (t.lower_bound(K{3}) != t.upper_bound(K{3})));
  auto er = t.equal_range(K{12});
  n += er.first != er.second;
  n += t.at(K{13}) == "x";
  t.erase(K{14});
  t.erase(t.find(K{15}));
  t.erase(t.lower_bound(K{100}), t.lower_bound(K{200}));
  dense_map<K, int, 8, L, M> m;
  m.insert(K{1}, 1);
  m.insert_hint(m.lower_bound(K{2}), K{2}, 2);
  m.try_emplace(K{3}, 3);
  m.insert_or_assign(K{3}, 4);
  m[K{5}] = 1;
  n += m.find(K{1}) != m.end();
  n += m.lower_bound(K{1}) != m.upper_bound(K{1});
  m.erase(K{1});
  return n == 8 && t.size() == 398 ? 0 : 1;
}
int main() { return use<SearchMode::Binary>() + use<SearchMode::Linear>(); }
