// Stand-in for the part of Lyra that the repository's programs use (the
// submodule is not available offline).
#pragma once
#include <cstdint>
#include <functional>
#include <memory>
#include <ostream>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>

namespace lyra {
struct parse_result {
  std::string err;
  explicit operator bool() const { return err.empty(); }
  bool operator!() const { return !err.empty(); }
  const std::string& message() const { return err; }
  const std::string& errorMessage() const { return err; }
};

inline bool convert(const std::string& s, bool& b) {
  static const char* const yes[] = {"y", "1", "true", "yes", "on"};
  static const char* const no[] = {"n", "0", "false", "no", "off"};
  for (auto* y : yes)
    if (s == y) return b = true, true;
  for (auto* n : no)
    if (s == n) return b = false, true;
  return false;
}
template <class T>
bool convert(const std::string& s, T& t) {
  std::istringstream is(s);
  is >> t;
  return !is.fail();
}
inline bool convert(const std::string& s, std::string& t) {
  t = s;
  return true;
}
template <class T>
bool convert(const std::string& s, std::vector<T>& v) {
  T t{};
  if (!convert(s, t)) return false;
  v.push_back(std::move(t));
  return true;
}

struct item {
  std::vector<std::string> names;
  std::string hint_, text;
  bool flag = false;
  std::function<bool(const std::string&)> set;
};
template <class Self>
struct builder : item {
  Self& self() { return static_cast<Self&>(*this); }
  Self& operator[](const std::string& n) {
    names.push_back(n);
    return self();
  }
  Self& operator()(const std::string& d) {
    text = d;
    return self();
  }
  Self& help(const std::string& d) { return (*this)(d); }
  Self& optional() { return self(); }
  Self& required() { return self(); }
  Self& name(const std::string& n) { return (*this)[n]; }
};
struct opt : builder<opt> {
  template <class T>
  opt(T& t, const std::string& h) {
    hint_ = h;
    set = [&t](const std::string& s) { return convert(s, t); };
  }
  explicit opt(bool& b) {
    flag = true;
    set = [&b](const std::string&) { return b = true; };
  }
};
struct arg : builder<arg> {
  template <class T>
  arg(T& t, const std::string& h) {
    hint_ = h;
    set = [&t](const std::string& s) { return convert(s, t); };
  }
};
struct help : builder<help> {
  explicit help(bool& b) {
    flag = true;
    names = {"-?", "-h", "--help"};
    set = [&b](const std::string&) { return b = true; };
  }
};
struct args {
  std::vector<std::string> v;
  args(int c, char** a) {
    for (int i = 1; i < c; ++i) v.emplace_back(a[i]);
  }
};
struct cli {
  std::vector<item> opts, pos;
  cli& add(const arg& a) {
    pos.push_back(a);
    return *this;
  }
  template <class O>
  cli& add(const O& o) {
    opts.push_back(o);
    return *this;
  }
  template <class O>
  cli& add_argument(const O& o) {
    return add(o);
  }
  template <class O>
  cli& operator|=(const O& o) {
    return add(o);
  }
  template <class O>
  friend cli operator|(cli c, const O& o) {
    c.add(o);
    return c;
  }
  parse_result parse(args a) const {
    size_t np = 0;
    for (size_t i = 0; i < a.v.size(); ++i) {
      std::string s = a.v[i], val;
      bool has = false;
      if (s.size() > 1 && s[0] == '-') {
        auto e = s.find('=');
        if (e != std::string::npos) {
          val = s.substr(e + 1);
          s = s.substr(0, e);
          has = true;
        }
        const item* f = nullptr;
        for (auto& o : opts)
          for (auto& n : o.names)
            if (n == s) f = &o;
        if (!f) return {"Unrecognized token: " + s};
        if (!f->flag && !has) {
          if (i + 1 >= a.v.size()) return {"Expected argument following " + s};
          val = a.v[++i];
        }
        if (!f->set(val)) return {"Unable to convert '" + val + "' to destination type"};
      } else {
        if (np >= pos.size()) return {"Unrecognized token: " + s};
        if (!pos[np].set(s)) return {"Unable to convert '" + s + "' to destination type"};
      }
    }
    return {};
  }
  friend std::ostream& operator<<(std::ostream& os, const cli& c) {
    os << "USAGE:\n";
    for (auto& o : c.opts) {
      os << " ";
      for (auto& n : o.names) os << " " << n;
      os << " <" << o.hint_ << ">  " << o.text << "\n";
    }
    return os;
  }
};
}  // namespace lyra
