// Runs a program's main in a child process and collects its exit status and
// output.  The program is compiled into the harness as it is; linking with
// -Wl,--wrap=main makes the harness the entry point and the program callable.
#pragma once
#include <poll.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <iostream>
#include <string>
#include <vector>

#include "pbt.hpp"

extern "C" int __real_main(int, char**);
extern "C" int __wrap_main(int argc, char** argv) { return pbt::main_impl(argc, argv); }

namespace tool {
inline int program(int argc, char** argv) { return __real_main(argc, argv); }
struct Result {
  bool exited = false;
  int code = -1;  // exit status, or minus the signal
  std::string out, err;
  bool crashed() const {
    return !exited || code == 77 || code == 98 || code == 99 || err.find("Sanitizer") != std::string::npos || err.find("runtime error:") != std::string::npos ||
           err.find("Assertion") != std::string::npos;
  }
  std::string tail() const {
    std::string t = err.empty() ? out : err;
    return t.size() > 300 ? t.substr(t.size() - 300) : t;
  }
};
inline std::string slurp(int fd) {
  std::string s;
  lseek(fd, 0, SEEK_SET);
  char buf[65536];
  ssize_t n;
  while ((n = read(fd, buf, sizeof buf)) > 0) s.append(buf, static_cast<size_t>(n));
  close(fd);
  return s;
}
template <class Main>
Result run(Main m, const std::vector<std::string>& args) {
  int o = memfd_create("out", 0), e = memfd_create("err", 0);
  CHECK(o >= 0 && e >= 0);
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  CHECK(pid >= 0);
  if (pid == 0) {
    dup2(o, 1);
    dup2(e, 2);
    pbt::arm_cpu_limit();
    // leave without the harness's own exit work
    on_exit(
        [](int st, void*) {
          std::cout.flush();
          std::cerr.flush();
          fflush(stdout);
          fflush(stderr);
          _exit(st);
        },
        nullptr);
    std::vector<std::string> a{"tool"};
    a.insert(a.end(), args.begin(), args.end());
    std::vector<char*> v;
    for (auto& s : a) v.push_back(s.data());
    v.push_back(nullptr);
    // an escaping exception ends the program, as it would on its own
    std::exit([&]() noexcept { return m(static_cast<int>(a.size()), v.data()); }());
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  Result r;
  r.exited = WIFEXITED(st);
  r.code = r.exited ? WEXITSTATUS(st) : -WTERMSIG(st);
  r.out = slurp(o);
  r.err = slurp(e);
  return r;
}
template <class T>
T* shared() {
  void* p = mmap(nullptr, sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) abort();
  return new (p) T();
}
}  // namespace tool
