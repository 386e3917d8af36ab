// Shared driver of the replay oracles: deterministic cases by (seed, index), counterexample hints,
// a wall-clock budget, and a report of the drawn values when the real code misbehaves.
#ifndef REPLAY_COMMON_H
#define REPLAY_COMMON_H
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <cmath>
#include <fstream>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace replay {

struct Fail {
  std::string what;
};

inline std::string& Log() {
  static std::string* s = new std::string;
  return *s;
}
inline void Note(const std::string& s) {
  if (Log().size() < 20000) Log() += s;
}

template <class... A>
std::string Str(const A&... a) {
  std::ostringstream o;
  o.precision(10);
  (void)std::initializer_list<int>{((void)(o << a), 0)...};
  return o.str();
}

class Gen {
 public:
  Gen(uint64_t seed, const std::map<std::string, double>* hints) : s_(seed), hints_(hints) {
    for (int i = 0; i < 4; ++i) U();
    if (hints_) for (auto& kv : *hints_) pool_.push_back(kv.second);
  }
  uint64_t U() {
    uint64_t z = (s_ += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  int Int(int lo, int hi) { return lo + (int)(U() % (uint64_t)(hi - lo + 1)); }
  int64_t I64(int64_t lo, int64_t hi) { return lo + (int64_t)(U() % (uint64_t)(hi - lo + 1)); }
  bool P(double p) { return Unit() < p; }
  double Unit() { return (U() >> 11) * (1.0 / 9007199254740992.0); }
  double Real(double lo, double hi) { return lo + (hi - lo) * Unit(); }
  template <class T>
  T Pick(std::initializer_list<T> l) {
    return *(l.begin() + Int(0, (int)l.size() - 1));
  }
  // true when hints may be used; out receives the named hint or any pool value
  bool Hint(const char* name, double* out) {
    if (!hints_) return false;
    auto it = hints_->find(name);
    if (it != hints_->end() && P(0.9)) {
      *out = it->second;
      return true;
    }
    if (!pool_.empty() && P(0.3)) {
      *out = pool_[Int(0, (int)pool_.size() - 1)];
      return true;
    }
    return false;
  }
  bool hinted() const { return hints_ != nullptr; }

 private:
  uint64_t s_;
  const std::map<std::string, double>* hints_;
  std::vector<double> pool_;
};

// Provided by each oracle: one case of the property; throws Fail when the real code violates it.
void RunCase(const std::string& prop, Gen& g, uint64_t index);

inline void OnSignal(int sig) {
  const char* n = sig == SIGALRM ? "the code under test does not terminate"
                                 : sig == SIGABRT ? "the code under test aborted (assertion)"
                                                  : "the code under test crashed";
  printf("REPLAY-VIOLATION %s\n%s\n", n, Log().c_str());
  fflush(stdout);
  _exit(1);
}

inline double Now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

inline int Main(int argc, char** argv) {
  // oracle PROP SEED SECONDS HINTFILE|- [INDEX]
  std::string prop = argv[1];
  uint64_t seed = strtoull(argv[2], 0, 10);
  double budget = atof(argv[3]);
  std::vector<std::map<std::string, double>> hints;
  if (argc > 4 && strcmp(argv[4], "-")) {
    std::ifstream f(argv[4]);
    std::string l;
    hints.emplace_back();
    while (std::getline(f, l)) {
      if (l == "--") {
        hints.emplace_back();
        continue;
      }
      auto p = l.find('=');
      if (p != std::string::npos) hints.back()[l.substr(0, p)] = atof(l.c_str() + p + 1);
    }
    while (!hints.empty() && hints.back().empty()) hints.pop_back();
  }
  for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGALRM, SIGILL}) signal(s, OnSignal);
  double t0 = Now();
  uint64_t i = 0, only = argc > 5 ? strtoull(argv[5], 0, 10) : ~0ull;
  if (only != ~0ull) i = only;
  for (;; ++i) {
    if ((i & 15) == 0 && Now() - t0 > budget) break;
    Log().clear();
    const std::map<std::string, double>* h = nullptr;
    if (!hints.empty() && i % 3 != 2) h = &hints[(i / 3) % hints.size()];
    Gen g(seed * 1000003ull + i, h);
    itimerval tv = {{0, 0}, {20, 0}};
    setitimer(ITIMER_REAL, &tv, nullptr);
    try {
      RunCase(prop, g, i);
    } catch (const Fail& f) {
      printf("REPLAY-VIOLATION %s\ncase %llu of seed %llu\n%s\n", f.what.c_str(), (unsigned long long)i,
             (unsigned long long)seed, Log().c_str());
      return 1;
    } catch (const std::exception& e) {
      printf("REPLAY-VIOLATION the code under test threw %s\ncase %llu of seed %llu\n%s\n", e.what(),
             (unsigned long long)i, (unsigned long long)seed, Log().c_str());
      return 1;
    }
    if (only != ~0ull) { ++i; break; }
  }
  printf("REPLAY-CLEAN %llu cases\n", (unsigned long long)i);
  return 0;
}
}  // namespace replay
#endif
