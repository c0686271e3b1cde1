// Shared by all harnesses: seeded RNG, verdict/evidence channel to the runner, schedule perturbation.
#ifndef VH_H
#define VH_H
#include <atomic>
#include <cinttypes>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <mutex>
#include <pthread.h>
#include <sched.h>
#include <set>
#include <string>
#include <thread>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vh {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  // Uniform in [0, n).
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + static_cast<int64_t>(below(static_cast<uint64_t>(b - a + 1))); }
  bool chance(int pct) { return static_cast<int>(below(100)) < pct; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  Rng fork() { return Rng(next()); }
};

inline uint64_t hash_mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 29);
}
inline uint64_t hash_str(const std::string& s, uint64_t h = 0xcbf29ce484222325ull) {
  for (unsigned char c : s) {
    h = (h ^ c) * 0x100000001b3ull;
  }
  return h;
}

struct Options {
  std::string mode, out, hashes, scratch, tier;
  uint64_t seed = 1;
  uint64_t cases = 100;
  int shard = 0;
};
inline Options& opt() {
  static Options o;
  return o;
}

struct State {
  // A raw lock, not std::mutex: the harness' own bookkeeping must not add happens-before edges... it does
  // anyway where used, hence the hot paths of workloads never call into it.
  std::mutex m;
  int fd = -1;
  std::map<std::string, uint64_t> counts;
  std::unordered_set<uint64_t> hashes;
  std::map<std::string, int> violations;
  int samples = 0;
};
inline State& st() {
  static State s;
  return s;
}

inline std::string esc(const std::string& s) {
  std::string r;
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += static_cast<char>(c);
    } else if (c < 32 || c >= 127) {
      snprintf(b, sizeof(b), "\\u%04x", c);
      r += b;
    } else {
      r += static_cast<char>(c);
    }
  }
  return r;
}

inline void emit(const std::string& line) {
  const std::string l = line + "\n";
  size_t off = 0;
  while (off < l.size()) {
    ssize_t w = ::write(st().fd, l.data() + off, l.size() - off);
    if (w <= 0) break;
    off += w;
  }
}

inline std::string& current_case() {
  static std::string c;
  return c;
}

inline void Violation(const std::string& key, const std::string& detail) {
  std::lock_guard<std::mutex> l(st().m);
  if (++st().violations[key] > 3) return;
  emit("{\"t\":\"violation\",\"key\":\"" + esc(key) + "\",\"detail\":\"" + esc(detail.substr(0, 3000)) + "\",\"case\":\"" +
       esc(current_case()) + "\"}");
}
inline void Count(const std::string& k, uint64_t n = 1) {
  std::lock_guard<std::mutex> l(st().m);
  st().counts[k] += n;
}
inline void Eval(uint64_t n = 1) { Count("evaluations", n); }
inline void Distinct(uint64_t h) {
  std::lock_guard<std::mutex> l(st().m);
  if (st().hashes.size() < 400000) st().hashes.insert(h);
}
inline void Sample(const std::string& s) {
  std::lock_guard<std::mutex> l(st().m);
  if (st().samples++ < 3) emit("{\"t\":\"sample\",\"v\":\"" + esc(s.substr(0, 700)) + "\"}");
}
inline void Case(const std::string& s) {
  std::lock_guard<std::mutex> l(st().m);
  current_case() = s;
}
// Written to the file at once, so that the runner knows it after a crash.
inline void CaseDurable(const std::string& s) {
  std::lock_guard<std::mutex> l(st().m);
  current_case() = s;
  emit("{\"t\":\"case\",\"v\":\"" + esc(s.substr(0, 500)) + "\"}");
}
inline bool TooMany() {
  std::lock_guard<std::mutex> l(st().m);
  return st().violations.size() > 4;
}
#define VH_CHECK(cond, key, detail)       \
  do {                                    \
    if (!(cond)) ::vh::Violation(key, detail); \
  } while (false)

inline void Finish() {
  std::lock_guard<std::mutex> l(st().m);
  for (const auto& c : st().counts) {
    emit("{\"t\":\"count\",\"k\":\"" + esc(c.first) + "\",\"n\":" + std::to_string(c.second) + "}");
  }
  if (!opt().hashes.empty()) {
    std::vector<uint64_t> v(st().hashes.begin(), st().hashes.end());
    FILE* f = fopen(opt().hashes.c_str(), "wb");
    if (f) {
      if (!v.empty()) fwrite(v.data(), 8, v.size(), f);
      fclose(f);
    }
  }
  emit("{\"t\":\"done\"}");
}

// ---- schedule perturbation: random yields/sleeps around every mutex operation of the code under test.
inline std::atomic<int>& perturb_level() {
  static std::atomic<int> l{0};
  return l;
}
inline uint64_t& perturb_state() {
  static thread_local uint64_t s = 0;
  return s;
}
inline std::atomic<uint64_t>& perturb_seed() {
  static std::atomic<uint64_t> s{1};
  return s;
}
inline void MaybePerturb() {
  const int level = perturb_level().load(std::memory_order_relaxed);
  if (!level) return;
  uint64_t& s = perturb_state();
  if (!s) s = perturb_seed().fetch_add(0x9e3779b97f4a7c15ull, std::memory_order_relaxed) | 1;
  s ^= s << 13;
  s ^= s >> 7;
  s ^= s << 17;
  const unsigned r = static_cast<unsigned>(s >> 20) % 1000;
  if (r < static_cast<unsigned>(level * 3)) {
    // Rarely, a long one: a thread descheduled at the worst moment.
    ::usleep(1 + (s >> 40) % ((s >> 50) % 16 == 0 ? 3000 : 120));
  } else if (r < static_cast<unsigned>(level * 30)) {
    ::sched_yield();
  }
}

template <typename F>
int Main(int argc, char** argv, F&& body) {
  Options& o = opt();
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto eq = a.find('=');
    if (eq == std::string::npos) continue;
    std::string k = a.substr(0, eq), v = a.substr(eq + 1);
    if (k == "--mode") o.mode = v;
    if (k == "--out") o.out = v;
    if (k == "--hashes") o.hashes = v;
    if (k == "--scratch") o.scratch = v;
    if (k == "--tier") o.tier = v;
    if (k == "--seed") o.seed = strtoull(v.c_str(), nullptr, 10);
    if (k == "--cases") o.cases = strtoull(v.c_str(), nullptr, 10);
    if (k == "--shard") o.shard = atoi(v.c_str());
  }
  st().fd = o.out.empty() ? 1 : ::open(o.out.c_str(), O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
  perturb_seed() = o.seed;
  body();
  Finish();
  // Skip static destructors of the code under test (HTTP server singletons and such).
  ::_exit(0);
}

}  // namespace vh

extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*) __attribute__((weak));
int __real_pthread_mutex_unlock(pthread_mutex_t*) __attribute__((weak));
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  vh::MaybePerturb();
  return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  const int r = __real_pthread_mutex_unlock(m);
  vh::MaybePerturb();
  return r;
}
// Between the condition having been looked at and the wait having begun, which is where wakeups get lost.
void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void*, void*) __attribute__((weak));
int __real_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*) __attribute__((weak));
int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const struct timespec*) __attribute__((weak));
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void* cv, void* lock) {
  vh::MaybePerturb();
  __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(cv, lock);
}
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
  vh::MaybePerturb();
  return __real_pthread_cond_clockwait(c, m, k, t);
}
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
  vh::MaybePerturb();
  return __real_pthread_cond_timedwait(c, m, t);
}
}
#endif
