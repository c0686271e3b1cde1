// C26: RipCurrent flows. Every message goes through every block it has to, exactly once, in order, one at a time.
#include "vh.h"
#include <condition_variable>
#include <deque>
#include <functional>
#include <mutex>
#include <thread>
#include "ripcurrent/ripcurrent.h"

using current::ripcurrent::RipCurrentMockableErrorHandler;
namespace rc = current::ripcurrent;

namespace rip {
CURRENT_STRUCT(MA) {
  CURRENT_FIELD(who, uint32_t);
  CURRENT_FIELD(seq, uint32_t);
  CURRENT_FIELD(path, std::string);
  CURRENT_CONSTRUCTOR(MA)(uint32_t w = 0, uint32_t s = 0, std::string p = "") : who(w), seq(s), path(p) {}
};
CURRENT_STRUCT(MB) {
  CURRENT_FIELD(who, uint32_t);
  CURRENT_FIELD(seq, uint32_t);
  CURRENT_FIELD(path, std::string);
  CURRENT_CONSTRUCTOR(MB)(uint32_t w = 0, uint32_t s = 0, std::string p = "") : who(w), seq(s), path(p) {}
};
struct Msg {
  bool b;
  uint32_t who, seq;
  std::string path;
  std::string Str() const { return std::string(b ? "B" : "A") + std::to_string(who) + "/" + std::to_string(seq) + path; }
};
inline bool IsB(const MA&) { return false; }
inline bool IsB(const MB&) { return true; }

struct Ctx {
  uint64_t seed = 0;
  uint32_t threads = 0, in_ctor = 0, per_thread = 0, in_dtor = 0;
  std::mutex m;
  std::vector<std::pair<std::string, std::vector<std::string>>> results;  // One per instance of a final block.
  std::atomic<int> alive{0};
};
inline void Spin(vh::Rng& r) {
  switch (r.below(8)) {
    case 0: ::usleep(r.below(60)); break;
    case 1: ::sched_yield(); break;
    case 2: for (volatile int i = 0; i < 200; i = i + 1) {} break;
    default: break;
  }
}
// At most one call of the block at a time, and never before or after its life.
struct Guard {
  std::atomic<int> busy{0};
  uint64_t canary = 0x5a5a5a5a12345678ull;
  uint64_t plain = 0;  // For TSan.
  Ctx* c;
  vh::Rng r;
  explicit Guard(Ctx* c) : c(c), r(c->seed) { ++c->alive; }
  ~Guard() {
    if (busy) vh::Violation("rip:destroyed-busy", "");
    canary = 0;
    --c->alive;
  }
  template <typename F>
  void Do(F&& f) {
    if (canary != 0x5a5a5a5a12345678ull) vh::Violation("rip:called-dead", "");
    if (busy++) vh::Violation("rip:concurrent-calls", "a block is called from two threads at once");
    ++plain;
    Spin(r);
    f();
    --busy;
  }
};

// What each processing block does with a message.
inline std::vector<Msg> Apply(char kind, const Msg& m) {
  std::vector<Msg> out;
  switch (kind) {
    case 'p': out.push_back(m); break;
    case 'm':
    case 't':
      if (m.seq % 5 == 4) break;
      out.push_back({m.b, m.who, m.seq, m.path + kind});
      if (m.seq % 3 == 0) out.push_back({m.b, m.who, m.seq, m.path + kind + "'"});
      break;
    case 'x': out.push_back({!m.b, m.who, m.seq, m.path + "x"}); break;
    default: break;
  }
  return out;
}

template <typename EMIT>
void RunSource(Ctx* c, uint32_t base, std::vector<std::thread>& threads, EMIT emit_one) {
  for (uint32_t i = 0; i < c->in_ctor; ++i) emit_one(base, i);
  for (uint32_t t = 1; t <= c->threads; ++t) {
    threads.emplace_back([c, base, t, emit_one] {
      vh::Rng r(c->seed + t);
      for (uint32_t i = 0; i < c->per_thread; ++i) {
        emit_one(base + t, i);
        Spin(r);
      }
    });
  }
}
// Type of the message `seq` of source `kind`.
inline bool SourceType(char kind, uint32_t seq) { return kind == 'b' || (kind == 'c' && seq % 2); }

#define SOURCE(NAME, KIND, TYPES, BODY)                                                        \
  RIPCURRENT_NODE(NAME, void, TYPES) {                                                         \
    Ctx* c;                                                                                    \
    uint32_t base;                                                                             \
    Guard g;                                                                                   \
    std::vector<std::thread> threads;                                                          \
    void One(uint32_t who, uint32_t seq) { BODY }                                              \
    NAME(Ctx* c, uint32_t base) : c(c), base(base), g(c) {                                     \
      RunSource(c, base, threads, [this](uint32_t who, uint32_t seq) { One(who, seq); });      \
    }                                                                                          \
    ~NAME() {                                                                                  \
      for (auto& t : threads) t.join();                                                        \
      for (uint32_t i = 0; i < this->c->in_dtor; ++i) One(this->base + 9, i);                  \
    }                                                                                          \
  };
// clang-format off
SOURCE(SrcA, 'a', MA, emit<MA>(who, seq);)
SOURCE(SrcB, 'b', MB, emit<MB>(MB(who, seq));)
SOURCE(SrcAB, 'c', (MA, MB), if (seq % 2) { emit<MB>(who, seq); } else { emit<MA>(who, seq); })
#define SrcA(...) RIPCURRENT_MACRO(SrcA, __VA_ARGS__)
#define SrcB(...) RIPCURRENT_MACRO(SrcB, __VA_ARGS__)
#define SrcAB(...) RIPCURRENT_MACRO(SrcAB, __VA_ARGS__)

RIPCURRENT_NODE(MulA, MA, MA) {
  Guard g;
  explicit MulA(Ctx* c) : g(c) {}
  void f(MA m) { g.Do([&] { for (auto& o : Apply('m', {false, m.who, m.seq, m.path})) emit<MA>(o.who, o.seq, o.path); }); }
};
#define MulA(...) RIPCURRENT_MACRO(MulA, __VA_ARGS__)
RIPCURRENT_NODE(MulB, MB, MB) {
  Guard g;
  explicit MulB(Ctx* c) : g(c) {}
  void f(MB m) { g.Do([&] { for (auto& o : Apply('m', {true, m.who, m.seq, m.path})) emit<MB>(o.who, o.seq, o.path); }); }
};
#define MulB(...) RIPCURRENT_MACRO(MulB, __VA_ARGS__)
RIPCURRENT_NODE(CrossAB, (MA, MB), (MA, MB)) {
  Guard g;
  explicit CrossAB(Ctx* c) : g(c) {}
  void f(MA&& m) { g.Do([&] { emit<MB>(m.who, m.seq, m.path + "x"); }); }
  void f(MB&& m) { g.Do([&] { emit<MA>(m.who, m.seq, m.path + "x"); }); }
};
#define CrossAB(...) RIPCURRENT_MACRO(CrossAB, __VA_ARGS__)
// Emits from threads of its own, while receiving.
RIPCURRENT_NODE(ThrA, MA, MA) {
  Guard g;
  std::mutex m;
  std::condition_variable cv;
  std::deque<MA> q;
  bool done = false;
  std::vector<std::thread> threads;
  explicit ThrA(Ctx* c) : g(c) {
    for (int i = 0; i < 2; ++i) {
      threads.emplace_back([this] {
        while (true) {
          MA x;
          {
            std::unique_lock<std::mutex> l(m);
            cv.wait(l, [this] { return done || !q.empty(); });
            if (q.empty()) return;
            x = q.front();
            q.pop_front();
          }
          for (auto& o : Apply('t', {false, x.who, x.seq, x.path})) emit<MA>(o.who, o.seq, o.path);
        }
      });
    }
  }
  void f(MA x) {
    g.Do([&] {
      std::lock_guard<std::mutex> l(m);
      q.push_back(x);
      cv.notify_one();
    });
  }
  ~ThrA() {
    {
      std::lock_guard<std::mutex> l(m);
      done = true;
      cv.notify_all();
    }
    for (auto& t : threads) t.join();
  }
};
#define ThrA(...) RIPCURRENT_MACRO(ThrA, __VA_ARGS__)

#define DUMP(NAME, TYPES, FS)                                                     \
  RIPCURRENT_NODE(NAME, TYPES, void) {                                            \
    Guard g;                                                                      \
    std::vector<std::string> got;                                                 \
    explicit NAME(Ctx* c) : g(c) {}                                               \
    template <typename T>                                                         \
    void Got(const T& m) {                                                        \
      g.Do([&] { got.push_back(Msg{IsB(m), m.who, m.seq, m.path}.Str()); });      \
    }                                                                             \
    FS                                                                            \
    ~NAME() {                                                                     \
      std::lock_guard<std::mutex> l(g.c->m);                                      \
      g.c->results.emplace_back(#NAME, got);                                      \
    }                                                                             \
  };
DUMP(DumpA, MA, void f(const MA& m) { Got(m); })
DUMP(DumpB, MB, void f(MB m) { Got(m); })
DUMP(DumpAB, (MA, MB), void f(MA m) { Got(m); } void f(MB&& m) { Got(m); })
#define DumpA(...) RIPCURRENT_MACRO(DumpA, __VA_ARGS__)
#define DumpB(...) RIPCURRENT_MACRO(DumpB, __VA_ARGS__)
#define DumpAB(...) RIPCURRENT_MACRO(DumpAB, __VA_ARGS__)

RIPCURRENT_NODE(Timed, void, MA) {
  Timed(std::function<void(uint32_t, int64_t)>* p, std::function<void(uint32_t, int64_t)>* s, std::function<void(int64_t)>* h) {
    *p = [this](uint32_t seq, int64_t t) { post<MA>(std::chrono::microseconds(t), 0u, seq); };
    *s = [this](uint32_t seq, int64_t t) { schedule<MA>(std::chrono::microseconds(t), 0u, seq); };
    *h = [this](int64_t t) { head(std::chrono::microseconds(t)); };
  }
};
#define Timed(...) RIPCURRENT_MACRO(Timed, __VA_ARGS__)
RIPCURRENT_NODE(TimedDump, MA, void) {
  std::vector<uint32_t>* v;
  std::atomic<size_t>* n;
  TimedDump(std::vector<uint32_t>* v, std::atomic<size_t>* n) : v(v), n(n) {}
  void f(MA m) { v->push_back(m.seq); ++*n; }
};
#define TimedDump(...) RIPCURRENT_MACRO(TimedDump, __VA_ARGS__)
// clang-format on
}  // namespace rip
using namespace rip;

static std::atomic<int> errors{0};
static std::mutex last_error_mutex;
static std::string last_error;

// A flow: its sources (kind, base id), what each stage does to each of the types, and the dumps.
struct Flow {
  rc::E2E e2e;
  std::vector<std::pair<char, uint32_t>> sources;
  std::vector<std::pair<char, char>> stages;
  std::vector<std::string> dumps;
  bool ordered;
};
static Flow Make(vh::Rng& r, Ctx* c, int& shape) {
  shape = static_cast<int>(r.below(14));
  auto chain = [&](rc::LHS<rc::RHSTypes<MA>> src) {
    const auto m = MulA(c);
    const auto d = DumpA(c);
    switch (r.below(5)) {
      case 0: return src | m | m | d;
      case 1: return src | (m | m) | d;
      case 2: return src | (m | (m | d));
      case 3: return (src | m) | (m | d);
      default: return src | ((m | m) | d);
    }
  };
  switch (shape) {
    case 0: return {SrcA(c, 10) | DumpA(c), {{'a', 10}}, {}, {"DumpA"}, true};
    case 1: return {chain(SrcA(c, 10)), {{'a', 10}}, {{'m', 0}, {'m', 0}}, {"DumpA"}, true};
    case 2: return {SrcAB(c, 10) | (DumpA(c) + DumpB(c)), {{'c', 10}}, {}, {"DumpA", "DumpB"}, true};
    case 3: return {(SrcA(c, 10) + SrcB(c, 20)) | (DumpA(c) + DumpB(c)), {{'a', 10}, {'b', 20}}, {}, {"DumpA", "DumpB"}, true};
    case 4: return {(SrcA(c, 10) + SrcA(c, 20)) | DumpA(c), {{'a', 10}, {'a', 20}}, {}, {"DumpA"}, true};
    case 5: return {chain(SrcA(c, 10) + (SrcA(c, 20) + SrcA(c, 30))), {{'a', 10}, {'a', 20}, {'a', 30}}, {{'m', 0}, {'m', 0}}, {"DumpA"}, true};
    case 6: return {SrcAB(c, 10) | (MulA(c) + MulB(c)) | DumpAB(c), {{'c', 10}}, {{'m', 'm'}}, {"DumpAB"}, true};
    case 7: return {(SrcA(c, 10) + SrcB(c, 20)) | CrossAB(c) | (DumpA(c) + DumpB(c)), {{'a', 10}, {'b', 20}}, {{'x', 'x'}}, {"DumpA", "DumpB"}, true};
    case 8: return {SrcAB(c, 10) | RIPCURRENT_PASS(MA, MB) | (MulA(c) + RIPCURRENT_PASS(MB)) | CrossAB(c) | DumpAB(c), {{'c', 10}}, {{'p', 'p'}, {'m', 'p'}, {'x', 'x'}}, {"DumpAB"}, true};
    case 9: return {SrcAB(c, 10) | (RIPCURRENT_DROP(MA) + RIPCURRENT_PASS(MB)) | DumpB(c), {{'c', 10}}, {{'d', 'p'}}, {"DumpB"}, true};
    case 10: return {SrcA(c, 10) | ThrA(c) | DumpA(c), {{'a', 10}}, {{'t', 0}}, {"DumpA"}, false};
    case 11: return {(SrcA(c, 10) + SrcA(c, 20)) | (ThrA(c) | (MulA(c) | DumpA(c))), {{'a', 10}, {'a', 20}}, {{'t', 0}, {'m', 0}}, {"DumpA"}, false};
    case 12: return {((SrcA(c, 10) | MulA(c)) + SrcB(c, 20)) | (DumpA(c) + DumpB(c)), {{'a', 10}, {'b', 20}}, {{'m', 'p'}}, {"DumpA", "DumpB"}, true};
    default: return {((SrcA(c, 10) | ThrA(c) | MulA(c)) + (SrcB(c, 20) | MulB(c))) | CrossAB(c) | (DumpA(c) + DumpB(c)), {{'a', 10}, {'b', 20}}, {{'t', 'p'}, {'m', 'm'}, {'x', 'x'}}, {"DumpA", "DumpB"}, false};
  }
}

static void FlowCase(vh::Rng& r) {
  vh::Eval();
  Ctx ctx;
  Ctx* c = &ctx;
  c->seed = r.next();
  c->threads = static_cast<uint32_t>(r.below(4));
  c->in_ctor = static_cast<uint32_t>(r.below(8));
  c->per_thread = static_cast<uint32_t>(r.below(25));
  c->in_dtor = static_cast<uint32_t>(r.chance(30) ? r.below(4) : 0);
  int shape = 0;
  errors = 0;
  std::string digest;
  {
    const Flow f = Make(r, c, shape);
    // Per source thread, what it must become by the end.
    std::map<uint32_t, std::map<bool, std::vector<std::string>>> want;
    for (const auto& s : f.sources) {
      for (uint32_t t = 0; t < 10; ++t) {
        const uint32_t n = t == 0 ? c->in_ctor : t == 9 ? c->in_dtor : t <= c->threads ? c->per_thread : 0;
        for (uint32_t i = 0; i < n; ++i) {
          std::vector<Msg> now = {{SourceType(s.first, i), s.second + t, i, ""}};
          for (const auto& st : f.stages) {
            std::vector<Msg> next;
            for (const auto& m : now) {
              for (auto& o : Apply(m.b ? st.second : st.first, m)) next.push_back(o);
            }
            now = next;
          }
          for (const auto& m : now) want[m.who][m.b].push_back(m.Str());
        }
      }
    }
    const int runs = r.chance(70) ? 1 : 2;
    const int how = static_cast<int>(r.below(3));
    if (runs == 1 && how == 0) {
      f.e2e.RipCurrent().Join();
    } else {
      std::vector<std::unique_ptr<rc::RipCurrentScope>> scopes;
      for (int i = 0; i < runs; ++i) scopes.push_back(std::make_unique<rc::RipCurrentScope>(f.e2e.RipCurrent()));
      Spin(r);
      for (auto& s : scopes) {
        if (how == 1) {
          s->Join();
        } else {
          s->Async();
          if (r.chance(50)) {
            rc::RipCurrentScope moved(std::move(*s));
            s = nullptr;
          } else {
            s = nullptr;
          }
        }
      }
    }
    VH_CHECK(c->alive == 0, "rip:alive", "instances of blocks are alive after Join()");
    VH_CHECK(c->results.size() == f.dumps.size() * runs, "rip:instances", std::to_string(c->results.size()));
    for (const auto& res : c->results) {
      std::map<uint32_t, std::map<bool, std::vector<std::string>>> got;
      for (const auto& s : res.second) {
        got[static_cast<uint32_t>(atoi(s.c_str() + 1))][s[0] == 'B'].push_back(s);
        digest += s.substr(0, 5);
        vh::Count("delivered");
      }
      for (int b = 0; b < 2; ++b) {
        if (res.first == (b ? "DumpA" : "DumpB")) continue;
        for (uint32_t who = 0; who < 50; ++who) {
          auto w = want[who][b];
          auto g = got[who][b];
          if (!f.ordered) {
            std::sort(w.begin(), w.end());
            std::sort(g.begin(), g.end());
          }
          if (w != g) {
            std::string d = "shape " + std::to_string(shape) + ", " + std::to_string(c->threads) + " threads, delivered:";
            for (auto& x : g) d += " " + x;
            d += ", expected:";
            for (auto& x : w) d += " " + x;
            auto ws = w, gs = g;
            std::sort(ws.begin(), ws.end());
            std::sort(gs.begin(), gs.end());
            vh::Violation(ws == gs ? "rip:order" : gs.size() < ws.size() ? "rip:lost" : "rip:extra", d.substr(0, 1500));
          }
        }
      }
    }
  }
  if (errors) vh::Violation("rip:error", "shape " + std::to_string(shape) + ": " + last_error);
  vh::Distinct(vh::hash_str(digest));
}

static void TimedCase(vh::Rng& r) {
  vh::Eval();
  // Up to two sources into one queue.
  std::function<void(uint32_t, int64_t)> posts[2], schedules[2];
  std::function<void(int64_t)> heads[2];
  const uint64_t shape = r.below(5);
  auto which = [&]() -> int { return shape == 0 || shape == 4 ? 0 : static_cast<int>(r.below(2)); };
  auto post = [&](uint32_t seq, int64_t t) { posts[which()](seq, t); };
  auto schedule = [&](uint32_t seq, int64_t t) { schedules[which()](seq, t); };
  auto head = [&](int64_t t) { heads[which()](t); };
  Ctx unused;
  std::vector<uint32_t> got, want;
  std::atomic<size_t> n{0};
  errors = 0;
  int want_errors = 0;
  int64_t now = -1;
  std::set<std::pair<int64_t, uint32_t>> pending;
  std::string history;
  auto release = [&] {
    while (!pending.empty() && pending.begin()->first <= now) {
      want.push_back(pending.begin()->second);
      pending.erase(pending.begin());
    }
  };
  auto settle = [&]() -> bool {
    for (int i = 0; i < 200000 && n < want.size(); ++i) ::usleep(50);
    if (r.chance(10)) ::usleep(500);  // Nothing else must come.
    if (n != want.size()) vh::Violation(n < want.size() ? "rip:timed:late" : "rip:timed:early", history);
    return n == want.size();
  };
  {
    auto source = [&](int i) { return Timed(&posts[i], &schedules[i], &heads[i]); };
    auto make = [&]() -> rc::E2E {
      switch (shape) {
        case 0: return source(0) | TimedDump(&got, &n);
        case 1: return (source(0) + source(1)) | TimedDump(&got, &n);
        case 2: return (source(1) + (source(0) + SrcB(&unused, 20))) | (TimedDump(&got, &n) + DumpB(&unused));
        case 3: return ((source(0) + source(1)) + SrcB(&unused, 20)) | (TimedDump(&got, &n) + DumpB(&unused));
        default: return (source(0) + SrcB(&unused, 20)) | (TimedDump(&got, &n) + DumpB(&unused));
      }
    };
    const auto flow = make();
    auto scope = flow.RipCurrent();
    uint32_t seq = 0;
    bool good = true;
    history = "shape " + std::to_string(shape) + ": ";
    for (uint64_t i = 5 + r.below(30); i && good; --i) {
      const int64_t t = std::max<int64_t>(0, now + r.range(-3, 12));
      const uint64_t what = r.below(10);
      if (what < 4) {
        history += "schedule " + std::to_string(t) + "; ";
        schedule(seq, t);
        pending.emplace(t, seq++);
      } else if (what < 7) {
        history += "post " + std::to_string(t) + "; ";
        if (t > now) {
          now = t;
          pending.emplace(t, seq);
        } else {
          ++want_errors;
        }
        post(seq++, t);
      } else {
        history += "head " + std::to_string(t) + "; ";
        if (t > now) {
          now = t;
        } else {
          ++want_errors;
        }
        head(t);
      }
      release();
      good = settle();
      if (errors != want_errors) vh::Violation("rip:timed:errors", std::to_string(errors) + " vs. " + std::to_string(want_errors) + ": " + history), good = false;
    }
    now += 1000;
    head(now);
    release();
    scope.Join();
  }
  std::string d;
  for (auto x : got) d += " " + std::to_string(x);
  VH_CHECK(got == want, "rip:timed", d + " after " + history);
  vh::Distinct(vh::hash_str(history));
  vh::Count("timed_messages", want.size());
}

// Every block must be used somehow, every scope must be taken care of, once.
static void LifeCase(vh::Rng& r) {
  vh::Eval();
  Ctx ctx;
  Ctx* c = &ctx;
  errors = 0;
  int want = 0;
  std::string history;
  {
    std::vector<rc::VIA<rc::LHSTypes<MA>, rc::RHSTypes<MA>>> blocks;
    std::vector<int> used;
    for (uint64_t i = 1 + r.below(4); i; --i) {
      blocks.push_back(MulA(c));
      used.push_back(0);
      if (r.chance(50)) {  // Copies are the same block.
        auto copy = blocks.back();
        if (r.chance(50)) copy.Dismiss(), used.back() = 1;
      }
    }
    for (uint64_t i = r.below(4); i; --i) {
      const size_t k = r.below(blocks.size());
      switch (r.below(4)) {
        case 0: VH_CHECK(blocks[k].Describe() == "... | MulA(c) | ...", "rip:describe", blocks[k].Describe()); break;
        case 1: VH_CHECK(blocks[k].DescribeWithTypes() == "... | { MA } => MulA(c) => { MA } | ...", "rip:describe", blocks[k].DescribeWithTypes()); break;
        case 2: blocks[k].Dismiss(); break;
        default: {
          const size_t j = r.below(blocks.size());
          used[j] = 1;
          const auto flow = SrcA(c, 10) | blocks[k] | blocks[j] | DumpA(c);
          if (r.chance(30)) {
            flow.Dismiss();
          } else if (r.chance(30)) {
            VH_CHECK(flow.Describe() == "SrcA(c, 10) | MulA(c) | MulA(c) | DumpA(c)", "rip:describe", flow.Describe());
          } else if (r.chance(80)) {
            auto scope = flow.RipCurrent();
            const uint64_t how = r.below(5);
            if (how == 0) {
              ++want;
              history += "left; ";
            } else if (how == 1) {
              scope.Join();
              scope.Join();
              ++want;
              history += "joined twice; ";
            } else if (how == 2) {
              scope.Async();
              if (r.chance(50)) {
                scope.Join();
                ++want;
                history += "async, then joined; ";
              }
            } else {
              scope.Join();
            }
          } else {
            ++want;
            history += "flow not used; ";
          }
        }
      }
      used[k] = 1;
    }
    for (int u : used) {
      if (!u) ++want, history += "block not used; ";
    }
  }
  VH_CHECK(errors == want, "rip:life", std::to_string(errors) + " errors, expected " + std::to_string(want) + ": " + history);
  VH_CHECK(c->alive == 0, "rip:alive", history);
  vh::Count("lives");
  vh::Distinct(vh::hash_str(history));
}

int main(int argc, char** argv) {
  return vh::Main(argc, argv, [] {
    auto& o = vh::opt();
    vh::Rng seed(o.seed * 1000003 + o.shard * 7919 + vh::hash_str(o.mode));
    current::Singleton<RipCurrentMockableErrorHandler>().SetHandler([](const std::string& s) {
      std::lock_guard<std::mutex> l(last_error_mutex);
      last_error = s;
      ++errors;
    });
    for (uint64_t i = 0; i < o.cases && !vh::TooMany(); ++i) {
      vh::Rng r(seed.next());
      if (i % 16 == 0) vh::Case("case " + std::to_string(i));
      if (o.mode == "flow") FlowCase(r);
      if (o.mode == "timed") {
        TimedCase(r);
        LifeCase(r);
      }
      vh::Count("cases");
    }
  });
}
