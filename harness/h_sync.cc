// C17 (Owned/Borrowed), C18 (WaitableAtomic), C19 (MMQ), C20 (MMPQ).
#include "vh.h"
#include <algorithm>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <list>
#include <memory>
#include <signal.h>
#include <sys/wait.h>
#ifndef PARTS
#define PARTS 255
#endif
#include "bricks/sync/owned_borrowed.h"
#include "bricks/sync/waitable_atomic.h"
#if PARTS & 12
#include "blocks/mmq/mmq.h"
#include "blocks/mmq/mmpq.h"
#endif

static int64_t NowUs() {
  return std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static void Spin(vh::Rng& r) {
  switch (r.below(6)) {
    case 0: ::usleep(r.below(60)); break;
    case 1: ::sched_yield(); break;
    case 2: for (volatile int i = 0; i < 200; i = i + 1) {} break;
    default: break;
  }
}
// A scenario that does not finish in time is a hang: report it, stop.
struct Watchdog {
  std::atomic<int64_t> deadline{0};
  std::string what;
  std::mutex m;
  Watchdog() {
    std::thread([this] {
      while (true) {
        ::usleep(100000);
        const int64_t d = deadline;
        if (d && NowUs() > d) {
          std::string w;
          { std::lock_guard<std::mutex> l(m); w = what; }
          vh::Violation("hang." + w, "the scenario did not finish within the time limit");
          vh::Finish();
          ::_exit(0);
        }
      }
    }).detach();
  }
  void Arm(const std::string& w, int seconds = 60) {
    { std::lock_guard<std::mutex> l(m); what = w; }
    deadline = NowUs() + seconds * 1000000ll;
  }
  void Disarm() { deadline = 0; }
};
static Watchdog& W() {
  static Watchdog* w = new Watchdog();
  return *w;
}

#if PARTS & 1
// ------------------------------------------------------------------------------------------------ C17
struct Obj {
  static std::atomic<int>& Alive() { static std::atomic<int> a{0}; return a; }
  uint64_t canary = 0x1234567812345678ull;
  uint64_t id;
  std::vector<int> data;          // Guarded by `ExclusiveUse` only.
  std::atomic<int> users{0};      // Borrowers that are live, as the harness knows them.
  std::atomic<bool>* gone;
  Obj(uint64_t id, std::atomic<bool>* gone) : id(id), data(10), gone(gone) { ++Alive(); }
  ~Obj() {
    if (users != 0) vh::Violation("owned.destroyed_while_borrowed", "the object is destroyed with " + std::to_string(users.load()) + " live borrowers");
    if (canary != 0x1234567812345678ull) vh::Violation("owned.destroyed_twice", "");
    canary = 0;
    *gone = true;
    --Alive();
  }
};
using O = current::Owned<Obj>;
using B = current::Borrowed<Obj>;
using BC = current::BorrowedWithCallback<Obj>;
using BG = current::BorrowedOfGuaranteedLifetime<Obj>;

static std::function<void(void*)>& OnCallback() {
  static std::function<void(void*)> f;
  return f;
}
// Sequential: random programs against a reference model of owners and borrowers.
static void OwnedModelCase(vh::Rng& r, int c) {
  struct Own { std::unique_ptr<O> p; uint64_t id = 0; size_t total = 0; std::unique_ptr<std::atomic<bool>> gone; bool Live() const { return p != nullptr; } };
  struct Bor {
    std::unique_ptr<B> b; std::unique_ptr<BC> bc; std::unique_ptr<BG> bg;
    uint64_t id = 0; bool valid = false; int called = 0;
    int move_assigned = 0;
  };
  std::map<uint64_t, Own> own;
  std::list<Bor> bor;
  std::string log = "owned_model:" + std::to_string(c);
  uint64_t next = 1;
  uint64_t h = 0;
  auto Active = [&](uint64_t id) { size_t n = 0; for (auto& b : bor) n += b.valid && b.id == id; return n; };
  auto Ref = [](Bor& b) -> current::WeakBorrowed<Obj>& {
    if (b.b) return *b.b;
    if (b.bc) return *b.bc;
    return *b.bg;
  };
  auto CheckAll = [&](const char* op) {
    for (auto& o : own) {
      auto& w = *o.second.p;
      VH_CHECK(w.IsValid(), "owned.owner_invalid", log);
      VH_CHECK(w.NumberOfActiveBorrowers() == Active(o.first), "owned.active_borrowers",
               log + ": after " + op + " " + std::to_string(w.NumberOfActiveBorrowers()) + " vs model " + std::to_string(Active(o.first)));
      VH_CHECK(w.TotalBorrowersSpawnedThroughoutLifetime() == o.second.total, "owned.total_borrowers",
               log + ": after " + op + " " + std::to_string(w.TotalBorrowersSpawnedThroughoutLifetime()) + " vs model " + std::to_string(o.second.total));
      VH_CHECK(w->id == o.first, "owned.wrong_object", log + ": owner after " + op);
      VH_CHECK(!*o.second.gone, "owned.destroyed_early", log + ": after " + op);
    }
    for (auto& b : bor) {
      VH_CHECK(Ref(b).IsValid() == b.valid, "borrowed.validity", log + ": after " + op);
      if (b.valid) {
        VH_CHECK(Ref(b)->id == b.id && (*Ref(b)).canary == 0x1234567812345678ull, "borrowed.wrong_object", log + ": borrower after " + op);
        VH_CHECK(&*Ref(b) == &**own[b.id].p, "borrowed.wrong_object", log + ": borrower and owner point to different objects after " + op);
      }
    }
    vh::Eval();
  };
  auto Destroy = [&](uint64_t id) {
    // Plain borrowers would block the owner's destructor forever: release them first, half of the time from the callback of another one.
    Bor* with_callback = nullptr;
    for (auto& b : bor) if (b.valid && b.id == id && b.bc) with_callback = &b;
    std::vector<Bor*> later;
    for (auto& b : bor) {
      if (b.valid && b.id == id && !b.bc) {
        if (with_callback && b.b && r.chance(50)) later.push_back(&b);
        else { if (b.b) *b.b = nullptr; else *b.bg = nullptr; b.valid = false; --own[id].p->operator->()->users; }
      }
    }
    size_t expected = 0;
    for (auto& b : bor) if (b.valid && b.id == id && b.bc) ++expected;
    std::map<Bor*, int> before;
    for (auto& b : bor) before[&b] = b.called;
    // `later` ones are to be released by the destruction callback of `with_callback` (see the lambda it was created with).
    Obj* obj = &**own[id].p;
    OnCallback() = [&, obj](void* p) {
      Bor& b = *static_cast<Bor*>(p);
      ++b.called;
      if (b.bc->IsValid()) vh::Violation("borrowed.valid_while_destructing", log);
      if (&b == with_callback) for (auto* x : later) { if (!x->valid) continue; *x->b = nullptr; x->valid = false; --obj->users; }
      // The counter goes down first: the assignment may let the destructor proceed.
      b.valid = false;
      --obj->users;
      *b.bc = nullptr;
    };
    auto gone = std::move(own[id].gone);
    W().Arm("owned_destructor", 30);
    own[id].p = nullptr;
    W().Disarm();
    OnCallback() = nullptr;
    VH_CHECK(*gone, "owned.not_destroyed", log);
    for (auto& b : bor) {
      const int d = b.called - before[&b];
      if (b.id == id && b.bc && before.count(&b)) VH_CHECK(d <= 1, "borrowed.callback_count", log + ": called " + std::to_string(d) + " times");
    }
    size_t called = 0;
    for (auto& b : bor) called += b.called - before[&b];
    VH_CHECK(called == expected, "borrowed.callback_count", log + ": " + std::to_string(called) + " callbacks, expected " + std::to_string(expected));
    own.erase(id);
  };
  for (int step = 0; step < 40 && !vh::TooMany(); ++step) {
    const int op = r.below(11);
    h = vh::hash_mix(h, op);
    if (op == 0 || own.empty()) {
      Own o; o.id = next++;
      o.gone = std::make_unique<std::atomic<bool>>(false);
      if (r.chance(50)) o.p = std::make_unique<O>(current::MakeOwned<Obj>(o.id, o.gone.get()));
      else o.p = std::make_unique<O>(current::ConstructOwned<Obj>(), o.id, o.gone.get());
      own[o.id] = std::move(o);
      CheckAll("own");
      continue;
    }
    auto oit = own.begin(); std::advance(oit, r.below(own.size()));
    std::vector<Bor*> live;
    for (auto& b : bor) if (b.valid) live.push_back(&b);
    Bor* lb = live.empty() ? nullptr : live[r.below(live.size())];
    auto NewFrom = [&](current::WeakBorrowed<Obj>& src, uint64_t id) {
      bor.emplace_back();
      Bor& b = bor.back();
      b.id = id; b.valid = true;
      const int kind = r.below(3);
      if (kind == 0) b.b = std::make_unique<B>(src);
      if (kind == 1) b.bc = std::make_unique<BC>(src, [&b] { auto& f = OnCallback(); if (f) f(&b); else vh::Violation("borrowed.callback_unexpected", "called with no owner being destroyed"); });
      if (kind == 2) b.bg = std::make_unique<BG>(src);
      ++own[id].total;
      ++own[id].p->operator->()->users;
    };
    switch (op) {
      case 1: case 2: NewFrom(*oit->second.p, oit->first); CheckAll("borrow"); break;
      case 3: if (lb) { NewFrom(Ref(*lb), lb->id); CheckAll("borrow from borrowed"); } break;
      case 4: if (lb) {
        --Ref(*lb)->users;
        if (r.chance(50)) { lb->valid = false; if (lb->b) *lb->b = nullptr; else if (lb->bc) *lb->bc = nullptr; else *lb->bg = nullptr; }
        else for (auto it = bor.begin(); it != bor.end(); ++it) if (&*it == lb) { bor.erase(it); break; }
        CheckAll("release");
      } break;
      case 5: if (lb && lb->b) {  // Move-construct a plain one.
        bor.emplace_back(); Bor& b = bor.back(); b.id = lb->id; b.valid = true; lb->valid = false;
        const int kind = r.below(3);
        if (kind == 0) b.b = std::make_unique<B>(std::move(*lb->b));
        if (kind == 1) b.bc = std::make_unique<BC>(std::move(*lb->b), [&b] { auto& f = OnCallback(); if (f) f(&b); else vh::Violation("borrowed.callback_unexpected", "called with no owner being destroyed"); });
        if (kind == 2) b.bg = std::make_unique<BG>(std::move(*lb->b));
        CheckAll("move-construct");
      } break;
      case 6: {  // Move-assign over another, possibly live, possibly of another owner.
        if (!lb) break;
        std::vector<Bor*> to;
        for (auto& b : bor) if (&b != lb && ((lb->b && b.b) || (lb->bg && b.bg))) to.push_back(&b);
        if (to.empty()) break;
        Bor* t = to[r.below(to.size())];
        if (t->valid) --Ref(*t)->users;
        if (lb->b) *t->b = std::move(*lb->b); else *t->bg = std::move(*lb->bg);
        t->id = lb->id; t->valid = true; lb->valid = false;
        CheckAll("move-assign");
      } break;
      case 7: {  // Move the owner.
        auto n = std::make_unique<O>(std::move(*oit->second.p));
        VH_CHECK(!oit->second.p->IsValid(), "owned.moved_from_valid", log);
        oit->second.p = std::move(n);
        CheckAll("move owner");
      } break;
      case 8: {  // Move-assign the owner over another one, which is thus destroyed.
        if (own.size() < 2) break;
        auto o2 = own.begin(); std::advance(o2, r.below(own.size()));
        if (o2 == oit) break;
        // No borrowers of the one overwritten, to keep the callbacks' model simple; callbacks are covered by op 9.
        const uint64_t dead = o2->first;
        for (auto& b : bor) if (b.valid && b.id == dead) { --Ref(b)->users; b.valid = false; if (b.b) *b.b = nullptr; else if (b.bc) *b.bc = nullptr; else *b.bg = nullptr; }
        *o2->second.p = std::move(*oit->second.p);
        VH_CHECK(*o2->second.gone, "owned.overwritten_not_destroyed", log);
        oit->second.p = std::move(o2->second.p);
        own.erase(dead);
        CheckAll("move-assign owner");
      } break;
      case 9: Destroy(oit->first); CheckAll("destroy"); break;
      case 10: {
        const int v = r.below(1000);
        if (lb) Ref(*lb).ExclusiveUse([v](Obj& o) { o.data[0] = v; });
        else oit->second.p->ExclusiveUse([v](Obj& o) { o.data[0] = v; });
        const auto& cref = lb ? *own[lb->id].p : *oit->second.p;
        const int got = cref.template ExclusiveUse<int>(std::function<int(const Obj&)>([](const Obj& o) { return o.data[0]; }));
        VH_CHECK(got == v, "owned.exclusive_use_value", log);
      } break;
    }
  }
  while (!own.empty()) Destroy(own.begin()->first);
  bor.clear();
  VH_CHECK(Obj::Alive() == 0, "owned.leaked", log);
  vh::Distinct(h);
  vh::Count("owner_borrower_programs");
}

// Concurrent: threads borrow, copy, move, use and release; the owner goes away at a random moment.
static void OwnedRaceCase(vh::Rng& r, int c) {
  const std::string log = "owned_race:" + std::to_string(c);
  vh::CaseDurable(log);
  std::atomic<bool> gone{false};
  std::atomic<uint64_t> spawned{0}, exclusive{0};
  std::atomic<int> callbacks{0};
  const int n = 1 + r.below(4);
  std::vector<std::thread> th;
  std::vector<uint64_t> history(n, 0);
  W().Arm("owned_race", 60);
  {
    auto o = std::make_unique<O>(current::MakeOwned<Obj>(1, &gone));
    std::atomic<int> ready{0};
    struct WithCallback { std::unique_ptr<BC> b; std::mutex m; std::condition_variable cv; bool stop = false; std::atomic<int> called{0}; };
    std::vector<std::unique_ptr<WithCallback>> wc;
    for (int t = 0; t < n; ++t) {
      const uint64_t seed = r.next();
      if (r.chance(35)) {
        // A thread with a callback-based borrower: released by its own thread once the callback is called, or early by itself.
        wc.emplace_back(new WithCallback());
        WithCallback* w = wc.back().get();
        (*o)->users++;
        w->b = std::make_unique<BC>(*o, [w] {
          if (w->called++) vh::Violation("borrowed.callback_twice", "");
          std::lock_guard<std::mutex> l(w->m);
          w->stop = true;
          w->cv.notify_all();
        });
        ++spawned;
        const bool leave_early = r.chance(40);
        const bool wait_for_callback = !leave_early;
        th.emplace_back([w, seed, leave_early, wait_for_callback, &ready, &exclusive, &callbacks] {
          vh::Rng q(seed);
          ++ready;
          for (int i = 0, e = q.below(30); i < e; ++i) {
            w->b->ExclusiveUse([](Obj& x) { for (auto& v : x.data) ++v; });
            ++exclusive;
            Spin(q);
          }
          if (wait_for_callback) {
            std::unique_lock<std::mutex> l(w->m);
            w->cv.wait(l, [w] { return w->stop; });
            ++callbacks;
          }
          if ((*w->b)->canary != 0x1234567812345678ull) vh::Violation("borrowed.dead_object", "");
          (*w->b)->users--;
          if (q.chance(50)) *w->b = nullptr; else w->b = nullptr;
          (void)leave_early;
        });
      } else {
        (*o)->users++;
        ++spawned;
        auto b0 = std::make_shared<B>(*o);
        th.emplace_back([b0, seed, t, &ready, &spawned, &exclusive, &history]() mutable {
          vh::Rng q(seed);
          std::vector<B> mine;
          mine.push_back(std::move(*b0));
          b0 = nullptr;
          ++ready;
          uint64_t h = 0;
          while (!mine.empty()) {
            B& any = mine[q.below(mine.size())];
            const bool valid = any.IsValid();
            h = vh::hash_mix(h, mine.size() * 2 + valid);
            if (any->canary != 0x1234567812345678ull) vh::Violation("borrowed.dead_object", "");
            const int op = valid ? q.below(5) : 2;
            switch (op) {
              case 0: if (mine.size() < 8) { any->users++; ++spawned; B copy(any); mine.push_back(std::move(copy)); } break;
              case 1: {
                const B& c = any;
                auto all_same = [](const Obj& x) { for (auto& v : x.data) if (v != x.data[0]) vh::Violation("owned.exclusive_use_torn", ""); };
                switch (q.below(4)) {
                  case 0: any.ExclusiveUse([](Obj& x) { for (auto& v : x.data) ++v; }); ++exclusive; break;
                  case 1: any.template ExclusiveUse<int>(std::function<int(Obj&)>([](Obj& x) { for (auto& v : x.data) ++v; return x.data[0]; })); ++exclusive; break;
                  case 2: c.ExclusiveUse(std::function<void(const Obj&)>(all_same)); break;
                  case 3: c.template ExclusiveUse<int>(std::function<int(const Obj&)>([&](const Obj& x) { all_same(x); return x.data[0]; })); break;
                }
              } break;
              case 2: if (!valid || mine.size() > 1) {
                any->users--;
                B gone(std::move(any));
                if (&any != &mine.back()) any = std::move(mine.back());
                mine.pop_back();
              } break;
              case 3: any.NumberOfActiveBorrowers(); break;
              case 4: Spin(q); break;
            }
          }
          history[t] = h;
        });
      }
    }
    if (r.chance(70)) while (ready < n) ::sched_yield();
    for (int i = r.below(20); i > 0; --i) { o->ExclusiveUse([](Obj& x) { for (auto& v : x.data) ++v; }); ++exclusive; }
    Spin(r);
    if (r.chance(30)) { auto o2 = std::make_unique<O>(std::move(*o)); o = std::move(o2); }
    uint64_t data0 = 0;
    (void)data0;
    o = nullptr;
    if (!gone) vh::Violation("owned.not_destroyed", log);
    for (auto& t : th) t.join();
    for (auto& w : wc) if (w->called > 1) vh::Violation("borrowed.callback_twice", log);
  }
  W().Disarm();
  uint64_t h = n;
  for (auto x : history) h = vh::hash_mix(h, x);
  vh::Distinct(h);
  vh::Eval();
  vh::Count("borrowers_spawned", spawned);
  vh::Count("exclusive_uses", exclusive);
  vh::Count("callbacks_waited_for", callbacks);
  VH_CHECK(Obj::Alive() == 0, "owned.leaked", log);
}
// A borrower of guaranteed lifetime that outlives its owner: the process is to end with an error, not to hang.
static void GuaranteedCase(vh::Rng& r, int c) {
  const int moves = r.below(3);
  const bool assigned = r.chance(40);
  const std::string log = "guaranteed:moves=" + std::to_string(moves) + ",assigned=" + std::to_string(assigned);
  vh::Case(log);
  const pid_t pid = ::fork();
  if (!pid) {
    ::close(2);
    ::alarm(10);
    std::atomic<bool> gone{false}, gone2{false};
    auto* o2 = new O(current::MakeOwned<Obj>(2, &gone2));
    auto* o = new O(current::MakeOwned<Obj>(1, &gone));
    auto* b = new BG(*o);
    for (int i = 0; i < moves; ++i) b = new BG(std::move(*b));
    if (assigned) { auto* x = new BG(*o2); *x = std::move(*b); }
    delete o;
    ::_exit(0);
  }
  int st = 0;
  ::waitpid(pid, &st, 0);
  VH_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 255, "borrowed_of_guaranteed_lifetime.no_error",
           log + ": status " + std::to_string(st) + " instead of exit(-1)");
  vh::Count("guaranteed_lifetime_breaches");
  vh::Eval();
  (void)c;
}
#endif

#if PARTS & 2
// ------------------------------------------------------------------------------------------------ C18
struct Val {
  uint64_t version = 0, a = 0, b = ~0ull;
  std::vector<uint64_t> log;  // Who was the k-th to change it.
  void Step(uint64_t who) {
    if (b != ~a) vh::Violation("watomic.torn", "an inconsistent value is observed");
    ++version;
    a = a * 31 + who;
    b = ~a;
    log.push_back(who);
  }
  bool Ok() const { return b == ~a; }
};
template <bool INTRUSIVE>
static void WatomicCase(vh::Rng& r, int c) {
  using WA = current::WaitableAtomic<Val, INTRUSIVE>;
  const std::string log = "watomic:" + std::to_string(c);
  vh::CaseDurable(log);
  W().Arm("watomic", 60);
  const int n = 2 + r.below(3), ops = 20 + r.below(60);
  std::vector<std::vector<uint64_t>> mine(n);
  std::atomic<uint64_t> waits{0}, timed{0};
  std::atomic<bool> rmw_lost{false};
  std::vector<uint64_t> applied(n, 0);
  uint64_t order = 0;
  {
    WA wa;
    std::atomic<int> done{0};
    std::vector<std::thread> th;
    for (int t = 0; t < n; ++t) {
      const uint64_t seed = r.next();
      th.emplace_back([&, t, seed] {
        vh::Rng q(seed);
        uint64_t last_seen = 0;
        auto Seen = [&](const Val& v) {
          if (!v.Ok()) vh::Violation("watomic.torn", log);
          if (v.version != v.log.size()) vh::Violation("watomic.torn", log + " log");
          if (v.version < last_seen) vh::Violation("watomic.went_back", log + ": version " + std::to_string(v.version) + " after " + std::to_string(last_seen));
          last_seen = v.version;
        };
        for (int i = 0; i < ops; ++i) {
          switch (q.below(9)) {
            case 0: { auto s = wa.MutableScopedAccessor(); Seen(*s); s->Step(t); ++applied[t]; last_seen = s->version; } break;
            case 1: wa.MutableUse([&](Val& v) { Seen(v); v.Step(t); ++applied[t]; last_seen = v.version; }); break;
            case 2: { const uint64_t got = wa.ImmutableUse([&](const Val& v) { Seen(v); return v.version; });
                      if (got != last_seen) vh::Violation("watomic.use_result", log); } break;
            case 3: { const Val v = wa.GetValue(); Seen(v); } break;
            case 4: { const bool change = q.chance(50);
                      const bool res = wa.PotentiallyMutableUse([&](Val& v) { Seen(v); if (change) { v.Step(t); ++applied[t]; last_seen = v.version; } return change; });
                      if (res != change) vh::Violation("watomic.use_result", log); } break;
            case 5: { // Compare-and-set.
                      Val v = wa.GetValue(); Seen(v); const uint64_t was = v.version; v.Step(t);
                      bool ok = false;
                      wa.SetValueIf([&](const Val& x) { ok = x.version == was; return ok; }, v);
                      if (ok) { ++applied[t]; last_seen = v.version; } } break;
            case 6: wa.UseAsLock([&] { ++order; }); break;
            case 7: { const uint64_t want = last_seen + q.below(2);
                      bool held = false;
                      const bool res = wa.WaitFor([&](const Val& v) { Seen(v); held = v.version >= want; return held; }, std::chrono::microseconds(q.below(2000)));
                      if (res != held) vh::Violation("watomic.wait_for_result", log);
                      ++timed; } break;
            case 8: Spin(q); break;
          }
        }
        ++done;
        wa.MutableUse([&](Val& v) { v.Step(t); ++applied[t]; });
        // Everyone waits for everyone else: a lost wakeup hangs here, unless another change comes after it.
        if (wa.Wait([&](const Val& v) { std::set<uint64_t> who; return done == n && v.Ok(); })) ++waits;
        if (done != n) vh::Violation("watomic.wait_returned_early", log);
        if (t == 0) wa.MutableUse([&](Val& v) { v.Step(t); ++applied[t]; });
      });
    }
    for (auto& t : th) t.join();
    const Val v = wa.GetValue();
    uint64_t total = 0;
    for (int t = 0; t < n; ++t) {
      total += applied[t];
      uint64_t k = 0;
      for (auto w : v.log) k += w == static_cast<uint64_t>(t);
      VH_CHECK(k == applied[t], "watomic.update_lost", log + ": thread " + std::to_string(t) + " made " + std::to_string(applied[t]) + " changes, " + std::to_string(k) + " are there");
    }
    VH_CHECK(total == v.version && v.Ok(), "watomic.update_lost", log);
    uint64_t h = n;
    for (auto w : v.log) h = vh::hash_mix(h, w);
    vh::Distinct(h);
    vh::Count("changes", total);
    vh::Count("locked_sections", order);
  }
  W().Disarm();
  vh::Count("timed_waits", timed);
  vh::Eval();
}
// A token goes around a ring of waiting threads: each step is a wakeup that must not be lost.
template <bool INTRUSIVE>
static void WatomicRingCase(vh::Rng& r, int c) {
  const std::string log = "watomic_ring:" + std::to_string(c);
  vh::CaseDurable(log);
  const int n = 2 + r.below(4);
  const uint64_t rounds = 30 + r.below(100);
  current::WaitableAtomic<uint64_t, INTRUSIVE> wa(static_cast<const uint64_t&>(uint64_t(0)));
  std::vector<std::thread> th;
  const int kind = r.below(5);
  W().Arm("watomic_lost_wakeup." + std::to_string(kind), 60);
  for (int t = 0; t < n; ++t) {
    const uint64_t seed = r.next();
    th.emplace_back([&, t, seed] {
      vh::Rng q(seed);
      for (uint64_t k = 0; k < rounds; ++k) {
        const uint64_t my = k * n + t;
        if (q.chance(20)) {
          const int64_t t0 = NowUs();
          if (!wa.WaitFor([my](const uint64_t& x) { return x == my; }, std::chrono::seconds(50))) vh::Violation("watomic.wait_for_timeout", log);
          if (NowUs() - t0 > 40000000) vh::Violation("watomic.lost_wakeup", log);
        } else {
          wa.Wait([my](const uint64_t& x) { return x == my; });
        }
        switch (kind) {
          case 0: wa.SetValue(my + 1); break;
          case 1: ++*wa.MutableScopedAccessor(); break;
          case 2: wa.MutableUse([](uint64_t& x) { ++x; }); break;
          case 3: wa.PotentiallyMutableUse([](uint64_t& x) { ++x; return true; }); break;
          case 4: wa.SetValueIf([my](const uint64_t& x) { return x == my; }, my + 1); break;
        }
        if (q.chance(10)) Spin(q);
      }
    });
  }
  for (auto& t : th) t.join();
  W().Disarm();
  VH_CHECK(wa.GetValue() == rounds * n, "watomic.update_lost", log);
  vh::Count("wakeups_in_rings", rounds * n);
  vh::Distinct(vh::hash_mix(vh::hash_mix(n, rounds), kind + 10 * INTRUSIVE));
  vh::Eval();
}
// The intrusive one is destroyed under clients that wait on it and use it.
static void WatomicDestroyCase(vh::Rng& r, int c) {
  const std::string log = "watomic_destroy:" + std::to_string(c);
  vh::CaseDurable(log);
  W().Arm("watomic_destroy", 60);
  using WA = current::WaitableAtomic<Val, true>;
  struct Destr : current::CustomWaitableAtomicDestructor {
    std::atomic<int> called{0};
    void WaitableAtomicDestructing() override { ++called; }
  } destr;
  const bool use_destr = r.chance(50);
  auto wa = use_destr ? std::make_unique<WA>(&destr) : std::make_unique<WA>();
  const int n = 1 + r.below(4);
  std::atomic<int> live{0}, refused{0}, told{0};
  std::mutex late_mutex;
  std::vector<std::unique_ptr<current::IntrusiveClient>> late;
  std::vector<std::thread> th;
  std::vector<uint64_t> hist(n, 0);
  for (int t = 0; t < n; ++t) {
    const uint64_t seed = r.next();
    ++live;
    auto scope = std::make_shared<current::IntrusiveClient>(wa->RegisterScopedClient());
    if (!*scope) vh::Violation("watomic.client_refused", log);
    WA* p = wa.get();
    th.emplace_back([&, p, scope, seed, t]() mutable {
      vh::Rng q(seed);
      current::IntrusiveClient mine(std::move(*scope));
      scope = nullptr;
      uint64_t k = 0;
      const int style = q.below(3);
      while (mine) {
        ++k;
        if (style == 0) p->MutableUse([t](Val& v) { v.Step(t); });
        else if (style == 1) {
          const uint64_t want = p->ImmutableUse([](const Val& v) { return v.version; }) + 1 + q.below(3);
          if (!p->Wait([want](const Val& v) { return v.version >= want; })) { ++told; if (mine) vh::Violation("watomic.wait_false_while_alive", log); break; }
          if (p->ImmutableUse([](const Val& v) { return v.version; }) < want) vh::Violation("watomic.wait_true_for_nothing", log);
        } else {
          // Nested clients of the same object.
          current::IntrusiveClient another = p->RegisterScopedClient();
          if (!another) { ++refused; }
          current::IntrusiveClient moved(std::move(another));
          p->GetValue();
        }
        if (q.chance(10)) Spin(q);
      }
      hist[t] = style * 100 + std::min<uint64_t>(k, 20);
      // It is going away: no waiting, and no new clients.
      if (p->Wait([](const Val&) { return true; }) || p->Wait([](const Val&) { return false; })) vh::Violation("watomic.wait_true_when_going_away", log);
      {
        auto another = std::make_unique<current::IntrusiveClient>(p->RegisterScopedClient());
        if (*another) vh::Violation("watomic.client_accepted_when_going_away", log);
        // The one refused does not hold the object: the destructor would be waiting for it forever.
        std::lock_guard<std::mutex> l(late_mutex);
        late.push_back(std::move(another));
      }
      // As of now, the object should still be there.
      if (!p->ImmutableUse([](const Val& v) { return v.Ok(); })) vh::Violation("watomic.torn", log);
      --live;
    });
  }
  Spin(r);
  if (r.chance(50)) ::usleep(r.below(2000));
  wa = nullptr;
  if (live != 0) vh::Violation("watomic.destroyed_under_clients", log + ": " + std::to_string(live.load()) + " clients");
  for (auto& t : th) t.join();
  VH_CHECK(destr.called == (use_destr ? 1 : 0), "watomic.custom_destructor", log);
  W().Disarm();
  uint64_t h = n;
  for (auto x : hist) h = vh::hash_mix(h, x);
  vh::Distinct(h);
  vh::Count("destroyed_under_clients");
  vh::Count("waits_told_to_stop", told);
  vh::Eval();
}
#endif

#if PARTS & 12
using current::ss::EntryResponse;
struct Msg {
  std::string body;  // "<publisher>:<seq>:<padding>"
  Msg() = default;
  Msg(std::string s) : body(std::move(s)) {}
  Msg(const Msg&) = default;
  Msg(Msg&&) = default;
  Msg& operator=(const Msg&) = default;
  Msg& operator=(Msg&&) = default;
};
struct Delivery { int p; uint64_t seq; uint64_t index; int64_t us; uint64_t last_index; int64_t last_us; int64_t t0, t1; std::string pad; };
struct ConsumerImpl {
  std::vector<Delivery> got;  // Touched by the consumer thread only, until joined.
  std::atomic<uint64_t> n{0};
  std::atomic<bool> gate{true};
  std::atomic<bool> inside{false};
  uint64_t seed = 1;
  int slow = 0;
  EntryResponse operator()(const Msg& m, idxts_t i, idxts_t last) { return Do(m.body, i, last); }
  EntryResponse Do(const std::string& s, idxts_t i, idxts_t last) {
    Delivery d;
    d.t0 = NowUs();
    if (inside.exchange(true)) vh::Violation("mmq.concurrent_callbacks", "");
    while (!gate) ::usleep(20);
    int p = -1; unsigned long long q = 0; int off = 0;
    if (sscanf(s.c_str(), "%d:%llu:%n", &p, &q, &off) < 2) vh::Violation("mmq.corrupted", s.substr(0, 100));
    d.p = p; d.seq = q; d.pad = off ? s.substr(off) : "";
    d.index = i.index; d.us = i.us.count(); d.last_index = last.index; d.last_us = last.us.count();
    if (slow) {
      seed = seed * 6364136223846793005ull + 1442695040888963407ull;
      const int k = (seed >> 40) % 100;
      if (k < slow) ::usleep((seed >> 33) % 200);
    }
    d.t1 = NowUs();
    got.push_back(d);
    inside = false;
    ++n;
    return EntryResponse::More;
  }
};
using Consumer = current::ss::EntrySubscriber<ConsumerImpl, Msg>;
static std::string Pad(int p, uint64_t q) { return std::string((p * 7 + q * 3) % 40, 'a' + (p + q) % 26); }
static std::string Body(int p, uint64_t q) { return std::to_string(p) + ":" + std::to_string(q) + ":" + Pad(p, q); }
#endif

#if PARTS & 4
// ------------------------------------------------------------------------------------------------ C19
template <size_t SIZE, bool DROP>
static void MmqCase(vh::Rng& r, int c) {
  const std::string log = std::string("mmq:") + std::to_string(SIZE) + (DROP ? ":drop:" : ":wait:") + std::to_string(c);
  vh::CaseDurable(log);
  W().Arm("mmq", 90);
  struct Sent { uint64_t seq, index; int64_t us; int64_t t0, t1; bool threw; };
  const int n = 1 + r.below(4);
  const int per = 10 + r.below(60);
  std::vector<std::vector<Sent>> sent(n);
  Consumer cons;
  cons.seed = r.next();
  cons.slow = r.chance(50) ? 5 + r.below(40) : 0;
  const bool wait_before_destruction = r.chance(40);
  const int ts_mode = r.below(3);  // 0: none given; 1: some from the (shared, racing) clock, may be refused; 2: mixed with stale ones.
  std::atomic<uint64_t> accepted{0};
  {
    const size_t size = r.chance(50) ? SIZE : 1 + r.below(SIZE);
    current::mmq::MMQ<Msg, Consumer, SIZE, DROP> q(cons, size);
    std::vector<std::thread> th;
    for (int t = 0; t < n; ++t) {
      const uint64_t seed = r.next();
      th.emplace_back([&, t, seed] {
        vh::Rng rr(seed);
        for (int i = 0; i < per; ++i) {
          Sent s{static_cast<uint64_t>(i), 0, 0, NowUs(), 0, false};
          try {
            idxts_t x;
            Msg m(Body(t, i));
            const int kind = ts_mode == 0 ? 0 : static_cast<int>(rr.below(ts_mode == 1 ? 2 : 3));
            if (kind == 0) {
              if (rr.chance(50)) x = q.Publish(m); else x = q.Publish(std::move(m));
            } else {
              const auto us = kind == 1 ? current::time::Now() : std::chrono::microseconds(1 + rr.below(1000));
              s.us = us.count();
              if (rr.chance(50)) x = q.Publish(m, us); else x = q.Publish(std::move(m), us);
              if (x.index && x.us != us) vh::Violation("mmq.returned_timestamp", log + ": published at " + std::to_string(us.count()) + ", returned " + std::to_string(x.us.count()));
            }
            s.index = x.index;
            s.us = x.us.count();
            if (x.index) ++accepted;
          } catch (const current::ss::InconsistentTimestampException&) {
            s.threw = true;
            if (ts_mode == 0) vh::Violation("mmq.refused_without_timestamp", log);
          }
          s.t1 = NowUs();
          sent[t].push_back(s);
          Spin(rr);
        }
      });
    }
    for (auto& t : th) t.join();
    if (wait_before_destruction) while (cons.n < accepted) ::usleep(50);
  }
  W().Disarm();
  // Offline: the log of deliveries against the log of calls.
  std::map<std::pair<int, uint64_t>, const Sent*> by;
  uint64_t acc = 0, dropped = 0, threw = 0;
  for (int t = 0; t < n; ++t) for (auto& s : sent[t]) {
    if (s.threw) ++threw;
    else if (s.index) { ++acc; by[{t, s.seq}] = &s; }
    else ++dropped;
  }
  if (!DROP) VH_CHECK(dropped == 0, "mmq.dropped_while_waiting_mode", log + ": " + std::to_string(dropped));
  VH_CHECK(cons.got.size() == acc, "mmq.lost_or_duplicated", log + ": accepted " + std::to_string(acc) + " delivered " + std::to_string(cons.got.size()) + (wait_before_destruction ? "" : ", the queue destroyed with messages in it"));
  std::vector<uint64_t> last(n, 0);
  uint64_t h = n;
  std::vector<bool> seen_first(n, false);
  for (size_t k = 0; k < cons.got.size() && !vh::TooMany(); ++k) {
    const auto& d = cons.got[k];
    h = vh::hash_mix(h, d.p);
    VH_CHECK(d.index == k + 1, "mmq.index", log + ": message #" + std::to_string(k) + " has index " + std::to_string(d.index));
    if (k) VH_CHECK(d.us > cons.got[k - 1].us, "mmq.timestamps_not_increasing", log + ": " + std::to_string(cons.got[k - 1].us) + " then " + std::to_string(d.us));
    VH_CHECK(d.last_index >= d.index && d.last_us >= d.us, "mmq.last", log);
    VH_CHECK(d.last_index <= acc, "mmq.last", log + " beyond");
    if (d.p < 0 || d.p >= n) { vh::Violation("mmq.corrupted", log); continue; }
    VH_CHECK(d.pad == Pad(d.p, d.seq), "mmq.corrupted", log + ": body");
    if (seen_first[d.p]) VH_CHECK(d.seq > last[d.p], "mmq.publisher_order", log);
    seen_first[d.p] = true;
    last[d.p] = d.seq;
    auto it = by.find({d.p, d.seq});
    if (it == by.end()) { vh::Violation("mmq.delivered_not_accepted", log + ": " + std::to_string(d.p) + ":" + std::to_string(d.seq)); continue; }
    VH_CHECK(it->second->index == d.index && it->second->us == d.us, "mmq.returned_index_timestamp",
             log + ": Publish returned {" + std::to_string(it->second->index) + "," + std::to_string(it->second->us) + "}, the consumer saw {" + std::to_string(d.index) + "," + std::to_string(d.us) + "}");
    by.erase(it);
  }
  // Real-time order: whatever was published before something else has begun to be published has the smaller index.
  std::vector<const Sent*> all;
  for (auto& v : sent) for (auto& s : v) if (s.index) all.push_back(&s);
  std::sort(all.begin(), all.end(), [](const Sent* a, const Sent* b) { return a->index < b->index; });
  int64_t min_end = INT64_MAX;
  for (size_t k = all.size(); k-- > 0;) {
    VH_CHECK(all[k]->t0 <= min_end, "mmq.real_time_order", log);
    min_end = std::min(min_end, all[k]->t1);
  }
  vh::Distinct(h);
  vh::Count("mmq_accepted", acc);
  vh::Count("mmq_dropped", dropped);
  vh::Count("mmq_refused_timestamps", threw);
  vh::Eval(cons.got.size());
}
// With the consumer held, exactly the buffer's capacity is accepted.
template <size_t SIZE>
static void MmqOverflowCase(vh::Rng& r, int c) {
  const std::string log = "mmq_overflow:" + std::to_string(SIZE) + ":" + std::to_string(c);
  vh::CaseDurable(log);
  W().Arm("mmq_overflow", 60);
  Consumer cons;
  uint64_t accepted = 0;
  {
    const size_t size = 1 + r.below(SIZE);
    current::mmq::MMQ<Msg, Consumer, SIZE, true> q(cons, size);
    uint64_t total = 0;
    for (int round = 0, rounds = 1 + r.below(4); round < rounds; ++round) {
      cons.gate = false;
      const uint64_t m = r.below(3 * size + 2);
      uint64_t ok = 0;
      for (uint64_t i = 0; i < m; ++i) {
        const auto x = q.Publish(Msg(Body(0, total++)));
        if (x.index) {
          ++ok; ++accepted;
          VH_CHECK(x.index == accepted, "mmq.index_after_drop", log);
        }
      }
      // The one being exported still occupies its slot.
      VH_CHECK(ok == std::min<uint64_t>(m, size), "mmq.capacity", log + ": " + std::to_string(ok) + " accepted of " + std::to_string(m) + ", capacity " + std::to_string(size));
      cons.gate = true;
      while (cons.n < accepted) ::usleep(20);
      // The slot becomes free a bit after the callback returns: wait for it via another thread's eyes, i.e. just retry.
      ::usleep(3000);
    }
    vh::Distinct(vh::hash_mix(size, total));
  }
  W().Disarm();
  VH_CHECK(cons.got.size() == accepted, "mmq.lost_or_duplicated", log);
  vh::Eval();
  vh::Count("overflow_rounds");
}
#endif

#if PARTS & 8
// ------------------------------------------------------------------------------------------------ C20
static void MmpqModelCase(vh::Rng& r, int c) {
  const std::string log = "mmpq_model:" + std::to_string(c);
  vh::CaseDurable(log);
  W().Arm("mmpq", 60);
  Consumer cons;
  std::vector<std::pair<int64_t, uint64_t>> pending;  // (us, index)
  std::vector<std::pair<int64_t, uint64_t>> expected;
  std::map<uint64_t, uint64_t> seq_of;
  uint64_t total = 0;
  uint64_t h = 0;
  {
    current::mmq::MMPQ<Msg, Consumer> q(cons);
    int64_t head = -1;
    const int span = 1 + r.below(30);
    int64_t base = 1 + r.below(1000);
    for (int round = 0, rounds = 1 + r.below(6); round < rounds; ++round) {
      // Strictly after the head so far, so that nothing becomes eligible before `UpdateHead`.
      const int m = r.below(15);
      for (int i = 0; i < m; ++i) {
        const int64_t us = std::max(head + 1, base) + static_cast<int64_t>(r.below(span));
        Msg msg(Body(0, total));
        const auto x = q.Publish(std::move(msg), std::chrono::microseconds(us));
        VH_CHECK(x.index == total + 1, "mmpq.index", log);
        pending.emplace_back(us, x.index);
        seq_of[x.index] = total;
        ++total;
        h = vh::hash_mix(h, us - base);
      }
      const int64_t nh = std::max(head + 1, base + static_cast<int64_t>(r.below(span)));
      // Nothing is delivered ahead of the head.
      VH_CHECK(cons.n == expected.size(), "mmpq.delivered_ahead_of_head", log);
      if (r.chance(20) && head >= 0) {
        bool threw = false;
        try { q.UpdateHead(std::chrono::microseconds(head - static_cast<int64_t>(r.below(3)))); } catch (const current::ss::InconsistentTimestampException&) { threw = true; }
        VH_CHECK(threw, "mmpq.head_went_back", log);
      }
      q.UpdateHead(std::chrono::microseconds(nh));
      head = nh;
      std::sort(pending.begin(), pending.end());
      size_t k = 0;
      while (k < pending.size() && pending[k].first <= head) expected.push_back(pending[k++]);
      pending.erase(pending.begin(), pending.begin() + k);
      if (r.chance(60) || round + 1 < rounds) {
        const int64_t t0 = NowUs();
        while (cons.n < expected.size() && NowUs() - t0 < 10000000) ::usleep(30);
        VH_CHECK(cons.n == expected.size(), "mmpq.not_delivered", log + ": " + std::to_string(cons.n.load()) + " of " + std::to_string(expected.size()) + " at or before the head");
        if (vh::TooMany() || cons.n != expected.size()) break;
      }
      base += r.below(span);
    }
  }
  W().Disarm();
  VH_CHECK(cons.got.size() == expected.size(), "mmpq.lost_or_duplicated", log + ": " + std::to_string(cons.got.size()) + " vs " + std::to_string(expected.size()));
  for (size_t k = 0; k < std::min(cons.got.size(), expected.size()); ++k) {
    const auto& d = cons.got[k];
    VH_CHECK(d.us == expected[k].first && d.index == expected[k].second, "mmpq.order",
             log + ": #" + std::to_string(k) + " is {" + std::to_string(d.us) + "," + std::to_string(d.index) + "}, expected {" + std::to_string(expected[k].first) + "," + std::to_string(expected[k].second) + "}");
    VH_CHECK(d.seq == seq_of[d.index] && d.pad == Pad(0, d.seq), "mmpq.corrupted", log);
    VH_CHECK(d.us <= d.last_us, "mmpq.delivered_ahead_of_head", log);
  }
  vh::Distinct(h);
  vh::Count("mmpq_messages", total);
  vh::Eval(total);
}
static void MmpqRaceCase(vh::Rng& r, int c) {
  const std::string log = "mmpq_race:" + std::to_string(c);
  vh::CaseDurable(log);
  W().Arm("mmpq_race", 60);
  Consumer cons;
  cons.seed = r.next();
  cons.slow = r.chance(50) ? 20 : 0;
  struct Sent { uint64_t index; int64_t us, end; };
  const int n = 1 + r.below(4), per = 5 + r.below(40);
  std::vector<std::vector<Sent>> sent(n);
  const bool wait = r.chance(50);
  int64_t final_head = 0;
  {
    current::mmq::MMPQ<Msg, Consumer> q(cons);
    std::atomic<int64_t> clock{1};
    std::vector<std::thread> th;
    for (int t = 0; t < n; ++t) {
      const uint64_t seed = r.next();
      th.emplace_back([&, t, seed] {
        vh::Rng rr(seed);
        for (int i = 0; i < per; ++i) {
          const int64_t us = clock + rr.range(-20, 40) + 30;
          const auto x = q.Publish(Msg(Body(t, i)), std::chrono::microseconds(us));
          sent[t].push_back({x.index, us, NowUs()});
          if (rr.chance(40)) clock += rr.below(5);
          if (rr.chance(30)) { try { q.UpdateHead(std::chrono::microseconds(clock.load())); } catch (const current::ss::InconsistentTimestampException&) {} }
          Spin(rr);
        }
      });
    }
    for (auto& t : th) t.join();
    final_head = clock + 10000;
    q.UpdateHead(std::chrono::microseconds(final_head));
    if (wait) { const int64_t t0 = NowUs(); while (cons.n < static_cast<uint64_t>(n * per) && NowUs() - t0 < 10000000) ::usleep(50); }
  }
  W().Disarm();
  const uint64_t total = n * per;
  VH_CHECK(cons.got.size() == total, "mmpq.lost_or_duplicated", log + ": " + std::to_string(cons.got.size()) + " of " + std::to_string(total) + (wait ? "" : ", destroyed with messages at or before the head in it"));
  std::set<uint64_t> indexes;
  for (auto& v : sent) for (auto& s : v) indexes.insert(s.index);
  VH_CHECK(indexes.size() == total && *indexes.begin() == 1 && *indexes.rbegin() == total, "mmpq.index", log);
  std::set<std::pair<int, uint64_t>> seen;
  uint64_t h = n;
  for (size_t k = 0; k < cons.got.size() && !vh::TooMany(); ++k) {
    const auto& d = cons.got[k];
    h = vh::hash_mix(h, d.p);
    if (d.p < 0 || d.p >= n || d.seq >= static_cast<uint64_t>(per)) { vh::Violation("mmpq.corrupted", log); continue; }
    VH_CHECK(seen.insert({d.p, d.seq}).second, "mmpq.lost_or_duplicated", log + ": delivered twice");
    const auto& s = sent[d.p][d.seq];
    VH_CHECK(s.index == d.index && s.us == d.us && d.pad == Pad(d.p, d.seq), "mmpq.corrupted", log + ": index, timestamp or body");
    VH_CHECK(d.us <= d.last_us, "mmpq.delivered_ahead_of_head", log);
    // `b`, delivered later, should have preceded `a` if it was there when `a` was picked, which was after the previous callback ended.
    if (k >= 1) {
      const int64_t picked_after = cons.got[k - 1].t1;
      for (size_t j = k + 1; j < cons.got.size(); ++j) {
        const auto& b = cons.got[j];
        if (b.p < 0 || b.p >= n || b.seq >= static_cast<uint64_t>(per)) continue;
        if (std::make_pair(b.us, b.index) < std::make_pair(d.us, d.index) && sent[b.p][b.seq].end < picked_after) {
          vh::Violation("mmpq.order", log + ": {" + std::to_string(d.us) + "," + std::to_string(d.index) + "} delivered ahead of {" + std::to_string(b.us) + "," + std::to_string(b.index) + "}, which was published before");
          break;
        }
      }
    }
  }
  vh::Distinct(h);
  vh::Count("mmpq_messages", total);
  vh::Eval(total);
}
#endif

int main(int argc, char** argv) {
  return vh::Main(argc, argv, [] {
    vh::Rng root(vh::opt().seed * 1000003 + vh::opt().shard * 7919 + 17);
    signal(SIGPIPE, SIG_IGN);
    const std::string mode = vh::opt().mode;
    for (uint64_t c = 0; c < vh::opt().cases && !vh::TooMany(); ++c) {
      vh::Rng r = root.fork();
      vh::perturb_level() = static_cast<int>(r.below(4)) * 3;
#if PARTS & 1
      if (mode == "owned") {
        vh::Case("owned_model:" + std::to_string(c));
        OwnedModelCase(r, c);
        if (c % 4 == 0) OwnedRaceCase(r, c);
      }
      if (mode == "guaranteed") GuaranteedCase(r, c);
#endif
#if PARTS & 2
      if (mode == "watomic") {
        if (c % 3 == 0) WatomicCase<false>(r, c);
        if (c % 3 == 1) WatomicCase<true>(r, c);
        if (c % 3 == 2) WatomicDestroyCase(r, c);
        if (c % 6 == 0) WatomicRingCase<false>(r, c);
        if (c % 6 == 3) WatomicRingCase<true>(r, c);
      }
#endif
#if PARTS & 4
      if (mode == "mmq") {
        switch (c % 6) {
          case 0: MmqCase<8, false>(r, c); break;
          case 1: MmqCase<8, true>(r, c); break;
          case 2: MmqCase<2, false>(r, c); break;
          case 3: MmqCase<64, true>(r, c); break;
          case 4: MmqCase<4, false>(r, c); break;
          case 5: MmqOverflowCase<9>(r, c); break;
        }
      }
#endif
#if PARTS & 8
      if (mode == "mmpq") {
        if (c % 2) MmpqModelCase(r, c); else MmpqRaceCase(r, c);
      }
#endif
    }
  });
}
