// C37 (PARTS=1): deferred actions, lazy instantiation, singletons, random. C35 (PARTS=2): Optional and Variant as values.
#include "vh.h"
#if PARTS == 1
#include "bricks/util/accumulative_scoped_deleter.h"
#include "bricks/util/lazy_instantiation.h"
#include "bricks/util/make_scope_guard.h"
#include "bricks/util/null_deleter.h"
#include "bricks/util/singleton.h"
#include "bricks/util/random.h"
#include "bricks/util/future.h"
#include "bricks/util/comparators.h"
#include "bricks/util/iterator.h"
#include "bricks/util/rol.h"
#include "bricks/util/waitable_terminate_signal.h"
#else
#include "typesystem/struct.h"
#include "typesystem/optional.h"
#include "typesystem/optional_result.h"
#include "typesystem/variant.h"
#endif
#include <list>
#include <optional>

#if PARTS == 1
using namespace current;
struct D1 {};
// A pool of scopes; the model is the list of actions each of them holds.
static void ScopesCase(vh::Rng& r) {
  typedef AccumulativeScopedDeleter<D1> S;
  typedef AccumulativeScopedDeleter<D1, false> N;
  std::vector<int> ran;
  std::string h;
  int next = 0;
  auto act = [&ran](int i) { return [&ran, i] { ran.push_back(i); }; };
  {
    std::vector<std::unique_ptr<S>> s(4);
    std::vector<std::vector<int>> m(4);
    for (auto& x : s) x = std::make_unique<S>();
    std::vector<int> want;
    auto release = [&](size_t i) {
      for (auto it = m[i].rbegin(); it != m[i].rend(); ++it) want.push_back(*it);
      m[i].clear();
    };
    for (int step = 0; step < 25; ++step) {
      const size_t i = r.below(4), j = r.below(4);
      h += std::to_string(i) + std::to_string(j);
      switch (r.below(8)) {
        case 0:
          h += "=new ";
          release(i);
          s[i] = std::make_unique<S>(act(next));
          m[i] = {next++};
          break;
        case 1:
          h += "+=new ";
          *s[i] += S(act(next));
          m[i].push_back(next++);
          break;
        case 2:
          if (i == j) break;
          h += "+=move ";
          *s[i] += std::move(*s[j]);
          m[i].insert(m[i].end(), m[j].begin(), m[j].end());
          m[j].clear();
          break;
        case 3:
          if (i == j) break;
          h += "=move ";
          *s[i] = std::move(*s[j]);
          release(i);
          m[i].swap(m[j]);
          break;
        case 4:
          h += "=null ";
          *s[i] = nullptr;
          release(i);
          break;
        case 5: {
          if (i == j) break;
          h += "sum ";
          {
            auto t = std::move(*s[i]) + std::move(*s[j]) + S(act(next));
            m[i].insert(m[i].end(), m[j].begin(), m[j].end());
            m[i].push_back(next++);
            m[j].clear();
            if (r.chance(50)) {
              *s[j] = std::move(t);
              m[j].swap(m[i]);
            } else {
              release(i);
            }
          }
          break;
        }
        case 6: {
          h += "nodelete ";
          // The temporary which does not delete on its own hands its actions over to the one which does.
          N n(act(next));
          if (r.chance(50)) {
            *s[i] += std::move(n);
            m[i].push_back(next++);
          } else {
            ++next;  // Is forgotten.
          }
          break;
        }
        case 7: {
          h += "ctor ";
          S t(std::move(*s[i]));
          VH_CHECK(ran == want, "scopes:early", h);
          if (r.chance(50)) *s[i] = std::move(t);
          else {
            release(i);
          }
          break;
        }
      }
      VH_CHECK(ran == want, "scopes:actions", h);
      vh::Eval();
    }
    for (size_t i = 0; i < 4; ++i) {
      s[i] = nullptr;
      release(i);
      VH_CHECK(ran == want, "scopes:end", h);
    }
  }
  // Scope guards.
  int count = 0, deleted = 0;
  {
    auto g = MakeScopeGuard([&] { ++count; });
    {
      auto g2 = std::move(g);
      VH_CHECK(count == 0, "guard:early", "");
    }
    VH_CHECK(count == 1, "guard:moved", std::to_string(count));
  }
  VH_CHECK(count == 1, "guard:once", std::to_string(count));
  try {
    ScopeGuard<std::function<void()>> g([&] { ++count; });
    if (r.chance(50)) throw 1;
  } catch (int) {
  }
  VH_CHECK(count == 2, "guard:exception", std::to_string(count));
  {
    int x = 5;
    auto p = MakePointerScopeGuard(&x, [&](int* q) { deleted += *q; });
    VH_CHECK(*p == 5 && deleted == 0, "guard:pointer", "");
  }
  VH_CHECK(deleted == 5, "guard:pointer", "");
  vh::Eval(5);
  vh::Distinct(vh::hash_str(h));
}

struct Counted {
  static std::atomic<int>& made() { static std::atomic<int> x{0}; return x; }
  static std::atomic<int>& alive() { static std::atomic<int> x{0}; return x; }
  int a, *ref;
  std::string s;
  Counted() : a(0), ref(nullptr) { ++made(), ++alive(); std::this_thread::yield(); }
  Counted(int a, std::string s, int& ref) : a(a), ref(&ref), s(s) { ++made(), ++alive(); }
  Counted(const std::string& extra, int a) : a(a), ref(nullptr), s(extra) { ++made(), ++alive(); }
  ~Counted() { --alive(); }
};
static void LazyCase(vh::Rng& r) {
  const int made = Counted::made(), alive = Counted::alive();
  int target = r.below(100), a = r.below(1000);
  std::string s(r.below(40), 'x');
  {
    const bool tuple = r.chance(50);
    auto lazy = tuple ? DelayedInstantiateFromTuple<Counted>(std::make_tuple(a, s, std::ref(target))) : DelayedInstantiate<Counted>(a, s, std::ref(target));
    const int a0 = a;
    const std::string s0 = s;
    a = -1, s = "changed";
    VH_CHECK(Counted::made() == made, "lazy:early", "");
    auto ok = [&](const Counted& c) { return c.a == a0 && c.s == s0 && c.ref == &target; };
    auto moved = std::move(lazy);
    auto p = moved.InstantiateAsSharedPtr();
    auto u = moved.InstantiateAsUniquePtr();
    VH_CHECK(Counted::made() == made + 2 && ok(*p) && ok(*u), "lazy:instances", "");
    std::shared_ptr<Counted> shared;
    auto& x = moved.InstantiateAsSharedPtr(shared, LazyInstantiationStrategy::ShouldNotBeInitialized);
    auto& y = moved.InstantiateAsSharedPtr(shared);
    auto& z = moved.InstantiateAsSharedPtr(shared, LazyInstantiationStrategy::ShouldAlreadyBeInitialized);
    VH_CHECK(&x == &y && &y == &z && &x == shared.get() && Counted::made() == made + 3 && ok(x), "lazy:shared", "");
    auto extra = DelayedInstantiateWithExtraParameter<Counted, std::string>(a0);
    auto e = extra.InstantiateAsSharedPtrWithExtraParameter(std::string("ex"));
    auto f = extra.InstantiateAsUniquePtrWithExtraParameter(std::string("tra"));
    VH_CHECK(e->s == "ex" && f->s == "tra" && e->a == a0 && f->a == a0, "lazy:extra", "");
  }
  VH_CHECK(Counted::alive() == alive && Counted::made() == made + 5, "lazy:destroyed", "");
  vh::Eval(6);
}

template <int N>
struct Single {
  static std::atomic<int>& made() { static std::atomic<int> x{0}; return x; }
  int v;
  Single() : v(0) {
    ++made();
    std::this_thread::yield();
    v = 7;
  }
};
template <int N>
static void SingletonRace() {
  std::vector<std::thread> t;
  std::atomic<int> go{0};
  std::vector<Single<N>*> ptr(4);
  for (int i = 0; i < 4; ++i)
    t.emplace_back([&, i] {
      ++go;
      while (go < 4) std::this_thread::yield();
      auto& s = Singleton<Single<N>>();
      VH_CHECK(s.v == 7, "singleton:incomplete", "");
      ptr[i] = &s;
      // One per thread for the thread-local one, the same within the thread.
      auto& a = ThreadLocalSingleton<std::vector<int>>();
      VH_CHECK(a.empty(), "singleton:thread_local", "");
      a.push_back(i);
      VH_CHECK(ThreadLocalSingleton<std::vector<int>>() == std::vector<int>(1, i), "singleton:thread_local", "");
    });
  for (auto& x : t) x.join();
  VH_CHECK(Single<N>::made() == 1 && ptr[0] == ptr[1] && ptr[1] == ptr[2] && ptr[2] == ptr[3], "singleton:one", std::to_string(Single<N>::made()));
  vh::Eval(4);
}

static void RandomCase(vh::Rng& r) {
  // Within bounds, incl. the extremes, and reproducible given the seed.
  const int64_t a = static_cast<int64_t>(r.next()) >> r.below(64), b = r.chance(20) ? a : static_cast<int64_t>(r.next()) >> r.below(64);
  const int64_t lo = std::min(a, b), hi = std::max(a, b);
  std::set<int64_t> seen;
  for (int i = 0; i < 40; ++i) {
    const int64_t v = current::random::RandomInt64(lo, hi);
    VH_CHECK(v >= lo && v <= hi, "random:bounds", "");
    const int64_t c = current::random::CSRandomInt64(lo, hi);
    VH_CHECK(c >= lo && c <= hi, "random:cs_bounds", "");
    const int w = current::random::RandomInt(-2, 2);
    VH_CHECK(w >= -2 && w <= 2, "random:int", "");
    seen.insert(w);
    const double d = current::random::RandomDouble(-1.5, 2.5);
    VH_CHECK(d >= -1.5 && d <= 2.5, "random:double", "");
    const double D = ldexp(1.0, static_cast<int>(r.below(60))), e1 = current::random::RandomDouble(-D, D), e2 = current::random::RandomDouble(-D, D);
    VH_CHECK(e1 >= -D && e1 <= D && e1 != e2, "random:double", "wide");
    VH_CHECK(current::random::RandomUInt64(5, 6) - 5 <= 1 && current::random::RandomIntegral<uint16_t>(65534, 65535) >= 65534, "random:unsigned", "");
  }
  // Each of five values fails to appear in forty draws once in 7500 cases at most; all but two never do.
  VH_CHECK(seen.size() >= 3, "random:spread", "");
  const uint64_t seed = r.next();
  std::vector<int64_t> x[2];
  for (auto& v : x) {
    std::thread([&] {
      current::random::SetRandomSeed(seed);
      for (int i = 0; i < 10; ++i) v.push_back(current::random::RandomInt64(0, 1000000000000));
    }).join();
  }
  VH_CHECK(x[0] == x[1], "random:seed", "");
  std::vector<int64_t> y[2];
  std::thread t0([&] { for (int i = 0; i < 10; ++i) y[0].push_back(current::random::RandomInt64(0, 1000000000000)); });
  std::thread t1([&] { for (int i = 0; i < 10; ++i) y[1].push_back(current::random::RandomInt64(0, 1000000000000)); });
  t0.join();
  t1.join();
  VH_CHECK(y[0] != y[1], "random:threads", "two threads got the same sequence");
  vh::Eval(6 * 40 + 3);
}

static void MapViewCase(vh::Rng& r) {
  // A read-only view of a map of owned objects.
  std::map<int, std::unique_ptr<std::string>> map;
  std::map<int, std::string> model;
  for (int n = r.below(10); n > 0; --n) {
    const int k = r.below(20);
    map[k] = std::make_unique<std::string>("v" + std::to_string(k));
    model[k] = "v" + std::to_string(k);
  }
  GenericMapAccessor<decltype(map)> view(map);
  std::string fwd, want, bwd, want_bwd;
  for (auto it = view.begin(); it != view.end(); ++it) fwd += std::to_string(it.key()) + *it + std::to_string(it->size());
  for (auto& p : model) want += std::to_string(p.first) + p.second + std::to_string(p.second.size());
  for (auto it = view.rbegin(); it != view.rend(); it++) bwd += std::to_string(it.key()) + *it;
  for (auto it = model.rbegin(); it != model.rend(); ++it) want_bwd += std::to_string(it->first) + it->second;
  VH_CHECK(fwd == want && bwd == want_bwd && view.Size() == model.size() && view.Empty() == model.empty(), "view:order", fwd + " / " + want);
  for (int k = -1; k < 21; ++k) {
    VH_CHECK(view.Has(k) == (model.count(k) > 0), "view:has", "");
    auto lb = view.LowerBound(k), ub = view.UpperBound(k);
    auto ml = model.lower_bound(k), mu = model.upper_bound(k);
    VH_CHECK((lb == view.end()) == (ml == model.end()) && (ml == model.end() || lb.key() == ml->first), "view:lower", "");
    VH_CHECK((ub == view.end()) == (mu == model.end()) && (mu == model.end() || ub.key() == mu->first), "view:upper", "");
    if (ml != model.begin() && ml != model.end()) {
      --lb, --ml;
      VH_CHECK(lb.key() == ml->first && *lb == ml->second, "view:decrement", "");
      auto was = lb++;
      VH_CHECK(was.key() == ml->first && lb.key() == (++ml)->first, "view:postfix", "");
    }
  }
  enum class E { A = -1, B = 1 };
  VH_CHECK(CurrentComparator<E>()(E::A, E::B) && !CurrentComparator<E>()(E::B, E::A) && !CurrentComparator<E>()(E::A, E::A), "comparator:enum", "");
  typedef std::pair<std::string, std::chrono::microseconds> P;
  const P p("a" + std::to_string(r.below(10)), std::chrono::microseconds(r.below(1000))), q = p;
  VH_CHECK(GenericHashFunction<P>()(p) == GenericHashFunction<P>()(q), "hash:pair", "");
  vh::Eval(60);
}

// A waiter is never left waiting once its condition holds and it has been told, or it has been told to terminate.
static void WaitCase(vh::Rng& r) {
  WaitableTerminateSignalBulkNotifier bulk;
  std::mutex m;
  int value = 0;
  const int T = 3, target = 1 + r.below(5);
  std::atomic<int> finished{0};
  std::vector<std::thread> threads;
  std::vector<WaitableTerminateSignal*> signals;
  std::list<WaitableTerminateSignal> storage;
  std::vector<int> terminate(T);
  std::vector<int> result(T, -1), seen(T, -1);
  for (int i = 0; i < T; ++i) {
    storage.emplace_back();
    signals.push_back(&storage.back());
    terminate[i] = r.chance(30);
  }
  for (int i = 0; i < T; ++i) {
    const int mine = terminate[i] ? 1000000 : 1 + i % target;
    threads.emplace_back([&, i, mine] {
      WaitableTerminateSignalBulkNotifier::Scope scope(bulk, *signals[i]);
      std::unique_lock<std::mutex> lock(m);
      result[i] = signals[i]->WaitUntil(lock, [&] { return value >= mine; });
      seen[i] = value;
      if (!lock.owns_lock()) vh::Violation("wait:lock", "the lock is not held upon return");
      lock.unlock();
      ++finished;
    });
  }
  for (int v = 0; v < target; ++v) {
    {
      std::lock_guard<std::mutex> lock(m);
      ++value;
    }
    bulk.NotifyAllOfExternalWaitableEvent();
    if (r.chance(50)) std::this_thread::yield();
  }
  for (int i = 0; i < T; ++i)
    if (terminate[i]) signals[i]->SignalExternalTermination();
  for (auto& t : threads) t.join();  // The runner's limit is for those which never return.
  for (int i = 0; i < T; ++i) {
    VH_CHECK(result[i] == terminate[i] && static_cast<bool>(*signals[i]) == terminate[i], "wait:result", "");
    if (!terminate[i]) VH_CHECK(seen[i] >= 1 + i % target, "wait:condition", "");
  }
  // Whoever waits after that is told of the termination, whether the condition holds or not.
  for (int i = 0; i < T; ++i) {
    const bool holds = r.chance(50);
    std::unique_lock<std::mutex> lock(m);
    if (terminate[i] || holds) VH_CHECK(signals[i]->WaitUntil(lock, [&] { return holds; }) == static_cast<bool>(terminate[i]), "wait:result", "late");
  }
  vh::Eval(T);
  vh::Distinct(vh::hash_mix(r.s, seen[0] * 100 + seen[1] * 10 + seen[2]));
}
#else
CURRENT_STRUCT(Base) {
  CURRENT_FIELD(b, int32_t, 0);
};
CURRENT_STRUCT(A) {
  CURRENT_FIELD(x, int32_t, 0);
  CURRENT_CONSTRUCTOR(A)(int x = 0) : x(x) {}
};
CURRENT_STRUCT(B) {
  CURRENT_FIELD(s, std::string);
  CURRENT_CONSTRUCTOR(B)(std::string s = "") : s(s) {}
};
CURRENT_STRUCT(C, Base) {
  CURRENT_FIELD(v, std::vector<int32_t>);
  CURRENT_CONSTRUCTOR(C)(int n = 0) { this->b = n, v.assign(n % 5, n); }
};
CURRENT_STRUCT(D) {
  CURRENT_FIELD(p, double, 0);
};
typedef Variant<A, B, C> V3;
typedef Variant<C, A, B, D> V4;
CURRENT_VARIANT(NV, A, C);

// The model of a variant: nothing, or the kind and the value.
struct M {
  int kind = 0;
  int n = 0;
  bool operator==(const M& o) const { return kind == o.kind && (!kind || n == o.n); }
};
struct Reader {
  M& m;
  int& calls;
  void operator()(const A& a) { m.kind = 1, m.n = a.x, ++calls; }
  void operator()(const B& b) { m.kind = 2, m.n = atoi(b.s.c_str()), ++calls; }
  void operator()(const C& c) {
    m.kind = 3, m.n = c.b, ++calls;
    if (c.v != std::vector<int32_t>(c.b % 5, c.b)) vh::Violation("variant:contents", "");
  }
  void operator()(const D& d) { m.kind = 4, m.n = static_cast<int>(d.p), ++calls; }
};
template <typename V>
static M Read(const V& v) {
  M m;
  int calls = 0;
  if (!Exists(v)) {
    bool threw = false;
    try {
      v.Call(Reader{m, calls});
    } catch (const current::UninitializedVariantException&) {
      threw = true;
    }
    VH_CHECK(threw && !calls && !v, "variant:uninitialized", "");
    return M();
  }
  Reader rd{m, calls};
  v.Call(rd);
  VH_CHECK(calls == 1 && static_cast<bool>(v), "variant:call", std::to_string(calls));
  // Exists<> and Value<> agree with Call().
  VH_CHECK(Exists<A>(v) == (m.kind == 1) && Exists<B>(v) == (m.kind == 2) && Exists<C>(v) == (m.kind == 3) && Exists<Base>(v) == (m.kind == 3), "variant:exists", std::to_string(m.kind));
  int thrown = 0;
  try {
    VH_CHECK(Value<A>(v).x == m.n, "variant:value", "");
  } catch (const current::NoValueOfTypeException<A>&) {
    ++thrown;
  }
  try {
    VH_CHECK(Value<B>(v).s == std::to_string(m.n), "variant:value", "");
  } catch (const current::NoValueException&) {
    ++thrown;
  }
  try {
    VH_CHECK(Value<C>(v).b == m.n && Value<Base>(v).b == m.n, "variant:value", "");
  } catch (const current::NoValueException&) {
    ++thrown;
  }
  VH_CHECK(thrown == (m.kind == 4 ? 3 : 2), "variant:no_value", std::to_string(m.kind));
  return m;
}
struct Increment {
  void operator()(A& a) { ++a.x; }
  void operator()(B& b) { b.s = std::to_string(atoi(b.s.c_str()) + 1); }
  void operator()(C& c) { ++c.b, c.v.assign(c.b % 5, c.b); }
  void operator()(D& d) { d.p += 1; }
};
static void VariantCase(vh::Rng& r) {
  const int K = 3;
  V3 a[K];
  V4 b[K];
  NV c[K];
  M ma[K], mb[K], mc[K];
  std::string h;
  for (int step = 0; step < 40; ++step) {
    const int i = r.below(K), j = r.below(K), n = r.below(1000), op = r.below(20);
    h += std::to_string(op) + ":" + std::to_string(i) + std::to_string(j) + " ";
    bool threw = false, want_throw = false;
    try {
      switch (op) {
        case 0: a[i] = A(n), ma[i] = {1, n}; break;
        case 1: a[i] = B(std::to_string(n)), ma[i] = {2, n}; break;
        case 2: { C x(n); if (r.chance(50)) a[i] = x; else a[i] = std::move(x); ma[i] = {3, n}; break; }
        case 3: { D d; d.p = n; b[i] = d, mb[i] = {4, n}; break; }
        case 4: b[i].Construct<C>(n), mb[i] = {3, n}; break;
        case 5: a[i] = a[j], ma[i] = ma[j]; break;
        case 6: if (i != j) a[i] = std::move(a[j]), ma[i] = ma[j], ma[j] = M(); break;
        case 7: b[i] = b[j], mb[i] = mb[j]; break;
        case 8: { V4 t(a[j]); b[i] = t; mb[i] = ma[j]; break; }                          // Wider, by copying.
        case 9: { V4 t(std::move(a[j])); b[i] = std::move(t); mb[i] = ma[j], ma[j] = M(); break; }
        case 10: {  // Narrower: throws, and changes nothing, if it does not fit.
          want_throw = mb[j].kind == 4;
          V3 t(b[j]);
          a[i] = t, ma[i] = mb[j];
          break;
        }
        case 11: {
          want_throw = mb[j].kind == 4;
          V3 t(std::move(b[j]));
          a[i] = std::move(t), ma[i] = mb[j], mb[j] = M();
          break;
        }
        case 12: {
          want_throw = ma[j].kind == 2;
          NV t(a[j]);
          c[i] = t, mc[i] = ma[j];
          break;
        }
        case 13: a[i] = nullptr, ma[i] = M(); break;
        case 14: {
          want_throw = !ma[i].kind;
          if (ma[i].kind) ++ma[i].n;
          a[i].Call(Increment());
          break;
        }
        case 15: {
          want_throw = ma[i].kind != 1;
          Value<A>(a[i]).x = n;
          ma[i].n = n;
          break;
        }
        case 16:  // From its own contents.
          if (ma[i].kind == 3) { const C& x = Value<C>(a[i]); a[i] = x; }
          break;
        case 17: { V3 t(a[j]); std::swap(t, a[i]); std::swap(a[i], t); VH_CHECK(Read(t) == ma[j], "variant:copy", h); break; }
        case 18: { std::vector<V3> v(3, a[i]); v.insert(v.begin(), a[j]); a[i] = v.back(); break; }
        case 19: { NV t(c[j]); b[i] = V4(t); mb[i] = mc[j]; break; }
      }
    } catch (const current::NoValueException&) {
      threw = true;
    } catch (const current::IncompatibleVariantTypeException<D>&) {
      threw = true;
    } catch (const current::IncompatibleVariantTypeException<B>&) {
      threw = true;
    } catch (const current::UninitializedVariantException&) {
      threw = true;
    }
    VH_CHECK(threw == want_throw, "variant:throw", h);
    for (int k = 0; k < K; ++k) {
      VH_CHECK(Read(a[k]) == ma[k], "variant:value3", h + " slot " + std::to_string(k));
      VH_CHECK(Read(b[k]) == mb[k], "variant:value4", h + " slot " + std::to_string(k));
    }
    for (int k = 0; k < K; ++k) {
      M m;
      int calls = 0;
      if (Exists(c[k])) c[k].Call(Reader{m, calls});
      VH_CHECK(m == mc[k], "variant:named", h);
    }
    vh::Eval(3 * K);
  }
  vh::Distinct(vh::hash_str(h));
}

template <typename T>
static T Make(int n);
template <> int32_t Make<int32_t>(int n) { return n; }
template <> bool Make<bool>(int n) { return n & 1; }
template <> double Make<double>(int n) { return n * 0.5; }
template <> std::string Make<std::string>(int n) { return std::string(n % 40, 'a' + n % 26) + std::to_string(n); }
template <> A Make<A>(int n) { return A(n); }
template <typename T> static bool Eq(const T& a, const T& b) {
  if constexpr (std::is_same_v<T, A>) return a.x == b.x;
  else return a == b;
}

template <typename T>
static void OptionalCase(vh::Rng& r, const char* name) {
  const int K = 3;
  Optional<T> o[K];
  std::optional<T> m[K];
  std::list<T> external;
  bool bare[K] = {false, false, false};
  std::string h = name;
  for (int step = 0; step < 30; ++step) {
    const int i = r.below(K), j = r.below(K), n = r.below(1000);
    const T x = Make<T>(n);
    const int op = r.below(13);
    h += " " + std::to_string(op) + ":" + std::to_string(i) + std::to_string(j);
    bool threw = false, want_throw = false;
    try {
      switch (op) {
        case 0: o[i] = x, m[i] = x, bare[i] = false; break;
        case 1: { T y = x; o[i] = std::move(y), m[i] = x, bare[i] = false; break; }
        case 2: o[i] = nullptr, m[i].reset(), bare[i] = false; break;
        case 3: o[i] = o[j], m[i] = std::optional<T>(m[j]), bare[i] = i == j ? false : false; break;
        case 4: if (i != j) { o[i] = std::move(o[j]), m[i] = m[j], m[j].reset(), bare[i] = bare[j]; bare[j] = false; } break;
        case 5: { Optional<T> t(o[j]); o[i] = std::move(t), m[i] = std::optional<T>(m[j]), bare[i] = false; break; }
        case 6: { Optional<T> t(std::move(o[j])); const auto v = m[j]; m[j].reset(); const bool was = bare[j]; bare[j] = false; o[i] = std::move(t), m[i] = v, bare[i] = was; break; }
        case 7: {
          want_throw = !m[i];
          Value(o[i]) = x;
          m[i] = x;
          break;
        }
        case 8: {
          ImmutableOptional<T> im = r.chance(50) ? ImmutableOptional<T>(x) : ImmutableOptional<T>(nullptr);
          const bool e = Exists(im);
          VH_CHECK(!e || Eq<T>(Value(im), x), "optional:immutable", h);
          if (r.chance(50)) o[i] = im;
          else { Optional<T> t(im); Optional<T> t2(t); o[i] = t2; }
          if (e) m[i] = x; else m[i].reset();
          bare[i] = false;
          break;
        }
        case 9:
          if constexpr (!std::is_pod<T>::value) {
            external.push_back(x);
            if (r.chance(50)) o[i] = &external.back();
            else o[i] = Optional<T>(FromBarePointer(), &external.back());
            m[i] = x, bare[i] = true;
          }
          break;
        case 10:
          if constexpr (!std::is_pod<T>::value) o[i] = std::make_unique<T>(x), m[i] = x, bare[i] = false;
          break;
        case 11:
          if (m[i]) { const T& own = Value(o[i]); o[i] = own; bare[i] = false; }
          break;
        case 12: { std::vector<Optional<T>> v(2, o[i]); v.insert(v.begin(), o[j]); v.push_back(nullptr); o[i] = v[2]; VH_CHECK(Exists(v[0]) == bool(i == j ? m[i] : m[j]) && !Exists(v[3]), "optional:vector", h); bare[i] = false; break; }
      }
    } catch (const current::NoValueException&) {
      threw = true;
    }
    VH_CHECK(threw == want_throw, "optional:throw", h);
    for (int k = 0; k < K; ++k) {
      const auto& ok = o[k];
      VH_CHECK(Exists(ok) == bool(m[k]) && (!m[k] || !Exists(ok) || Eq<T>(Value(ok), *m[k])), "optional:value", h + " slot " + std::to_string(k));
      if (!m[k]) {
        bool t = false;
        try {
          Value(ok);
        } catch (const current::NoValueOfTypeException<T>&) {
          t = true;
        }
        VH_CHECK(t, "optional:no_value", h);
      }
    }
    if constexpr (!std::is_same_v<T, A>) {
      // Ordering, the missing value being the least.
      for (int k = 0; k < K; ++k) {
        const auto &p = o[k], &q = o[(k + 1) % K];
        const auto &mp = m[k], &mq = m[(k + 1) % K];
        VH_CHECK((p == q) == (mp == mq) && (p != q) == (mp != mq) && (p < q) == (mp < mq) && (p > q) == (mp > mq) && (p <= q) == (mp <= mq) && (p >= q) == (mp >= mq), "optional:compare", h);
        VH_CHECK((p == x) == (mp == x) && (p != x) == (mp != x) && (p < x) == (mp < x) && (p > x) == (mp > x) && (p <= x) == (mp <= x) && (p >= x) == (mp >= x), "optional:compare_value", h);
        VH_CHECK((x == p) == (x == mp) && (x != p) == (x != mp) && (x < p) == (x < mp) && (x > p) == (x > mp) && (x <= p) == (x <= mp) && (x >= p) == (x >= mp), "optional:value_compare", h);
        ImmutableOptional<T> ip = Exists(p) ? ImmutableOptional<T>(Value(p)) : ImmutableOptional<T>(nullptr), iq = Exists(q) ? ImmutableOptional<T>(Value(q)) : ImmutableOptional<T>(nullptr);
        VH_CHECK((ip == iq) == (mp == mq) && (ip != iq) == (mp != mq) && (ip < iq) == (mp < mq) && (ip > iq) == (mp > mq) && (ip <= iq) == (mp <= mq) && (ip >= iq) == (mp >= mq), "optional:immutable_compare", h);
        VH_CHECK((ip == x) == (mp == x) && (ip < x) == (mp < x) && (ip > x) == (mp > x) && (ip <= x) == (mp <= x) && (ip >= x) == (mp >= x) && (x < ip) == (x < mp) && (x > ip) == (x > mp) && (x <= ip) == (x <= mp) && (x >= ip) == (x >= mp) && (x != ip) == (x != mp), "optional:immutable_value", h);
      }
    }
    vh::Eval(6 * K);
  }
  // The external objects are never touched, other than by assigning through Value().
  vh::Distinct(vh::hash_str(h));
  current::OptionalResult<std::string> res{std::string("abc")}, none{current::OptionalResultMissing()};
  auto moved = std::move(res);
  VH_CHECK(Exists(moved) && !Exists(none), "optional:result", "");
  const std::string out = Value(std::move(moved));
  VH_CHECK(out == "abc", "optional:result", out);
}
#endif

int main(int argc, char** argv) {
  return vh::Main(argc, argv, [] {
    auto& o = vh::opt();
    vh::Rng seed(o.seed * 1000003 + o.shard * 7919 + vh::hash_str(o.mode));
#if PARTS == 1
    if (o.mode == "threads") {
      SingletonRace<0>();
      SingletonRace<1>();
      SingletonRace<2>();
      SingletonRace<3>();
      SingletonRace<4>();
      SingletonRace<5>();
      SingletonRace<6>();
      SingletonRace<7>();
    }
#endif
    for (uint64_t i = 0; i < o.cases && !vh::TooMany(); ++i) {
      vh::Rng r(seed.next());
      if (i % 64 == 0) vh::Case("case " + std::to_string(i));
#if PARTS == 1
      if (o.mode == "scopes") {
        ScopesCase(r);
        LazyCase(r);
        MapViewCase(r);
      }
      if (o.mode == "threads") {
        vh::perturb_level() = r.chance(50) ? 3 : 0;
        if (i % 8 == 0) RandomCase(r);
        WaitCase(r);
      }
#else
      if (o.mode == "variant") VariantCase(r);
      if (o.mode == "optional") {
        OptionalCase<int32_t>(r, "int32");
        OptionalCase<bool>(r, "bool");
        OptionalCase<double>(r, "double");
        OptionalCase<std::string>(r, "string");
        OptionalCase<A>(r, "struct");
      }
#endif
      vh::Count("cases");
    }
  });
}
