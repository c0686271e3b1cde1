// C27: recorded, differentiated and compiled functions against plain evaluation and dual numbers; optimizers.
#include "vh.h"

#include "fncas/fncas/fncas.h"

#include <algorithm>
#include <cmath>
#include <sys/resource.h>

using fncas::JIT;
using D = double;

// ---- Random programs: a DAG of instructions, evaluated over doubles, V-s, or dual numbers.
struct Ins {
  char kind;  // 'x', 'c', 'o', 'f', 'n' (unary minus), 'k' (op with a constant on some side), '=' (+= and such).
  int a, b, what;
  D c;
};
using Program = std::vector<Ins>;

static const D kConsts[] = {0.0, -0.0, 1.0, -1.0, 2.0, 0.5, 3.25, -7.0, 1e-3, 100.0, 0.1, 1e300, 5e-324};

static Program Generate(vh::Rng& r, size_t dim, size_t n, bool steps, bool tame) {
  Program p;
  for (size_t i = 0; i < dim; ++i) p.push_back({'x', static_cast<int>(i), 0, 0, 0});
  for (size_t i = 0; i < n; ++i) {
    const auto Pick = [&] { return static_cast<int>(r.chance(60) && p.size() > 6 ? p.size() - 1 - r.below(6) : r.below(p.size())); };
    const auto Const = [&] { return tame ? (0.25 + r.below(1000) / 250.0) * (r.chance(30) ? -1 : 1) : r.chance(70) ? kConsts[r.below(sizeof(kConsts) / sizeof(kConsts[0]))] : (r.unit() - 0.5) * 10; };
    const int k = r.below(100);
    const int op = r.below(4);
    if (k < 8) {
      p.push_back({'c', 0, 0, 0, Const()});
    } else if (k < 40) {
      p.push_back({'o', Pick(), Pick(), op, 0});
    } else if (k < 55) {
      p.push_back({'k', Pick(), r.chance(50), op, Const()});
    } else if (k < 62) {
      p.push_back({'=', Pick(), Pick(), op, 0});
    } else if (k < 66) {
      p.push_back({'n', Pick(), 0, 0, 0});
    } else {
      int f = r.below(12);
      if (!steps && f == 10) f = 11;
      p.push_back({'f', Pick(), 0, f, 0});
    }
  }
  return p;
}

template <typename T>
T Op(int op, const T& a, const T& b) {
  switch (op) {
    case 0:
      return a + b;
    case 1:
      return a - b;
    case 2:
      return a * b;
    default:
      return a / b;
  }
}
static D Fun(int f, D x) {
  switch (f) {
    case 0:
      return x * x;
    case 1:
      return std::sqrt(x);
    case 2:
      return std::exp(x);
    case 3:
      return std::log(x);
    case 4:
      return std::sin(x);
    case 5:
      return std::cos(x);
    case 6:
      return std::tan(x);
    case 7:
      return std::asin(x);
    case 8:
      return std::acos(x);
    case 9:
      return std::atan(x);
    case 10:
      return x >= 0 ? 1 : 0;
    default:
      return x > 0 ? x : 0;
  }
}
static fncas::term_t Fun(int f, const fncas::term_t& x) {
  switch (f) {
    case 0:
      return fncas::sqr(x);
    case 1:
      return fncas::sqrt(x);
    case 2:
      return fncas::exp(x);
    case 3:
      return fncas::log(x);
    case 4:
      return fncas::sin(x);
    case 5:
      return fncas::cos(x);
    case 6:
      return fncas::tan(x);
    case 7:
      return fncas::asin(x);
    case 8:
      return fncas::acos(x);
    case 9:
      return fncas::atan(x);
    case 10:
      return fncas::unit_step(x);
    default:
      return fncas::ramp(x);
  }
}
template <typename T>
T Run(const Program& p, const std::vector<T>& x) {
  std::vector<T> v;
  // Not `reserve`, as it is a wrapper for V.
  std::vector<T> out(p.size());
  for (size_t i = 0; i < p.size(); ++i) {
    const Ins& s = p[i];
    switch (s.kind) {
      case 'x':
        out[i] = x[s.a];
        break;
      case 'c':
        out[i] = T(s.c);
        break;
      case 'o':
        out[i] = Op<T>(s.what, out[s.a], out[s.b]);
        break;
      case 'k':
        out[i] = s.b ? Op<T>(s.what, out[s.a], T(s.c)) : Op<T>(s.what, T(s.c), out[s.a]);
        break;
      case '=': {
        T t = out[s.a];
        const T u = out[s.b];
        if (s.what == 0) t += u;
        if (s.what == 1) t -= u;
        if (s.what == 2) t *= u;
        if (s.what == 3) t /= u;
        out[i] = t;
      } break;
      case 'n':
        out[i] = -T(out[s.a]);
        break;
      default:
        out[i] = Fun(s.what, T(out[s.a]));
    }
  }
  return out[p.size() - 1];
}

// Forward mode, with the check that all is well conditioned.
struct Dual {
  D v;
  std::vector<D> d;
};
static bool DualRun(const Program& p, const std::vector<D>& x, Dual& result, D& scale) {
  std::vector<Dual> o(p.size());
  scale = 1;
  const size_t dim = x.size();
  for (size_t i = 0; i < p.size(); ++i) {
    const Ins& s = p[i];
    Dual& t = o[i];
    t.d.assign(dim, 0);
    const auto Do = [&](int op, const Dual& a, const Dual& b) {
      t.v = Op<D>(op, a.v, b.v);
      for (size_t k = 0; k < dim; ++k) {
        if (op == 0) t.d[k] = a.d[k] + b.d[k];
        if (op == 1) t.d[k] = a.d[k] - b.d[k];
        if (op == 2) t.d[k] = a.d[k] * b.v + a.v * b.d[k];
        if (op == 3) t.d[k] = a.d[k] / b.v - a.v / b.v * b.d[k] / b.v;
      }
      return op != 3 || std::abs(b.v) > 1e-2;
    };
    bool ok = true;
    switch (s.kind) {
      case 'x':
        t.v = x[s.a];
        t.d[s.a] = 1;
        break;
      case 'c':
        t.v = s.c;
        break;
      case 'o':
      case '=':
        ok = Do(s.what, o[s.a], o[s.b]);
        break;
      case 'k': {
        const Dual c{s.c, std::vector<D>(dim)};
        ok = s.b ? Do(s.what, o[s.a], c) : Do(s.what, c, o[s.a]);
      } break;
      case 'n':
        t.v = -o[s.a].v;
        for (size_t k = 0; k < dim; ++k) t.d[k] = -o[s.a].d[k];
        break;
      default: {
        const D a = o[s.a].v;
        t.v = Fun(s.what, a);
        D m = 0;
        switch (s.what) {
          case 0:
            m = 2 * a;
            break;
          case 1:
            m = 0.5 / std::sqrt(a);
            ok = a > 1e-3;
            break;
          case 2:
            m = std::exp(a);
            break;
          case 3:
            m = 1 / a;
            ok = a > 1e-3;
            break;
          case 4:
            m = std::cos(a);
            break;
          case 5:
            m = -std::sin(a);
            break;
          case 6:
            m = 1 / (std::cos(a) * std::cos(a));
            ok = std::abs(std::cos(a)) > 1e-2;
            break;
          case 7:
            m = 1 / std::sqrt(1 - a * a);
            ok = std::abs(a) < 0.99;
            break;
          case 8:
            m = -1 / std::sqrt(1 - a * a);
            ok = std::abs(a) < 0.99;
            break;
          case 9:
            m = 1 / (1 + a * a);
            break;
          default:
            m = a > 0 ? 1 : 0;
            ok = std::abs(a) > 1e-9 && s.what != 10;
        }
        for (size_t k = 0; k < dim; ++k) t.d[k] = m * o[s.a].d[k];
      }
    }
    ok = ok && std::abs(t.v) < 1e4;
    for (D d : t.d) ok = ok && std::abs(d) < 1e4;
    if (!ok) return false;
    for (D d : t.d) scale = std::max(scale, std::abs(d));
    scale = std::max(scale, std::abs(t.v));
  }
  result = o.back();
  return true;
}

static bool Same(D a, D b) { return (std::isnan(a) && std::isnan(b)) || a == b; }
static std::string Dbl(D x) {
  char b[64];
  snprintf(b, sizeof(b), "%.17g", x);
  return b;
}
static std::string Show(const Program& p) {
  std::string s;
  for (size_t i = 0; i < p.size(); ++i) {
    const Ins& t = p[i];
    s += "v" + std::to_string(i) + "=" + t.kind + "(" + std::to_string(t.a) + "," + std::to_string(t.b) + "," + std::to_string(t.what) + "," + Dbl(t.c) + ") ";
    if (s.size() > 1500) break;
  }
  return s;
}
static std::string Show(const std::vector<D>& x) {
  std::string s = "[";
  for (D d : x) s += Dbl(d) + " ";
  return s + "]";
}

static void RemoveTmp(const std::string& so) {
  // Compiled functions leave their sources and libraries behind.
  if (so.compare(0, 18, "/tmp/.current-tmp-") || so.size() != 18 + 8 + 3) return;
  const std::string base = so.substr(0, so.size() - 3);
  for (const char* e : {"", ".so", ".s", ".o", ".asm", ".c"}) ::unlink((base + e).c_str());
}

template <JIT J>
static void CheckExternal(const char* name, const fncas::function_t<JIT::Blueprint>& f, const fncas::gradient_t<JIT::Blueprint>& g, const std::vector<std::vector<D>>& points, size_t dim) {
  fncas::function_t<J> jf(f);
  fncas::gradient_t<J> jg0(f, g);
  // Moved, as when returned from a function.
  fncas::gradient_t<J> jg(std::move(jg0));
  fncas::function_t<J> jf1(std::move(jf));
  VH_CHECK(jf1.dim() == dim && jg.dim() == dim, "fncas:dim", name);
  for (const auto& x : points) {
    const D want = f(x), got = jf1(x);
    VH_CHECK(Same(want, got), std::string("fncas:external f ") + name, Dbl(got) + " instead of " + Dbl(want) + " at " + Show(x));
    const auto gw = g(x), gg = jg(x);
    VH_CHECK(gw.size() == gg.size() && std::equal(gw.begin(), gw.end(), gg.begin(), Same), std::string("fncas:external g ") + name, Show(gg) + " instead of " + Show(gw) + " at " + Show(x));
    const fncas::function_t<>& sf = jf1;
    const fncas::gradient_t<>& sg = jg;
    VH_CHECK(Same(sf(x), got), "fncas:super", name);
    VH_CHECK(sg(x).size() == dim, "fncas:super", name);
    vh::Eval(2);
  }
  RemoveTmp(jf1.lib_filename());
  RemoveTmp(jg.lib_filename());
  vh::Count(std::string("external_") + name);
}

static void ProgramCase(vh::Rng& r, uint64_t index) {
  const size_t dim = 1 + r.below(r.chance(10) ? 40 : 4);
  const bool tame = r.chance(60);
  const bool differentiable = tame || r.chance(60);
  const Program p = Generate(r, dim, 1 + r.below(r.chance(10) ? 300 : 25), !differentiable, tame);
  vh::Case(Show(p));
  std::vector<std::vector<D>> points;
  for (int i = 0; i < 4; ++i) {
    std::vector<D> x(dim);
    for (auto& v : x) v = tame ? 0.1 + r.unit() * 2 : r.chance(20) ? kConsts[r.below(sizeof(kConsts) / sizeof(kConsts[0]))] : (r.unit() - 0.5) * 8;
    points.push_back(x);
  }
  bool negation = false;
  uint64_t h = 0;
  for (const auto& s : p) {
    if (s.kind == 'n') negation = true;
    h = vh::hash_mix(h, s.kind * 1000003 + s.what * 10007 + s.a * 101 + s.b);
  }
  vh::Distinct(h);
  fncas::variables_vector_t x(dim);
  try {
    fncas::variables_vector_t second(dim);
    vh::Violation("fncas:concurrent", "the second function being recorded is accepted");
  } catch (const fncas::exceptions::FnCASConcurrentEvaluationAttemptException&) {
  }
  fncas::function_t<JIT::Blueprint> f = Run<fncas::term_t>(p, x);
  const fncas::function_t<JIT::NativeWrapper> native([&](const std::vector<D>& v) { return Run<D>(p, v); }, dim);
  const auto CheckF = [&](const char* when) {
    for (const auto& pt : points) {
      const D want = native(pt), got = f(pt);
      // `-x` is recorded as `0-x`, which makes a difference for the sign of zero.
      if (!negation) VH_CHECK(Same(want, got), std::string("fncas:value") + when, Dbl(got) + " instead of " + Dbl(want) + " at " + Show(pt));
      vh::Eval();
    }
  };
  CheckF("");
  {
    fncas::function_t<JIT::X64NativeJIT> jit(f);
    const size_t n = jit.actual_heap.size();
    jit.actual_heap.resize(n + 32, 777.0);
    for (const auto& pt : points) {
      const D want = f(pt), got = jit(pt);
      VH_CHECK(Same(want, got), "fncas:jit", Dbl(got) + " instead of " + Dbl(want) + " at " + Show(pt));
      vh::Eval();
    }
    for (size_t i = n; i < n + 32; ++i) VH_CHECK(jit.actual_heap[i] == 777.0, "fncas:jit heap", std::to_string(i - n));
  }
  bool has_step = false;
  for (const auto& s : p) has_step |= s.kind == 'f' && s.what == 10;
  if (has_step) return;
  const fncas::gradient_t<JIT::Blueprint> g(f);
  CheckF(" after differentiation");
  VH_CHECK(g.dim() == dim, "fncas:dim", "");
  for (const auto& pt : points) {
    Dual ref;
    D scale;
    if (DualRun(p, pt, ref, scale)) {
      const auto got = g(pt);
      const fncas::gradient_t<JIT::NativeWrapper> approx([&](const std::vector<D>& v) { return Run<D>(p, v); }, dim);
      VH_CHECK(std::abs(f(pt) - ref.v) < 1e-7 * scale, "fncas:well conditioned", "");
      for (size_t k = 0; k < dim; ++k) {
        VH_CHECK(std::abs(got[k] - ref.d[k]) <= 1e-6 * scale, "fncas:gradient", "by variable " + std::to_string(k) + ": " + Dbl(got[k]) + " instead of " + Dbl(ref.d[k]) + " at " + Show(pt));
      }
      vh::Count("gradients");
      vh::Eval(dim);
      // In reverse, with the cache of the values shared.
      const auto again = g(pt);
      VH_CHECK(std::equal(got.begin(), got.end(), again.begin(), Same), "fncas:repeated", "");
    }
  }
  {
    fncas::gradient_t<JIT::X64NativeJIT> jit(f, g);
    const size_t n = jit.actual_heap.size();
    jit.actual_heap.resize(n + 32, 777.0);
    for (const auto& pt : points) {
      const auto want = g(pt), got = jit(pt);
      VH_CHECK(got.size() == dim && std::equal(want.begin(), want.end(), got.begin(), Same), "fncas:jit gradient", Show(got) + " instead of " + Show(want) + " at " + Show(pt));
      vh::Eval();
    }
    for (size_t i = n; i < n + 32; ++i) VH_CHECK(jit.actual_heap[i] == 777.0, "fncas:jit heap", std::to_string(i - n));
  }
  if (index % 12 == 0) CheckExternal<JIT::AS>("AS", f, g, points, dim);
  if (index % 12 == 4) CheckExternal<JIT::NASM>("NASM", f, g, points, dim);
  if (index % 12 == 8) CheckExternal<JIT::CLANG>("CLANG", f, g, points, dim);
}

// Long chains, and a lot of sharing.
static void DeepCase(vh::Rng& r) {
  {
    const int n = 20000 + r.below(60000);
    fncas::variables_vector_t x(2);
    fncas::term_t t = x[0];
    for (int i = 0; i < n; ++i) t += x[i & 1] * (1.0 / n);
    fncas::function_t<JIT::Blueprint> f(t);
    const fncas::gradient_t<JIT::Blueprint> g(f);
    const std::vector<D> pt{0.5, -1.5};
    D want = pt[0];
    for (int i = 0; i < n; ++i) want += pt[i & 1] * (1.0 / n);
    VH_CHECK(Same(f(pt), want), "fncas:deep", "");
    const auto gr = g(pt);
    VH_CHECK(std::abs(gr[0] - (1 + ((n + 1) / 2) / D(n))) < 1e-9 && std::abs(gr[1] - (n / 2) / D(n)) < 1e-9, "fncas:deep gradient", Show(gr));
    fncas::function_t<JIT::X64NativeJIT> jf(f);
    fncas::gradient_t<JIT::X64NativeJIT> jg(f, g);
    VH_CHECK(Same(jf(pt), want), "fncas:deep jit", "");
    VH_CHECK(jg(pt) == gr, "fncas:deep jit gradient", "");
    vh::Eval(4);
  }
  {
    // 2^30 paths, 30 nodes.
    const int n = 30 + r.below(30);
    fncas::variables_vector_t x(1);
    fncas::term_t t = x[0];
    for (int i = 0; i < n; ++i) t = (t + t) * 0.5 + fncas::sin(t) * 0.0;
    fncas::function_t<JIT::Blueprint> f(t);
    VH_CHECK(f({1.25}) == 1.25, "fncas:shared", "");
    const fncas::gradient_t<JIT::Blueprint> g(f);
    VH_CHECK(std::abs(g({1.25})[0] - 1) < 1e-9, "fncas:shared gradient", "");
    VH_CHECK(fncas::impl::node_vector_singleton().size() < 2000, "fncas:shared nodes", std::to_string(fncas::impl::node_vector_singleton().size()));
    fncas::gradient_t<JIT::X64NativeJIT> jg(f, g);
    VH_CHECK(Same(jg({1.25})[0], g({1.25})[0]), "fncas:shared jit", "");
    vh::Eval(4);
  }
}

// ---- Optimizers.
struct Convex {
  std::vector<D> a, c;  // sum a[i] * (x[i] - c[i])^2.
  std::vector<std::vector<D>> w;  // + log(1 + exp(w.x)), not with a known optimum.
  D offset = 0;
  D sign = 1;
  D mix = 0;
  bool barrier = false;  // a[i] * (x[i] - c[i] * log(x[i])) instead, which only is defined for positive `x`.
  size_t max_steps = 0;
  template <typename T>
  T ObjectiveFunction(const std::vector<T>& x) const {
    T r = T(offset);
    if (barrier) {
      using namespace std;
      using namespace fncas;
      for (size_t i = 0; i < a.size(); ++i) r += (x[i] - log(x[i]) * c[i]) * a[i];
      return r * sign;
    }
    for (size_t i = 0; i < a.size(); ++i) r += T(x[i] - c[i]) * T(x[i] - c[i]) * a[i];
    for (size_t i = 0; i + 1 < a.size(); ++i) r += T(x[i] - c[i]) * T(x[i + 1] - c[i + 1]) * mix;
    for (const auto& v : w) {
      T s = T(0.0);
      for (size_t i = 0; i < v.size(); ++i) s += x[i] * v[i];
      using namespace std;
      using namespace fncas;
      r += log(exp(s) + 1.0);
    }
    return r * sign;
  }
};

template <class OPT>
static fncas::optimize::OptimizationResult RunOpt(const Convex& f, const std::vector<D>& start, bool jit, std::vector<fncas::ValueAndPoint>* log, bool track, size_t stop_at) {
  fncas::optimize::OptimizerParameters params;
  if (!jit) params.DisableJIT();
  if (track) params.TrackOptimizationProgress();
  if (f.max_steps) params.SetValue("max_steps", f.max_steps);
  params.SetStoppingCriterion([&, log, stop_at](size_t n, const fncas::ValueAndPoint& p, const std::vector<D>& g) {
    if (log) {
      VH_CHECK(n == log->size(), "opt:iteration", "");
      log->push_back(p);
      VH_CHECK(g.size() == start.size(), "opt:gradient size", "");
    }
    return n >= stop_at ? fncas::optimize::EarlyStoppingCriterion::StopOptimization : fncas::optimize::EarlyStoppingCriterion::ContinueOptimization;
  });
  const OPT opt(params, f);
  return opt.Optimize(start);
}

template <template <class, fncas::OptimizationDirection, JIT> class OPT>
static void CheckOptimizer(vh::Rng& r, const char* name, const Convex& f, const std::vector<D>& start, const std::vector<D>* optimum) {
  using Min = OPT<Convex, fncas::OptimizationDirection::Minimize, JIT::Default>;
  using Max = OPT<Convex, fncas::OptimizationDirection::Maximize, JIT::Default>;
  std::vector<fncas::ValueAndPoint> log, log2;
  const size_t stop_at = r.chance(30) ? r.below(10) : 100000;
  const bool track = r.chance(50);
  const auto jit = RunOpt<Min>(f, start, true, &log, track, stop_at);
  const auto plain = RunOpt<Min>(f, start, false, &log2, track, stop_at);
  Convex neg = f;
  neg.sign = -1;
  const auto max = RunOpt<Max>(neg, start, r.chance(50), nullptr, track, stop_at);
  const std::string N = name;
  VH_CHECK(jit.value == plain.value && jit.point == plain.point && jit.optimization_iterations == plain.optimization_iterations, "opt:jit", N + Dbl(jit.value) + " vs. " + Dbl(plain.value));
  VH_CHECK(jit.value == -max.value && jit.point == max.point, "opt:maximize", N + Dbl(jit.value) + " vs. " + Dbl(max.value) + " " + Show(jit.point) + Show(max.point));
  const D at = f.ObjectiveFunction(jit.point);
  const D eps = 1e-9 * (1 + std::abs(at));
  VH_CHECK(jit.point.size() == start.size() && std::abs(at - jit.value) <= eps, "opt:value", N + Dbl(at) + " vs. " + Dbl(jit.value));
  VH_CHECK(jit.value <= f.ObjectiveFunction(start) + eps, "opt:worse", N + Dbl(jit.value) + " vs. " + Dbl(f.ObjectiveFunction(start)));
  VH_CHECK(!log.empty() && log.size() == log2.size() && log[0].point == start, "opt:log", N);
  for (size_t i = 0; i < log.size(); ++i) {
    VH_CHECK(std::abs(log[i].value - f.ObjectiveFunction(log[i].point)) <= 1e-9 * (1 + std::abs(log[i].value)), "opt:step value", N);
  }
  if (stop_at < log.size()) {
    VH_CHECK(jit.optimization_iterations == stop_at && jit.point == log.back().point, "opt:stopped", N + std::to_string(jit.optimization_iterations));
  } else {
    if (f.max_steps) {
      VH_CHECK(jit.optimization_iterations <= f.max_steps && log.size() <= f.max_steps, "opt:max steps", N + std::to_string(jit.optimization_iterations) + " of " + std::to_string(f.max_steps));
    } else if (optimum) {
      const D best = f.ObjectiveFunction(*optimum);
      VH_CHECK(jit.value - best < 1e-3 * (1 + std::abs(f.ObjectiveFunction(start) - best)), "opt:optimum", N + Dbl(jit.value) + " instead of " + Dbl(best) + " from " + Dbl(f.ObjectiveFunction(start)));
    }
  }
  VH_CHECK(Exists(jit.progress) == track, "opt:progress", "");
  if (track) {
    const auto& pr = Value(jit.progress);
    VH_CHECK(pr.iterations == pr.objective_function_values.size(), "opt:progress size", "");
    for (size_t i = 0; i < pr.objective_function_values.size() && i < log.size(); ++i) {
      VH_CHECK(std::abs(pr.objective_function_values[i] - log[i].value) <= 1e-9 * (1 + std::abs(log[i].value)), "opt:progress value", N);
    }
  }
  vh::Count("iterations", jit.optimization_iterations);
  vh::Eval();
  vh::Distinct(vh::hash_mix(vh::hash_str(N), vh::hash_str(Show(jit.point))));
}

static void OptimizerCase(vh::Rng& r) {
  Convex f;
  const size_t dim = 1 + r.below(4);
  for (size_t i = 0; i < dim; ++i) {
    f.a.push_back(0.5 + r.unit() * 2);
    f.c.push_back((r.unit() - 0.5) * 6);
  }
  f.offset = (r.unit() - 0.5) * 10;
  f.barrier = r.chance(25);
  if (r.chance(15)) f.max_steps = 1 + r.below(6);
  const bool pure = f.barrier || r.chance(60);
  if (f.barrier) {
    for (auto& c : f.c) c = 0.5 + r.unit() * 4;
    // Steep, so that the first steps tried are out of where it is defined.
    if (r.chance(50)) for (auto& a : f.a) a *= 6;
  } else if (pure && r.chance(30)) {
    // Steep: most of the steps a descent tries make it worse.
    for (auto& a : f.a) a *= 12;
  } else if (pure) {
    if (r.chance(50)) f.mix = (r.unit() - 0.5) * 0.8;
  } else {
    for (int k = 1 + r.below(4); k; --k) {
      std::vector<D> v;
      for (size_t i = 0; i < dim; ++i) v.push_back((r.unit() - 0.5) * 4);
      f.w.push_back(v);
    }
  }
  std::vector<D> start;
  for (size_t i = 0; i < dim; ++i) start.push_back(f.barrier ? 0.2 + r.unit() * 8 : (r.unit() - 0.5) * 10);
  vh::Case((f.barrier ? "optimize barrier a=" : "optimize a=") + Show(f.a) + " c=" + Show(f.c) + " mix=" + Dbl(f.mix) + " from " + Show(start));
  // For those with no known optimum, the best is found by plain descent.
  std::vector<D> best = f.c;
  if (!pure) {
    for (int it = 0; it < 4000; ++it) {
      std::vector<D> g(dim);
      for (size_t i = 0; i < dim; ++i) g[i] = 2 * f.a[i] * (best[i] - f.c[i]);
      for (const auto& v : f.w) {
        D s = 0;
        for (size_t i = 0; i < dim; ++i) s += v[i] * best[i];
        for (size_t i = 0; i < dim; ++i) g[i] += v[i] / (1 + std::exp(-s));
      }
      for (size_t i = 0; i < dim; ++i) best[i] -= 0.03 * g[i];
    }
  }
  CheckOptimizer<fncas::optimize::GradientDescentOptimizer>(r, "GD ", f, start, &best);
  CheckOptimizer<fncas::optimize::GradientDescentOptimizerBT>(r, "BT ", f, start, &best);
  CheckOptimizer<fncas::optimize::ConjugateGradientOptimizer>(r, "CG ", f, start, &best);
}

// Each thread records and computes its own function.
static void ThreadsCase(vh::Rng& r, uint64_t index) {
  std::vector<std::thread> t;
  const uint64_t seed = r.next();
  for (int i = 0; i < 3; ++i) {
    t.emplace_back([seed, i, index] {
      vh::Rng r(seed + i);
      ProgramCase(r, 1);
      if (index % 2) OptimizerCase(r);
    });
  }
  for (auto& x : t) x.join();
}

int main(int argc, char** argv) {
  return vh::Main(argc, argv, [] {
    auto& o = vh::opt();
    vh::Rng r(o.seed);
    for (uint64_t i = 0; i < o.cases && !vh::TooMany(); ++i) {
      if (o.mode == "functions") {
        ProgramCase(r, i);
        if (i % 100 == 0) DeepCase(r);
      }
      if (o.mode == "optimize") OptimizerCase(r);
      if (o.mode == "threads") ThreadsCase(r, i);
      vh::Count("cases");
    }
  });
}
