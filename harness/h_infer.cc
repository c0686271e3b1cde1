// C39: the structures inferred from JSON documents. The documents are built from values this file keeps, so that what
// should be inferred is computed from the values, not from the text.
#include "utils/json_schema/infer.h"
#include "vh.h"
#include <cmath>
#include <fstream>
#include <sys/stat.h>

using namespace current::utils;

struct V {
  enum K { Null, Bool, Int, Dbl, Str, Arr, Obj } k = Null;
  bool b = false;
  int64_t i = 0;
  double d = 0;
  std::string text, s;  // `text`: of a number.
  std::vector<V> a;
  std::vector<std::pair<std::string, V>> o;
};

struct T {
  V::K k = V::Null;
  int cls = 0;       // Of numbers.
  int p_null = 0;    // Percent.
  std::vector<T> e;  // Element, or fields.
  std::vector<std::string> names;
  std::vector<int> p_absent;
};

static const char* kNames[] = {"a", "b", "a_b", "Element", "x1", "_y", "Field", "a_Element", "zz_Top9", "c", "b_Object", "a_Object"};
static const char* kBadNames[] = {"a-b", "9x", "", "with space", "null", "NULL", "true", "\xd0\x96", "a.b", "x:", "false"};

static T GenType(vh::Rng& r, int depth) {
  T t;
  const int x = r.below(100);
  t.p_null = r.chance(70) ? 0 : r.chance(15) ? 100 : r.below(60);
  if (depth <= 0 || x < 50) {
    const V::K ks[] = {V::Bool, V::Int, V::Int, V::Dbl, V::Str, V::Str, V::Null};
    t.k = ks[r.below(7)];
    t.cls = r.below(6);
  } else if (x < 72) {
    t.k = V::Arr;
    t.cls = r.below(3);
    t.e.push_back(GenType(r, depth - 1));
  } else {
    t.k = V::Obj;
    std::set<std::string> used;
    const int n = r.below(6);
    for (int i = 0; i < n; ++i) {
      const std::string name = kNames[r.below(12)];
      if (!used.insert(name).second) continue;
      t.names.push_back(name);
      t.p_absent.push_back(r.chance(60) ? 0 : r.below(90));
      t.e.push_back(GenType(r, depth - 1));
    }
  }
  return t;
}

static V GenInt(vh::Rng& r, int cls) {
  V v;
  v.k = V::Int;
  static const int64_t y1980 = 315561600000000ll, y2250 = 8835984000000000ll;
  if (cls == 0) v.i = r.range(0, 100);
  else if (cls == 1) v.i = r.range(-100, 100);
  else if (cls == 2) v.i = y1980 + r.below(3) * (r.chance(50) ? 1 : 1000000000000ll);
  else if (cls == 3) v.i = r.chance(50) ? y2250 - 1 - static_cast<int64_t>(r.below(3)) : r.chance(80) ? y1980 + static_cast<int64_t>(r.below(y2250 - y1980)) : y1980 - 1 + static_cast<int64_t>(r.below(2)) * (y2250 - y1980 + 1);
  else if (cls == 4) v.i = r.range(-10000000000000000ll, 10000000000000000ll);
  else v.i = r.below(1ull << r.below(50));
  v.text = std::to_string(v.i);
  return v;
}

static V Gen(vh::Rng& r, const T& t, int& wild) {
  V v;
  if (wild && r.chance(wild)) {
    wild = 0;
    const int k = r.below(6);
    T x;
    x.k = k == 0 ? V::Bool : k == 1 ? V::Int : k == 2 ? V::Dbl : k == 3 ? V::Str : k == 4 ? V::Obj : V::Arr;
    if (x.k == V::Arr) {
      x.e.emplace_back();
      x.e[0].k = V::Str;
    }
    return Gen(r, x, wild);
  }
  if (r.chance(t.p_null)) return v;
  v.k = t.k;
  switch (t.k) {
    case V::Null: break;
    case V::Bool: v.b = r.chance(50); break;
    case V::Int: return GenInt(r, t.cls);
    case V::Dbl: {
      if (r.chance(30)) return GenInt(r, r.below(2));
      static const char* ds[] = {"0.5", "-1.25", "1e3", "0.1", "-0.0", "18446744073709551615", "9223372036854775808", "3.25e-5", "100.0"};
      v.text = ds[r.below(t.cls == 0 ? 9 : 4)];
      v.d = strtod(v.text.c_str(), nullptr);
      break;
    }
    case V::Str: {
      const int n = r.below(4);
      for (int i = 0; i < n; ++i) v.s += "ab\n\t\"\\z"[r.below(t.cls == 0 ? 7 : 2)];
      break;
    }
    case V::Arr: {
      int n = r.below(5);
      if (t.cls == 0 && r.chance(40)) n = 0;
      for (int i = 0; i < n; ++i) v.a.push_back(Gen(r, t.e[0], wild));
      break;
    }
    case V::Obj: {
      std::vector<int> order(t.e.size());
      for (size_t i = 0; i < order.size(); ++i) order[i] = i;
      if (r.chance(30))
        for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
      for (int i : order)
        if (!r.chance(t.p_absent[i])) v.o.emplace_back(t.names[i], Gen(r, t.e[i], wild));
      break;
    }
  }
  return v;
}

static std::string Quote(const std::string& s) {
  std::string q = "\"";
  for (char c : s) {
    if (c == '\n') q += "\\n";
    else if (c == '\t') q += "\\t";
    else if (c == '"' || c == '\\') q += '\\', q += c;
    else q += c;
  }
  return q + '"';
}
static std::string Text(const V& v, const std::string& sp = "") {
  std::string t;
  switch (v.k) {
    case V::Null: return "null";
    case V::Bool: return v.b ? "true" : "false";
    case V::Int:
    case V::Dbl: return v.text;
    case V::Str: return Quote(v.s);
    case V::Arr:
      for (auto& e : v.a) t += (t.empty() ? "" : "," + sp) + Text(e, sp);
      return "[" + t + sp + "]";
    case V::Obj:
      for (auto& e : v.o) t += (t.empty() ? "" : "," + sp) + Quote(e.first) + sp + ":" + sp + Text(e.second, sp);
      return "{" + sp + t + "}";
  }
  return t;
}

struct Fail {
  std::string what;
};
// What is to be inferred. `set`, `nulls`: the counts of the description.
struct N {
  V::K k = V::Null;
  bool absent = false;  // In some object, as opposed to being null.
  bool is_unsigned = true, is_us = true;
  uint64_t set = 0, nulls = 0, trues = 0;
  long double sum = 0, sq = 0, mag = 0;
  std::map<std::string, uint64_t> strings;
  std::vector<std::string> order;
  std::map<std::string, N> f;
  std::vector<N> e;
};
static bool EmptyArray(const V& v) { return v.k == V::Arr && v.a.empty(); }
static bool ValidId(const std::string& s) {
  if (s.empty() || s == "NULL" || s == "null" || s == "true" || s == "false" || isdigit(static_cast<unsigned char>(s[0]))) return false;
  for (unsigned char c : s)
    if (!(c == '_' || (c < 128 && isalnum(c)))) return false;
  return true;
}
typedef std::vector<std::pair<const V*, std::string>> Vs;  // With the paths.
static N Infer(const Vs& vs, uint64_t missing, const std::set<std::string>& ignore) {
  static const int64_t y1980 = 315561600000000ll, y2250 = 8835984000000000ll;
  N n;
  n.nulls = missing;
  n.absent = missing > 0;
  Vs kids;
  for (auto& p : vs) {
    const V& v = *p.first;
    if (v.k == V::Null) {
      ++n.nulls;
      continue;
    }
    if (n.k == V::Null) n.k = v.k;
    else if (n.k == V::Int && v.k == V::Dbl) n.k = V::Dbl;
    else if (n.k == V::Dbl && v.k == V::Int);
    else if (n.k != v.k) throw Fail{"incompatible"};
    ++n.set;
    if (v.k == V::Bool) n.trues += v.b;
    if (v.k == V::Str) ++n.strings[v.s];
    if (v.k == V::Int) {
      if (v.i < 0) n.is_unsigned = false;
      if (v.i < y1980 || v.i >= y2250) n.is_us = false;
      n.sum += v.i, n.sq += static_cast<long double>(v.i) * v.i, n.mag = std::max<long double>(n.mag, fabsl(v.i));
    }
    if (v.k == V::Dbl) n.sum += v.d, n.sq += static_cast<long double>(v.d) * v.d, n.mag = std::max<long double>(n.mag, fabsl(v.d));
    if (v.k == V::Arr) {
      bool any = false;
      for (size_t i = 0; i < v.a.size(); ++i)
        if (!EmptyArray(v.a[i])) any = true, kids.emplace_back(&v.a[i], p.second + "[" + std::to_string(i) + "]");
      if (!any) throw Fail{v.a.empty() ? "empty" : "empties"};
    }
  }
  if (n.k == V::Arr) n.e.push_back(Infer(kids, 0, ignore));
  if (n.k == V::Obj) {
    std::map<std::string, Vs> by;
    for (auto& p : vs)
      if (p.first->k == V::Obj)
        for (auto& f : p.first->o) {
          if (EmptyArray(f.second) || ignore.count(p.second + "." + f.first)) continue;
          if (!ValidId(f.first)) throw Fail{"identifier"};
          if (!by.count(f.first)) n.order.push_back(f.first);
          by[f.first].emplace_back(&f.second, p.second + "." + f.first);
        }
    for (auto& b : by) n.f[b.first] = Infer(b.second, n.set - b.second.size(), ignore);
  }
  return n;
}

struct Struct {
  std::map<std::string, std::string> fields;
};
// Whether the type as printed is the one expected; empty if so.
static std::string Match(const N& n, std::string t, std::map<std::string, Struct>& structs, const std::string& path, std::set<std::string>& seen) {
  if (n.k == V::Null || (n.k == V::Arr && n.e[0].k == V::Null) ) {
    // Nothing to have a type for. (Also arrays of such.)
    return t.empty() ? "" : path + " is '" + t + "' with no values";
  }
  if (n.k == V::Arr) {
    const N* x = &n;
    while (x->k == V::Arr) x = &x->e[0];
    if (x->k == V::Null) return t.empty() ? "" : path + " is '" + t + "' with no values";
  }
  const std::string o = "Optional<";
  const bool optional = t.compare(0, o.size(), o) == 0;
  if (optional != (n.nulls > 0)) return path + " is '" + t + "', nulls: " + std::to_string(n.nulls);
  if (optional) t = t.substr(o.size(), t.size() - o.size() - 1);
  std::string want;
  switch (n.k) {
    case V::Bool: want = "bool"; break;
    case V::Str: want = "std::string"; break;
    case V::Dbl: want = "double"; break;
    case V::Int: want = n.is_us ? "std::chrono::microseconds" : n.is_unsigned ? "uint64_t" : "int64_t"; break;
    case V::Arr: {
      const std::string v = "std::vector<";
      if (t.compare(0, v.size(), v) != 0) return path + " is '" + t + "', not a vector";
      return Match(n.e[0], t.substr(v.size(), t.size() - v.size() - 1), structs, path + "[]", seen);
    }
    case V::Obj: {
      if (!structs.count(t)) return path + " is an undeclared '" + t + "'";
      if (!seen.insert(t).second) return path + " shares '" + t + "'";
      Struct& s = structs[t];
      size_t declared = 0;
      for (auto& f : n.f) {
        const bool has = s.fields.count(f.first);
        declared += has;
        const std::string bad = Match(f.second, has ? s.fields[f.first] : "", structs, path + "." + f.first, seen);
        if (!bad.empty()) return bad;
      }
      if (declared != s.fields.size()) return path + " has fields which were never there";
      return "";
    }
    default: break;
  }
  return want == t ? "" : path + " is '" + t + "', not '" + want + "'";
}

static std::vector<std::string> Tabs(const std::string& s) {
  std::vector<std::string> r(1);
  for (char c : s) {
    if (c == '\t') r.emplace_back();
    else r.back() += c;
  }
  return r;
}
static void Expect(const N& n, const std::string& path, std::map<std::string, const N*>& rows) {
  rows[path] = &n;
  if (n.k == V::Arr) Expect(n.e[0], path + "[]", rows);
  for (auto& f : n.f) Expect(f.second, path + "." + f.first, rows);
}
static std::string MatchDescription(const N& n, const std::string& text, size_t top) {
  std::map<std::string, const N*> rows;
  Expect(n, "Schema", rows);
  std::istringstream is(text);
  std::string line;
  size_t count = 0;
  getline(is, line);
  while (getline(is, line)) {
    const auto c = Tabs(line);
    if (!rows.count(c[0])) return "an extra row: " + line;
    const N& x = *rows[c[0]];
    ++count;
    static const char* names[] = {"Null", "Bool", "Integer", "Double", "String", "Array", "Object"};
    if (c.size() < 3 || c[1] != names[x.k]) return "type: " + line;
    if (x.k == V::Null) {
      if (x.absent ? c[2] == "0" : c[2] != std::to_string(x.nulls)) return "nulls: " + line + ", expected " + std::to_string(x.nulls);
      continue;
    }
    // The number of objects with no such field is a lower bound, as the golden files have it; zero is zero though.
    if (c.size() < 4 || c[2] != std::to_string(x.set) || (x.absent ? c[3] == "0" || strtoull(c[3].c_str(), nullptr, 10) > x.nulls : c[3] != std::to_string(x.nulls))) return "counts: " + line + ", expected " + std::to_string(x.set) + " and " + std::to_string(x.nulls);
    if (x.k == V::Bool && (c.size() < 5 || c[4] != std::to_string(x.set - x.trues) + " false, " + std::to_string(x.trues) + " true")) return "bool: " + line;
    if (x.k == V::Int || x.k == V::Dbl) {
      double mean, dev;
      if (c.size() < 5 || sscanf(c[4].c_str(), "Mean %lf, StdDev %lf", &mean, &dev) != 2) return "number: " + line;
      const long double m = x.sum / x.set, d = sqrtl(std::max<long double>(0, x.sq / x.set - m * m));
      if (!(fabsl(mean - m) <= 1e-4 * x.mag + 1e-9)) return "mean: " + line + ", expected " + std::to_string(static_cast<double>(m));
      if (!(fabsl(dev - d) <= 1e-3 * x.mag + 1e-9)) return "deviation: " + line + ", expected " + std::to_string(static_cast<double>(d));
    }
    if (x.k == V::Str) {
      const size_t k = x.strings.size();
      std::string want = k == 1 ? "1 distinct value" : std::to_string(k) + (k < 100 ? "" : "++") + " distinct values";
      if (k > 100) continue;  // Approximate.
      std::vector<std::pair<uint64_t, std::string>> order;
      for (auto& s : x.strings) order.emplace_back(s.second, s.first);
      std::sort(order.rbegin(), order.rend());
      for (size_t i = 0; i < order.size() && i < top; ++i) want += ", " + Quote(order[i].second) + ":" + std::to_string(order[i].first);
      if (c.size() < 5 || c[4] != want) return "strings: " + line + ", expected " + want;
    }
    if (x.k == V::Obj) {
      const size_t k = x.f.size();
      if (c.size() < 5 || c[4] != (k == 0 ? "empty object" : k == 1 ? "1 field" : std::to_string(k) + " fields")) return "fields: " + line;
    }
  }
  if (count != rows.size()) return "rows missing";
  return "";
}

static std::string Dir() { return vh::opt().scratch + "/"; }

struct Case {
  std::vector<V> docs;
  std::vector<std::string> lines;
};
static Case GenCase(vh::Rng& r, bool clean) {
  Case c;
  T t = GenType(r, 1 + r.below(4));
  if (r.chance(80) || clean)
    for (int k = 0; k < 20 && t.k != V::Obj; ++k) t = GenType(r, 3);
  t.p_null = 0;
  int wild = !clean && r.chance(15) ? 4 : 0;
  const int n = 1 + r.below(r.chance(20) ? 12 : 4);
  for (int i = 0; i < n; ++i) c.docs.push_back(Gen(r, t, wild));
  if (!clean && r.chance(6)) {
    // Many distinct strings.
    for (int i = 0; i < 60 + static_cast<int>(r.below(60)); ++i) {
      V s, o;
      s.k = V::Str;
      s.s = "v" + std::to_string(r.below(130));
      o.k = V::Obj;
      o.o.emplace_back("many", s);
      c.docs.push_back(o);
    }
  }
  for (auto& d : c.docs) c.lines.push_back(Text(d, r.chance(20) ? " " : ""));
  return c;
}
static void Write(const std::string& file, const std::vector<std::string>& lines, bool eol) {
  std::ofstream f(file);
  for (size_t i = 0; i < lines.size(); ++i) f << lines[i] << (i + 1 < lines.size() || eol ? "\n" : "");
}

// Calls `f`, and tells how it ended.
template <typename F>
static std::string Ended(F&& f) {
  try {
    f();
    return "ok";
  } catch (const InferSchemaParseJSONException&) {
    return "json";
  } catch (const InferSchemaIncompatibleTypesBase&) {
    return "incompatible";
  } catch (const InferSchemaInvalidCPPIdentifierException&) {
    return "identifier";
  } catch (const InferSchemaTopLevelEmptyArrayIsNotAllowed&) {
    return "empty";
  } catch (const InferSchemaArrayOfNullsOrEmptyArraysIsNotAllowed&) {
    return "empties";
  } catch (const std::exception& e) {
    return std::string("other: ") + e.what();
  }
}

static void InferCase(vh::Rng& r) {
  Case c = GenCase(r, false);
  std::set<std::string> ignore;
  std::string ignore_text;
  bool several = false;  // More than one thing is wrong: which is reported is of no importance.
  if (r.chance(30)) {
    // Some paths are ignored.
    std::function<void(const V&, const std::string&)> walk = [&](const V& v, const std::string& p) {
      for (auto& f : v.o) {
        const std::string q = p + "." + f.first;
        if (r.chance(20) && f.first.find_first_of(":;, \t\n") == std::string::npos) ignore.insert(q);
        walk(f.second, q);
      }
      for (size_t i = 0; i < v.a.size(); ++i) walk(v.a[i], p + "[" + std::to_string(i) + "]");
    };
    for (auto& d : c.docs) walk(d, "");
    for (auto& i : ignore) ignore_text += (ignore_text.empty() ? "" : std::string(1, ":;, \t\n"[r.below(6)])) + i;
  }
  if (r.chance(10)) {
    // A key which is not an identifier.
    V& d = c.docs[r.below(c.docs.size())];
    if (d.k == V::Obj) {
      const std::string bad = kBadNames[r.below(11)];
      V v = GenInt(r, 0);
      if (r.chance(20)) v = V(), v.k = V::Arr;
      d.o.insert(d.o.begin() + r.below(d.o.size() + 1), std::make_pair(bad, v));
      if (bad == "a-b" && r.chance(50)) ignore.insert(".a-b"), ignore_text += (ignore_text.empty() ? "" : ":") + std::string(".a-b");
      for (size_t i = 0; i < c.docs.size(); ++i) c.lines[i] = Text(c.docs[i]);
    }
  }
  std::string all;
  for (auto& l : c.lines) all += l + "\n";
  vh::Case(all + "ignored: " + ignore_text);
  N n;
  std::string want = "ok";
  Vs vs;
  for (auto& d : c.docs) vs.emplace_back(&d, "");
  try {
    n = Infer(vs, 0, ignore);
  } catch (const Fail& f) {
    want = f.what;
  }
  if (r.chance(3)) {
    static const char* bad[] = {"{", "{\"a\":}", "[1,2", "nul", "{\"a\":1} x", "{'a':1}"};
    c.lines.insert(c.lines.begin() + r.below(c.lines.size() + 1), bad[r.below(6)]);
    several = want != "ok";
    want = "json";
    all += " + not a JSON";
  }
  const std::string file = Dir() + "in.json";
  Write(file, c.lines, r.chance(70));
  std::string out, description;
  const size_t top = r.chance(50) ? 20 : 1 + r.below(4);
  const std::string how = Ended([&] {
    if (ignore.empty() && r.chance(70)) out = JSONSchemaAsCurrentStructs(file);
    else out = JSONSchemaAsCurrentStructs(file, TrackPath(TrackPathIgnoreList(ignore_text)));
  });
  const std::string how2 = Ended([&] {
    if (ignore.empty()) description = DescribeSchema(file, DoNotTrackPath(), top);
    else {
      const TrackPathIgnoreList list(ignore_text);
      description = DescribeSchema(file, TrackPath(list), top);
    }
  });
  vh::Eval(2);
  vh::Count(("outcome_" + how.substr(0, 12)).c_str());
  vh::Distinct(vh::hash_str(all));
  const bool failed = how != "ok";
  VH_CHECK(failed == (want != "ok") && how2 == how && how.compare(0, 5, "other") != 0, "outcome:" + want + ":" + how, all + " -> " + how + ", expected " + want);
  // Two things can be wrong with the same documents, so that any error which is there will do.
  if (failed && !several && how != want) {
    VH_CHECK(how != "json", "outcome_kind:" + how, all);
  }
  if (how != "ok" || want != "ok" || how2 != "ok") return;
  std::map<std::string, Struct> structs;
  std::string top_type, cur;
  bool has_top = false;
  std::istringstream is(out);
  std::string line;
  while (getline(is, line)) {
    const std::string s = "CURRENT_STRUCT(", f = "  CURRENT_FIELD(", u = "using Schema = ";
    if (line.compare(0, s.size(), s) == 0) {
      cur = line.substr(s.size(), line.find(')') - s.size());
      VH_CHECK(!structs.count(cur), "struct_twice", all + out);
      structs[cur];
    } else if (line.compare(0, f.size(), f) == 0) {
      const size_t comma = line.find(','), end = line.rfind(");");
      const std::string name = line.substr(f.size(), comma - f.size());
      std::string type = line.substr(comma + 2, end - comma - 2);
      VH_CHECK(!structs[cur].fields.count(name), "field_twice", all + out);
      VH_CHECK(!type.empty(), "field_no_type", all + out);
      structs[cur].fields[name] = type;
    } else if (line.compare(0, u.size(), u) == 0) {
      has_top = true;
      top_type = line.substr(u.size(), line.size() - u.size() - 1);
    }
  }
  VH_CHECK(has_top, "no_top", out);
  std::set<std::string> seen;
  const std::string bad = Match(n, top_type, structs, "", seen);
  VH_CHECK(bad.empty(), "schema", bad + "\n" + all + out);
  if (bad.empty()) VH_CHECK(seen.size() == structs.size(), "unused", all + out);
  const std::string bd = MatchDescription(n, description, top);
  VH_CHECK(bd.empty(), "description:" + bd.substr(0, bd.find(':')), bd + "\n" + all + description);
}

// A batch of cases is compiled, and the programs parse what they were inferred from.
static void CompileCase(vh::Rng& r, int cases) {
  const std::string dir = Dir();
  std::ofstream f(dir + "g.cc");
  f << "#include \"typesystem/struct.h\"\n#include \"typesystem/optional.h\"\n#include \"typesystem/serialization/json.h\"\n#include <cstdio>\n#include <fstream>\n";
  std::string body;
  int used = 0;
  std::vector<std::string> texts;
  for (int i = 0; used < cases && i < cases * 20; ++i) {
    Case c = GenCase(r, true);
    N n;
    Vs vs;
    for (auto& d : c.docs) vs.emplace_back(&d, "");
    try {
      n = Infer(vs, 0, {});
    } catch (const Fail&) {
      continue;
    }
    // Not when an empty array stands where other values also do, which is as documented; see DESIGN.md.
    bool mixed = false;
    std::function<void(const Vs&)> look = [&](const Vs& v) {
      bool arr_empty = false, other = false;
      std::map<std::string, Vs> by;
      Vs el;
      for (auto& p : v) {
        if (EmptyArray(*p.first)) arr_empty = true;
        else if (p.first->k != V::Arr && p.first->k != V::Null) other = true;
        for (auto& x : p.first->o) by[x.first].emplace_back(&x.second, "");
        for (auto& x : p.first->a) el.emplace_back(&x, "");
      }
      if (arr_empty && other) mixed = true;
      for (auto& b : by) look(b.second);
      if (!el.empty()) look(el);
    };
    look(vs);
    if (mixed || n.k != V::Obj) continue;
    Write(dir + "in.json", c.lines, true);
    std::string out;
    if (Ended([&] { out = JSONSchemaAsCurrentStructs(dir + "in.json"); }) != "ok") continue;
    f << "namespace n" << used << " {\n" << out << "}\n";
    Write(dir + "d" + std::to_string(used), c.lines, true);
    body += "  Run<n" + std::to_string(used) + "::Schema>(" + std::to_string(used) + ");\n";
    std::string t;
    for (auto& l : c.lines) t += l + "\n";
    texts.push_back(t + out);
    vh::Distinct(vh::hash_str(t));
    ++used;
  }
  f << "template <typename T> void Run(int i) {\n  std::ifstream f(\"" << dir << "d\" + std::to_string(i));\n  std::string l;\n  while (std::getline(f, l)) {\n"
    << "    try {\n      const T t = ParseJSON<T>(l);\n      const std::string again = JSON(t);\n      if (JSON(ParseJSON<T>(again)) != again) printf(\"F %d %s\\n\", i, l.c_str());\n"
    << "    } catch (const std::exception& e) { printf(\"X %d %s %s\\n\", i, l.c_str(), e.what()); }\n    printf(\"D\\n\");\n  }\n}\n"
    << "int main() {\n" << body << "}\n";
  f.close();
  if (!used) return;
  const std::string cmd = "clang++ -std=c++17 -O0 -w -DCURRENT_CI -pthread -I" + std::string(getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo") + " " + dir + "g.cc -o " + dir + "g 2> " + dir + "err";
  const int rc = ::system(cmd.c_str());
  std::ifstream ef(dir + "err");
  std::string err((std::istreambuf_iterator<char>(ef)), std::istreambuf_iterator<char>());
  if (rc != 0) {
    // Which?
    vh::Violation("compile", err.substr(0, 1500));
    return;
  }
  FILE* p = ::popen((dir + "g").c_str(), "r");
  char buf[4096];
  uint64_t done = 0;
  while (fgets(buf, sizeof buf, p)) {
    if (buf[0] == 'D') ++done;
    else {
      const int i = atoi(buf + 2);
      vh::Violation(buf[0] == 'X' ? "not_accepted" : "not_stable", std::string(buf) + texts[i]);
    }
  }
  ::pclose(p);
  vh::Eval(done);
  vh::Count("documents_parsed_by_compiled_structs", done);
  VH_CHECK(done > 0, "harness", "nothing was run");
}

int main(int argc, char** argv) {
  return vh::Main(argc, argv, [] {
    auto& o = vh::opt();
    vh::Rng seed(o.seed * 1000003 + o.shard * 7919 + vh::hash_str(o.mode));
    for (uint64_t i = 0; i < o.cases && !vh::TooMany(); ++i) {
      vh::Rng r(seed.next());
      if (o.mode == "infer") InferCase(r);
      if (o.mode == "compile") CompileCase(r, 40);
      vh::Count("cases");
    }
  });
}
