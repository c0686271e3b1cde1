// JSON: round trips in every format against an independent parser, emitter and loader, arbitrary mutations of valid
// JSON against the same reference, patches, and the schemaless JSON of blocks/json.
// PARTS: 1 typed, 2 universal.
#ifndef PARTS
#define PARTS 3
#endif
#include "vh.h"

#include <cmath>
#include <cstring>
#include <functional>

#include "typesystem/struct.h"
#include "typesystem/serialization/json.h"
#include "blocks/json/json.h"

using namespace current;

// An independent JSON document: '#' is a number (as text), 'D' is a double (as value).
struct JV {
  char t = 'n';
  std::string s;
  double d = 0;
  std::vector<JV> a;
  std::vector<std::pair<std::string, JV>> o;
  const JV* Find(const std::string& k) const {
    for (const auto& e : o) {
      if (e.first == k) return &e.second;
    }
    return nullptr;
  }
};

struct Bad {};      // Not JSON.
struct DontCare {}; // Where the reference does not claim anything.

struct RefParser {
  const std::string& s;
  size_t i = 0;
  int depth = 0;
  explicit RefParser(const std::string& s) : s(s) {}
  char c() const { return i < s.size() ? s[i] : '\0'; }
  void Ws() {
    while (c() == ' ' || c() == '\n' || c() == '\r' || c() == '\t') ++i;
  }
  JV Document() {
    Ws();
    JV v = Any();
    Ws();
    if (c()) throw Bad();
    return v;
  }
  void Lit(const char* l) {
    for (; *l; ++l, ++i) {
      if (c() != *l) throw Bad();
    }
  }
  unsigned Hex4() {
    unsigned r = 0;
    for (int k = 0; k < 4; ++k, ++i) {
      const char x = c();
      r *= 16;
      if (x >= '0' && x <= '9') r += x - '0';
      else if (x >= 'a' && x <= 'f') r += x - 'a' + 10;
      else if (x >= 'A' && x <= 'F') r += x - 'A' + 10;
      else throw Bad();
    }
    return r;
  }
  std::string Str() {
    if (c() != '"') throw Bad();
    ++i;
    std::string r;
    while (true) {
      const unsigned char x = static_cast<unsigned char>(c());
      if (x == '"') {
        ++i;
        return r;
      } else if (x == '\\') {
        ++i;
        const char e = c();
        ++i;
        switch (e) {
          case '"': r += '"'; break;
          case '\\': r += '\\'; break;
          case '/': r += '/'; break;
          case 'b': r += '\b'; break;
          case 'f': r += '\f'; break;
          case 'n': r += '\n'; break;
          case 'r': r += '\r'; break;
          case 't': r += '\t'; break;
          case 'u': {
            unsigned u = Hex4();
            if (u >= 0xDC00 && u <= 0xDFFF) throw Bad();
            if (u >= 0xD800 && u <= 0xDBFF) {
              if (c() != '\\') throw Bad();
              ++i;
              if (c() != 'u') throw Bad();
              ++i;
              const unsigned l = Hex4();
              if (l < 0xDC00 || l > 0xDFFF) throw Bad();
              u = 0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00);
            }
            if (u < 0x80) {
              r += static_cast<char>(u);
            } else if (u < 0x800) {
              r += static_cast<char>(0xC0 | (u >> 6));
              r += static_cast<char>(0x80 | (u & 63));
            } else if (u < 0x10000) {
              r += static_cast<char>(0xE0 | (u >> 12));
              r += static_cast<char>(0x80 | ((u >> 6) & 63));
              r += static_cast<char>(0x80 | (u & 63));
            } else {
              r += static_cast<char>(0xF0 | (u >> 18));
              r += static_cast<char>(0x80 | ((u >> 12) & 63));
              r += static_cast<char>(0x80 | ((u >> 6) & 63));
              r += static_cast<char>(0x80 | (u & 63));
            }
            break;
          }
          default: throw Bad();
        }
      } else if (x < 0x20) {
        throw Bad();
      } else {
        r += static_cast<char>(x);
        ++i;
      }
    }
  }
  bool Digit() const { return c() >= '0' && c() <= '9'; }
  JV Num() {
    JV v;
    v.t = '#';
    const size_t b = i;
    if (c() == '-') ++i;
    if (c() == '0') ++i;
    else if (Digit()) while (Digit()) ++i;
    else throw Bad();
    if (c() == '.') {
      ++i;
      if (!Digit()) throw Bad();
      while (Digit()) ++i;
    }
    bool bigexp = false;
    if (c() == 'e' || c() == 'E') {
      ++i;
      const bool neg = c() == '-';
      if (c() == '+' || c() == '-') ++i;
      if (!Digit()) throw Bad();
      const size_t eb = i;
      while (Digit()) ++i;
      bigexp = !neg && (i - eb > 3 || atoi(s.substr(eb, i - eb).c_str()) > 250);
    }
    v.s = s.substr(b, i - b);
    if (v.s.size() > 200 || bigexp) throw DontCare();
    return v;
  }
  JV Any() {
    JV v;
    switch (c()) {
      case 'n': Lit("null"); return v;
      case 't': Lit("true"); v.t = 't'; return v;
      case 'f': Lit("false"); v.t = 'f'; return v;
      case '"': v.t = '"'; v.s = Str(); return v;
      case '[': {
        if (++depth > 1000) throw Bad();
        v.t = '[';
        ++i;
        Ws();
        if (c() == ']') {
          ++i;
        } else {
          while (true) {
            Ws();
            v.a.push_back(Any());
            Ws();
            if (c() == ',') {
              ++i;
            } else if (c() == ']') {
              ++i;
              break;
            } else {
              throw Bad();
            }
          }
        }
        --depth;
        return v;
      }
      case '{': {
        if (++depth > 1000) throw Bad();
        v.t = '{';
        ++i;
        Ws();
        if (c() == '}') {
          ++i;
        } else {
          while (true) {
            Ws();
            std::string k = Str();
            Ws();
            if (c() != ':') throw Bad();
            ++i;
            Ws();
            v.o.emplace_back(std::move(k), Any());
            Ws();
            if (c() == ',') {
              ++i;
            } else if (c() == '}') {
              ++i;
              break;
            } else {
              throw Bad();
            }
          }
        }
        --depth;
        return v;
      }
      default: return Num();
    }
  }
};

// C strings are what the API takes.
static JV RefParse(const std::string& text) {
  const std::string cut = text.substr(0, text.find('\0'));
  RefParser p(cut);
  return p.Document();
}

static bool Same(const JV& x, const JV& y) {
  if (x.t == 'D' && y.t == 'D') return std::memcmp(&x.d, &y.d, 8) == 0;
  if (x.t == 'D' || y.t == 'D') {
    const JV& d = x.t == 'D' ? x : y;
    const JV& n = x.t == 'D' ? y : x;
    if (n.t != '#') return false;
    const double v = std::strtod(n.s.c_str(), nullptr);
    return std::memcmp(&v, &d.d, 8) == 0;
  }
  if (x.t != y.t || x.s != y.s || x.a.size() != y.a.size() || x.o.size() != y.o.size()) return false;
  for (size_t i = 0; i < x.a.size(); ++i) {
    if (!Same(x.a[i], y.a[i])) return false;
  }
  for (size_t i = 0; i < x.o.size(); ++i) {
    if (x.o[i].first != y.o[i].first || !Same(x.o[i].second, y.o[i].second)) return false;
  }
  return true;
}

// Text of a document, with whitespace and escapes at random if `r`.
static void TextOf(const JV& v, vh::Rng* r, std::string& out);
static void Ws(vh::Rng* r, std::string& out) {
  if (!r || !r->chance(10)) return;
  static const char* w[] = {" ", "\n", "\r\n", "\t", "  "};
  out += w[r->below(5)];
}
static void TextOfString(const std::string& s, vh::Rng* r, std::string& out) {
  out += '"';
  for (size_t i = 0; i < s.size(); ++i) {
    const unsigned char c = static_cast<unsigned char>(s[i]);
    char buf[16];
    if (c < 0x20 || c == '"' || c == '\\' || (r && c < 0x80 && r->chance(3))) {
      snprintf(buf, sizeof(buf), r && r->chance(50) ? "\\u%04X" : "\\u%04x", c);
      out += buf;
    } else if (r && r->chance(20) && (c & 0xE0) == 0xC0 && i + 1 < s.size() && (s[i + 1] & 0xC0) == 0x80 && c >= 0xC2) {
      snprintf(buf, sizeof(buf), "\\u%04x", ((c & 31) << 6) | (s[i + 1] & 63));
      out += buf;
      ++i;
    } else if (r && c == 0xF0 && i + 3 < s.size() && static_cast<unsigned char>(s[i + 1]) >= 0x90 && (s[i + 1] & 0xC0) == 0x80 && (s[i + 2] & 0xC0) == 0x80 && (s[i + 3] & 0xC0) == 0x80 && r->chance(50)) {
      const unsigned u = (((s[i + 1] & 63) << 12) | ((s[i + 2] & 63) << 6) | (s[i + 3] & 63)) - 0x10000;
      char b2[32];
      snprintf(b2, sizeof(b2), "\\u%04x\\u%04X", 0xD800 + (u >> 10), 0xDC00 + (u & 1023));
      out += b2;
      i += 3;
    } else {
      out += static_cast<char>(c);
    }
  }
  out += '"';
}
static void TextOf(const JV& v, vh::Rng* r, std::string& out) {
  Ws(r, out);
  switch (v.t) {
    case 'n': out += "null"; break;
    case 't': out += "true"; break;
    case 'f': out += "false"; break;
    case '#': out += v.s; break;
    case 'D': {
      char buf[64];
      snprintf(buf, sizeof(buf), "%.17g", v.d);
      out += buf;
      if (!strcmp(buf, "-0")) out += ".0";  // Or else it is an integer.
      break;
    }
    case '"': TextOfString(v.s, r, out); break;
    case '[': {
      out += '[';
      for (size_t i = 0; i < v.a.size(); ++i) {
        if (i) out += ',';
        TextOf(v.a[i], r, out);
      }
      Ws(r, out);
      out += ']';
      break;
    }
    default: {
      out += '{';
      for (size_t i = 0; i < v.o.size(); ++i) {
        if (i) out += ',';
        Ws(r, out);
        TextOfString(v.o[i].first, r, out);
        Ws(r, out);
        out += ':';
        TextOf(v.o[i].second, r, out);
      }
      Ws(r, out);
      out += '}';
    }
  }
  Ws(r, out);
}

static std::string RandomString(vh::Rng& r) {
  static const std::string pool[] = {"", "a", "test", "\"", "\\", "/", std::string("x\0y", 3), "\x01\x1f\x7f", "\n\r\t\b\f", "\xd0\xb9\xd1\x86", "\xf0\x9f\x98\x80", "\xe2\x80\xa8", "\xff\xfe", "null", "{\"a\":1}", "[", "\xc3", "</script>", "$", "Case", "\xed\xa0\x80"};
  std::string s = pool[r.below(sizeof(pool) / sizeof(pool[0]))];
  if (r.chance(20)) s += pool[r.below(sizeof(pool) / sizeof(pool[0]))];
  if (r.chance(10)) {
    for (uint64_t i = 0, n = r.below(40); i < n; ++i) s += static_cast<char>(r.below(256));
  }
  return s;
}
static double RandomDouble(vh::Rng& r) {
  static const double pool[] = {0.0, -0.0, 1.0, -1.0, 0.1, 1e20, 1e21, 1.7976931348623157e308, 2.2250738585072014e-308, 5e-324, 9007199254740993.0, 0.30000000000000004, 1e-7, 123456789.125, -1e15, 1e16, 1e17, 3.14};
  if (r.chance(40)) return pool[r.below(sizeof(pool) / sizeof(pool[0]))];
  while (true) {
    const uint64_t b = r.next();
    double d;
    std::memcpy(&d, &b, 8);
    if (std::isfinite(d)) return d;
  }
}
// Finite, and within what the reference parser has an opinion on.
static double TamedDouble(vh::Rng& r) {
  while (true) {
    const double d = RandomDouble(r);
    if (std::fabs(d) < 1e250) return d;
  }
}

static JV RandomJV(vh::Rng& r, int depth) {
  JV v;
  switch (r.below(depth > 2 ? 6 : 8)) {
    case 0: break;
    case 1: v.t = 't'; break;
    case 2: v.t = 'f'; break;
    case 3: {
      static const char* num[] = {"0", "-0", "1", "-1", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "65535", "65536", "-32769", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808",
                                  "-9223372036854775809", "18446744073709551615", "18446744073709551616", "1.0", "1e2", "1E+2", "0.1", "1e-400", "-0.0", "1.5e3", "123456789012345678901234567890", "1e38", "3.5e38", "1e39"};
      v.t = '#';
      v.s = num[r.below(sizeof(num) / sizeof(num[0]))];
      break;
    }
    case 4:
    case 5: v.t = '"'; v.s = RandomString(r); break;
    case 6: {
      v.t = '[';
      for (uint64_t i = 0, n = r.below(4); i < n; ++i) v.a.push_back(RandomJV(r, depth + 1));
      break;
    }
    default: {
      v.t = '{';
      static const char* keys[] = {"", "$", "x", "Case", "Fields", "A", "B", "Item1", "a", "a"};
      for (uint64_t i = 0, n = r.below(4); i < n; ++i) v.o.emplace_back(r.chance(70) ? keys[r.below(10)] : RandomString(r), RandomJV(r, depth + 1));
    }
  }
  return v;
}

static void Nodes(JV& v, std::vector<JV*>& out) {
  out.push_back(&v);
  for (auto& e : v.a) Nodes(e, out);
  for (auto& e : v.o) Nodes(e.second, out);
}

// One structural change.
static void Mutate(vh::Rng& r, JV& root) {
  std::vector<JV*> all;
  Nodes(root, all);
  JV* v = all[r.below(all.size())];
  if (r.chance(50)) {
    // Rather a composite one.
    for (int i = 0; i < 10 && v->a.empty() && v->o.empty(); ++i) v = all[r.below(all.size())];
  }
  switch (r.below(8)) {
    case 0: *v = RandomJV(r, 0); break;
    case 1: {
      JV copy = *all[r.below(all.size())];
      *v = copy;
      break;
    }
    case 2:
      if (!v->o.empty()) v->o.erase(v->o.begin() + r.below(v->o.size()));
      else if (!v->a.empty()) v->a.erase(v->a.begin() + r.below(v->a.size()));
      else *v = RandomJV(r, 2);
      break;
    case 3:
      if (v->t == '{') v->o.insert(v->o.begin() + r.below(v->o.size() + 1), {RandomString(r), RandomJV(r, 1)});
      else if (v->t == '[') v->a.insert(v->a.begin() + r.below(v->a.size() + 1), RandomJV(r, 1));
      else *v = RandomJV(r, 2);
      break;
    case 4:
      // Shuffle, or duplicate.
      if (v->o.size() > 1) {
        if (r.chance(60)) std::swap(v->o[r.below(v->o.size())], v->o[r.below(v->o.size())]);
        else v->o.push_back({v->o[r.below(v->o.size())].first, v->o[r.below(v->o.size())].second});
      } else if (v->a.size() > 0) {
        if (r.chance(60)) std::swap(v->a[r.below(v->a.size())], v->a[r.below(v->a.size())]);
        else v->a.push_back(JV(v->a[r.below(v->a.size())]));
      }
      break;
    case 5:
      if (!v->o.empty()) {
        auto& k = v->o[r.below(v->o.size())].first;
        if (r.chance(50)) k = RandomString(r);
        else if (!k.empty()) k[r.below(k.size())] ^= 1 << r.below(7);
      } else {
        *v = RandomJV(r, 3);
      }
      break;
    case 6: {
      JV n;
      *v = n;
      break;
    }
    default: {
      JV n = RandomJV(r, 3);
      for (int i = 0; i < 20 && n.t != '#'; ++i) n = RandomJV(r, 3);
      for (int i = 0; i < 20 && v->t != '#' && v->t != 'D'; ++i) v = all[r.below(all.size())];
      *v = n;
    }
  }
}

static std::string MutateText(vh::Rng& r, std::string s) {
  for (uint64_t i = 0, n = 1 + r.below(3); i < n; ++i) {
    if (s.empty()) return s;
    const size_t p = r.below(s.size());
    static const char* bits[] = {"\"", "\\", "{", "}", "[", "]", ",", ":", "0", "-", ".", "e", "null", "\\u", "\\ud800", "\x01", " ", "true", "//", "\xff", "\\u0000", "1", "'"};
    switch (r.below(6)) {
      case 0: s.erase(p, 1 + r.below(3)); break;
      case 1: s.insert(p, bits[r.below(23)]); break;
      case 2: s[p] = static_cast<char>(r.below(256)); break;
      case 3: s[p] ^= static_cast<char>(1 << r.below(8)); break;
      case 4: s = s.substr(0, p); break;
      default: {
        const size_t q = r.below(s.size());
        s.insert(q, s.substr(p, 1 + r.below(20)));
      }
    }
  }
  return s;
}

#if PARTS & 1
CURRENT_ENUM(E8, uint8_t){ZERO = 0u, BIG = 200u};
CURRENT_ENUM(E32, int32_t){MINUS = -5, PLUS = 7};
CURRENT_ENUM(E16, int16_t){LOW = -30000, UP = 30000};
CURRENT_ENUM(E64, int64_t){DEEP = -5000000000ll, HIGH = 5000000000ll};
CURRENT_ENUM(EU64, uint64_t){NONE = 0ull, ALL = 18446744073709551615ull};
CURRENT_STRUCT(A) {
  CURRENT_FIELD(x, int32_t, 0);
  CURRENT_FIELD(s, std::string);
};
CURRENT_STRUCT(B, A) { CURRENT_FIELD(y, double, 0); };
CURRENT_STRUCT(Empty){};
CURRENT_VARIANT(NV, A, Empty);
using V3 = Variant<A, B, Empty>;
using VN = Variant<NV, B>;
CURRENT_STRUCT(Prim) {
  CURRENT_FIELD(b, bool, false);
  CURRENT_FIELD(u8, uint8_t, 0);
  CURRENT_FIELD(u16, uint16_t, 0);
  CURRENT_FIELD(u32, uint32_t, 0);
  CURRENT_FIELD(u64, uint64_t, 0);
  CURRENT_FIELD(i8, int8_t, 0);
  CURRENT_FIELD(i16, int16_t, 0);
  CURRENT_FIELD(i32, int32_t, 0);
  CURRENT_FIELD(i64, int64_t, 0);
  CURRENT_FIELD(c, char, 0);
  CURRENT_FIELD(s, std::string);
  CURRENT_FIELD(f, float, 0);
  CURRENT_FIELD(d, double, 0);
  CURRENT_FIELD(us, std::chrono::microseconds, std::chrono::microseconds(0));
  CURRENT_FIELD(ms, std::chrono::milliseconds, std::chrono::milliseconds(0));
  CURRENT_FIELD(e8, E8, E8::ZERO);
  CURRENT_FIELD(e32, E32, E32::PLUS);
  CURRENT_FIELD(e16, E16, E16::LOW);
  CURRENT_FIELD(e64, E64, E64::HIGH);
  CURRENT_FIELD(eu64, EU64, EU64::ALL);
};
CURRENT_STRUCT(Opts) {
  CURRENT_FIELD(i, Optional<int32_t>);
  CURRENT_FIELD(b, Optional<bool>);
  CURRENT_FIELD(s, Optional<std::string>);
  CURRENT_FIELD(a, Optional<A>);
  CURRENT_FIELD(d, Optional<double>);
  CURRENT_FIELD(v, Optional<std::vector<int32_t>>);
  CURRENT_FIELD(u, Optional<std::chrono::microseconds>);
};
CURRENT_STRUCT(Vars) {
  CURRENT_FIELD(v, V3);
  CURRENT_FIELD(nv, NV);
  CURRENT_FIELD(vn, VN);
  CURRENT_FIELD(vv, std::vector<V3>);
  CURRENT_FIELD(mv, (std::map<std::string, NV>));
};
using vec8 = std::vector<uint8_t>;
using map_si = std::map<std::string, int32_t>;
using pair_is = std::pair<int32_t, std::string>;
CURRENT_STRUCT(Cont) {
  CURRENT_FIELD(vi, std::vector<int32_t>);
  CURRENT_FIELD(vb, std::vector<bool>);
  CURRENT_FIELD(vs, std::vector<std::string>);
  CURRENT_FIELD(va, std::vector<A>);
  CURRENT_FIELD(vv, std::vector<vec8>);
  CURRENT_FIELD(vo, std::vector<Optional<int32_t>>);
  CURRENT_FIELD(ms, (std::map<std::string, A>));
  CURRENT_FIELD(mi, (std::map<int32_t, std::string>));
  CURRENT_FIELD(mm, (std::map<std::string, map_si>));
  CURRENT_FIELD(me, (std::map<E8, Opts>));
  CURRENT_FIELD(us, (std::unordered_map<std::string, Opts>));
  CURRENT_FIELD(ui, (std::unordered_map<uint16_t, A>));
  CURRENT_FIELD(ss, std::set<std::string>);
  CURRENT_FIELD(si, std::set<int64_t>);
  CURRENT_FIELD(usi, std::unordered_set<int32_t>);
  CURRENT_FIELD(p, (std::pair<std::string, A>));
  CURRENT_FIELD(pp, (std::pair<bool, pair_is>));
  CURRENT_FIELD(t, (std::tuple<int32_t, std::string, bool>));
  CURRENT_FIELD(ar, (std::array<uint16_t, 3>));
};
CURRENT_STRUCT_T(Tmpl) {
  CURRENT_FIELD(t, T);
  CURRENT_FIELD(o, Optional<T>);
};
CURRENT_STRUCT(Derived, Prim) {
  CURRENT_FIELD(opts, Opts);
  CURRENT_FIELD(tb, Tmpl<B>);
  CURRENT_FIELD(ti, Tmpl<uint64_t>);
};
CURRENT_STRUCT(All) {
  CURRENT_FIELD(prim, Prim);
  CURRENT_FIELD(cont, Cont);
  CURRENT_FIELD(vars, Vars);
  CURRENT_FIELD(der, Derived);
  CURRENT_FIELD(e, Empty);
};

// The fields, in order. Not via reflection, as reflection is a part of what is being tested.
template <typename T> struct Fields;
template <typename T> struct is_struct : std::false_type {};
#define F(n) f(#n, x.n...)
#define FIELDS(T, ...)                                                       \
  template <> struct is_struct<T> : std::true_type {};                       \
  template <> struct Fields<T> {                                             \
    template <typename G, typename... X> static void Each(G&& f, X&... x) { __VA_ARGS__ } \
  };
FIELDS(A, F(x); F(s);)
FIELDS(B, F(x); F(s); F(y);)
FIELDS(Empty, (void)f;)
FIELDS(Prim, F(b); F(u8); F(u16); F(u32); F(u64); F(i8); F(i16); F(i32); F(i64); F(c); F(s); F(f); F(d); F(us); F(ms); F(e8); F(e32); F(e16); F(e64); F(eu64);)
FIELDS(Opts, F(i); F(b); F(s); F(a); F(d); F(v); F(u);)
FIELDS(Vars, F(v); F(nv); F(vn); F(vv); F(mv);)
FIELDS(Cont, F(vi); F(vb); F(vs); F(va); F(vv); F(vo); F(ms); F(mi); F(mm); F(me); F(us); F(ui); F(ss); F(si); F(usi); F(p); F(pp); F(t); F(ar);)
FIELDS(Tmpl<B>, F(t); F(o);)
FIELDS(Tmpl<uint64_t>, F(t); F(o);)
FIELDS(Derived, F(b); F(u8); F(u16); F(u32); F(u64); F(i8); F(i16); F(i32); F(i64); F(c); F(s); F(f); F(d); F(us); F(ms); F(e8); F(e32); F(e16); F(e64); F(eu64); F(opts); F(tb); F(ti);)
FIELDS(All, F(prim); F(cont); F(vars); F(der); F(e);)
#undef F

enum { CURRENT_FMT, MINIMALISTIC, JAVASCRIPT, FSHARP };
struct Reject {};

template <typename T, typename = void> struct Ref;  // Gen, Emit<FMT>, Load<FMT>, Dump.

template <typename T> struct Ref<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> {
  static void Gen(vh::Rng& r, T& x, int) {
    const T pool[] = {0, 1, std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), static_cast<T>(-1), 42};
    x = r.chance(60) ? pool[r.below(6)] : static_cast<T>(r.next());
  }
  static std::string Text(T x) {
    return std::is_signed_v<T> ? std::to_string(static_cast<long long>(x)) : std::to_string(static_cast<unsigned long long>(x));
  }
  template <int FMT> static bool Emit(const T& x, JV& j) {
    j.t = '#';
    j.s = Text(x);
    return true;
  }
  template <int FMT> static void Load(const JV* j, T& x) {
    if (!j || j->t != '#' || j->s.find_first_of(".eE") != std::string::npos) throw Reject();
    errno = 0;
    const bool neg = j->s[0] == '-';
    if (std::is_signed_v<T>) {
      const long long v = strtoll(j->s.c_str(), nullptr, 10);
      if (errno || v < static_cast<long long>(std::numeric_limits<T>::min()) || v > static_cast<long long>(std::numeric_limits<T>::max())) throw Reject();
      x = static_cast<T>(v);
    } else {
      if (neg && j->s != "-0") throw Reject();
      const unsigned long long v = strtoull(j->s.c_str() + neg, nullptr, 10);
      if (errno || v > static_cast<unsigned long long>(std::numeric_limits<T>::max())) throw Reject();
      x = static_cast<T>(v);
    }
  }
  static void Dump(const T& x, std::string& o) { o += Text(x) + ';'; }
};
template <> struct Ref<bool> {
  static void Gen(vh::Rng& r, bool& x, int) { x = r.chance(50); }
  template <int FMT> static bool Emit(const bool& x, JV& j) {
    j.t = x ? 't' : 'f';
    return true;
  }
  template <int FMT> static void Load(const JV* j, bool& x) {
    if (!j || (j->t != 't' && j->t != 'f')) throw Reject();
    x = j->t == 't';
  }
  static void Dump(const bool& x, std::string& o) { o += x ? "t;" : "f;"; }
};
template <typename T> struct Ref<T, std::enable_if_t<std::is_floating_point_v<T>>> {
  static void Gen(vh::Rng& r, T& x, int) {
    if (sizeof(T) == 8) {
      x = static_cast<T>(TamedDouble(r));
    } else {
      while (true) {
        const uint32_t b = static_cast<uint32_t>(r.next());
        std::memcpy(&x, &b, 4);
        if (std::isfinite(x)) break;
      }
    }
  }
  template <int FMT> static bool Emit(const T& x, JV& j) {
    j.t = 'D';
    j.d = x;
    return true;
  }
  template <int FMT> static void Load(const JV* j, T& x) {
    if (!j || j->t != '#') throw Reject();
    // "-0" is an integer, thus a positive zero.
    x = j->s == "-0" ? 0 : static_cast<T>(std::strtod(j->s.c_str(), nullptr));
  }
  static void Dump(const T& x, std::string& o) {
    char b[64];
    snprintf(b, sizeof(b), "%a;", static_cast<double>(x));
    o += b;
  }
};
template <typename T> struct Ref<T, std::enable_if_t<std::is_enum_v<T>>> {
  using U = std::underlying_type_t<T>;
  static void Gen(vh::Rng& r, T& x, int d) {
    U u;
    Ref<U>::Gen(r, u, d);
    x = static_cast<T>(u);
  }
  template <int FMT> static bool Emit(const T& x, JV& j) { return Ref<U>::template Emit<FMT>(static_cast<U>(x), j); }
  template <int FMT> static void Load(const JV* j, T& x) {
    U u;
    Ref<U>::template Load<FMT>(j, u);
    x = static_cast<T>(u);
  }
  static void Dump(const T& x, std::string& o) { Ref<U>::Dump(static_cast<U>(x), o); }
};
template <typename R, typename P> struct Ref<std::chrono::duration<R, P>> {
  using T = std::chrono::duration<R, P>;
  static void Gen(vh::Rng& r, T& x, int d) {
    int64_t u;
    Ref<int64_t>::Gen(r, u, d);
    x = T(u);
  }
  template <int FMT> static bool Emit(const T& x, JV& j) { return Ref<int64_t>::Emit<FMT>(x.count(), j); }
  template <int FMT> static void Load(const JV* j, T& x) {
    int64_t u;
    Ref<int64_t>::Load<FMT>(j, u);
    x = T(u);
  }
  static void Dump(const T& x, std::string& o) { Ref<int64_t>::Dump(x.count(), o); }
};
template <> struct Ref<std::string> {
  static void Gen(vh::Rng& r, std::string& x, int) { x = RandomString(r); }
  template <int FMT> static bool Emit(const std::string& x, JV& j) {
    j.t = '"';
    j.s = x;
    return true;
  }
  template <int FMT> static void Load(const JV* j, std::string& x) {
    if (!j || j->t != '"') throw Reject();
    x = j->s;
  }
  static void Dump(const std::string& x, std::string& o) { o += std::to_string(x.size()) + ':' + x; }
};
template <typename T> struct Ref<T, std::enable_if_t<is_struct<T>::value>> {
  static void Gen(vh::Rng& r, T& x, int d) {
    Fields<T>::Each([&](const char*, auto& f) { Ref<std::decay_t<decltype(f)>>::Gen(r, f, d + 1); }, x);
  }
  template <int FMT> static bool Emit(const T& x, JV& j) {
    j.t = '{';
    Fields<T>::Each(
        [&](const char* n, const auto& f) {
          JV v;
          if (Ref<std::decay_t<decltype(f)>>::template Emit<FMT>(f, v)) j.o.emplace_back(n, std::move(v));
        },
        x);
    return true;
  }
  template <int FMT> static void Load(const JV* j, T& x) {
    if (!j || j->t != '{') throw Reject();
    Fields<T>::Each([&](const char* n, auto& f) { Ref<std::decay_t<decltype(f)>>::template Load<FMT>(j->Find(n), f); }, x);
  }
  static void Dump(const T& x, std::string& o) {
    o += '{';
    Fields<T>::Each([&](const char* n, const auto& f) { o += n; Ref<std::decay_t<decltype(f)>>::Dump(f, o); }, x);
    o += '}';
  }
};
template <typename T> struct Ref<Optional<T>> {
  static void Gen(vh::Rng& r, Optional<T>& x, int d) {
    if (r.chance(50)) {
      T t;
      Ref<T>::Gen(r, t, d + 1);
      x = t;
    } else {
      x = nullptr;
    }
  }
  template <int FMT> static bool Emit(const Optional<T>& x, JV& j) {
    if (!Exists(x)) {
      j = JV();
      return FMT == CURRENT_FMT || FMT == JAVASCRIPT;
    }
    if (FMT != FSHARP) return Ref<T>::template Emit<FMT>(Value(x), j);
    JV inner, cs, fields;
    Ref<T>::template Emit<FMT>(Value(x), inner);
    cs.t = '"';
    cs.s = "Some";
    fields.t = '[';
    fields.a.push_back(inner);
    j.t = '{';
    j.o = {{"Case", cs}, {"Fields", fields}};
    return true;
  }
  template <int FMT> static void Load(const JV* j, Optional<T>& x) {
    if (!j || j->t == 'n') {
      x = nullptr;
      return;
    }
    if (FMT != FSHARP) {
      T t = T();
      Ref<T>::template Load<FMT>(j, t);
      x = t;
      return;
    }
    const JV* c = j->t == '{' ? j->Find("Case") : nullptr;
    if (!c || c->t != '"') throw Reject();
    if (c->s.find('\0') != std::string::npos) throw DontCare();
    if (c->s == "None") {
      x = nullptr;
    } else if (c->s == "Some") {
      const JV* f = j->Find("Fields");
      if (!f || f->t != '[' || f->a.size() != 1) throw Reject();
      T t = T();
      Ref<T>::template Load<FMT>(&f->a[0], t);
      x = t;
    } else {
      throw Reject();
    }
  }
  static void Dump(const Optional<T>& x, std::string& o) {
    if (Exists(x)) {
      o += '+';
      Ref<T>::Dump(Value(x), o);
    } else {
      o += "-;";
    }
  }
};
// Elements of a container which are "absent" are nulls.
template <int FMT, typename T> static JV Elem(const T& x) {
  JV v;
  if (!Ref<T>::template Emit<FMT>(x, v)) v = JV();
  return v;
}
template <typename T> struct RefSeq {
  template <int FMT> static bool Emit(const T& x, JV& j) {
    j.t = '[';
    for (const auto& e : x) j.a.push_back(Elem<FMT, typename T::value_type>(e));
    return true;
  }
  static void Dump(const T& x, std::string& o) {
    std::vector<std::string> v;
    for (const auto& e : x) {
      v.emplace_back();
      Ref<typename T::value_type>::Dump(e, v.back());
    }
    o += '[';
    for (const auto& s : v) o += s;
    o += ']';
  }
};
template <typename T> static uint64_t Len(vh::Rng& r, int d) { return d > 4 ? r.below(2) : r.below(r.chance(5) ? 20 : 4); }
template <typename T> struct Ref<std::vector<T>> : RefSeq<std::vector<T>> {
  static void Gen(vh::Rng& r, std::vector<T>& x, int d) {
    x.clear();
    for (uint64_t i = 0, n = Len<T>(r, d); i < n; ++i) {
      T t = T();
      Ref<T>::Gen(r, t, d + 1);
      x.push_back(t);
    }
  }
  template <int FMT> static void Load(const JV* j, std::vector<T>& x) {
    if (!j || j->t != '[') throw Reject();
    x.clear();
    for (const auto& e : j->a) {
      T t = T();
      Ref<T>::template Load<FMT>(&e, t);
      x.push_back(t);
    }
  }
};
template <typename S> struct RefSet : RefSeq<S> {
  using T = typename S::value_type;
  static void Gen(vh::Rng& r, S& x, int d) {
    x.clear();
    for (uint64_t i = 0, n = Len<T>(r, d); i < n; ++i) {
      T t = T();
      Ref<T>::Gen(r, t, d + 1);
      x.insert(t);
    }
  }
  template <int FMT> static void Load(const JV* j, S& x) {
    if (!j || j->t != '[') throw Reject();
    x.clear();
    for (const auto& e : j->a) {
      T t = T();
      Ref<T>::template Load<FMT>(&e, t);
      x.insert(t);
    }
  }
  static void Dump(const S& x, std::string& o) {
    std::set<std::string> v;
    for (const auto& e : x) {
      std::string s;
      Ref<T>::Dump(e, s);
      v.insert(s);
    }
    o += "set" + std::to_string(x.size());
    for (const auto& s : v) o += s;
    o += ']';
  }
};
template <typename T> struct Ref<std::set<T>> : RefSet<std::set<T>> {};
template <typename T> struct Ref<std::unordered_set<T>> : RefSet<std::unordered_set<T>> {};
template <typename M> struct RefMap {
  using K = typename M::key_type;
  using V = typename M::mapped_type;
  static constexpr bool str = std::is_same_v<K, std::string>;
  static void Gen(vh::Rng& r, M& x, int d) {
    x.clear();
    for (uint64_t i = 0, n = Len<K>(r, d); i < n; ++i) {
      K k = K();
      Ref<K>::Gen(r, k, d + 1);
      Ref<V>::Gen(r, x[k], d + 1);
    }
  }
  template <int FMT> static bool Emit(const M& x, JV& j) {
    j.t = str ? '{' : '[';
    for (const auto& e : x) {
      if constexpr (str) {
        j.o.emplace_back(e.first, Elem<FMT, V>(e.second));
      } else {
        JV p;
        p.t = '[';
        p.a.push_back(Elem<FMT, K>(e.first));
        p.a.push_back(Elem<FMT, V>(e.second));
        j.a.push_back(p);
      }
    }
    return true;
  }
  template <int FMT> static void Load(const JV* j, M& x) {
    if (!j || j->t != (str ? '{' : '[')) throw Reject();
    x.clear();
    if constexpr (str) {
      for (const auto& e : j->o) {
        V v = V();
        Ref<V>::template Load<FMT>(&e.second, v);
        x.emplace(e.first, v);
      }
    } else {
      for (const auto& e : j->a) {
        if (e.t != '[' || e.a.size() != 2) throw Reject();
        K k = K();
        V v = V();
        Ref<K>::template Load<FMT>(&e.a[0], k);
        Ref<V>::template Load<FMT>(&e.a[1], v);
        x.emplace(k, v);
      }
    }
  }
  static void Dump(const M& x, std::string& o) {
    std::set<std::string> v;
    for (const auto& e : x) {
      std::string s;
      Ref<K>::Dump(e.first, s);
      s += "=>";
      Ref<V>::Dump(e.second, s);
      v.insert(s);
    }
    o += "map" + std::to_string(x.size());
    for (const auto& s : v) o += s;
    o += ']';
  }
};
template <typename K, typename V> struct Ref<std::map<K, V>> : RefMap<std::map<K, V>> {};
template <typename K, typename V> struct Ref<std::unordered_map<K, V>> : RefMap<std::unordered_map<K, V>> {};
template <typename X, typename Y> struct Ref<std::pair<X, Y>> {
  using T = std::pair<X, Y>;
  static void Gen(vh::Rng& r, T& x, int d) {
    Ref<X>::Gen(r, x.first, d + 1);
    Ref<Y>::Gen(r, x.second, d + 1);
  }
  template <int FMT> static bool Emit(const T& x, JV& j) {
    if (FMT == FSHARP) {
      j.t = '{';
      j.o = {{"Item1", Elem<FMT, X>(x.first)}, {"Item2", Elem<FMT, Y>(x.second)}};
    } else {
      j.t = '[';
      j.a = {Elem<FMT, X>(x.first), Elem<FMT, Y>(x.second)};
    }
    return true;
  }
  template <int FMT> static void Load(const JV* j, T& x) {
    if (!j) throw Reject();
    if (FMT == FSHARP) {
      if (j->t != '{' || !j->Find("Item1") || !j->Find("Item2")) throw Reject();
      Ref<X>::template Load<FMT>(j->Find("Item1"), x.first);
      Ref<Y>::template Load<FMT>(j->Find("Item2"), x.second);
    } else {
      if (j->t != '[' || j->a.size() != 2) throw Reject();
      Ref<X>::template Load<FMT>(&j->a[0], x.first);
      Ref<Y>::template Load<FMT>(&j->a[1], x.second);
    }
  }
  static void Dump(const T& x, std::string& o) {
    o += '(';
    Ref<X>::Dump(x.first, o);
    Ref<Y>::Dump(x.second, o);
    o += ')';
  }
};
template <typename X, typename Y, typename Z> struct Ref<std::tuple<X, Y, Z>> {
  using T = std::tuple<X, Y, Z>;
  static void Gen(vh::Rng& r, T& x, int d) {
    Ref<X>::Gen(r, std::get<0>(x), d);
    Ref<Y>::Gen(r, std::get<1>(x), d);
    Ref<Z>::Gen(r, std::get<2>(x), d);
  }
  template <int FMT> static bool Emit(const T& x, JV& j) {
    j.t = '[';
    j.a = {Elem<FMT, X>(std::get<0>(x)), Elem<FMT, Y>(std::get<1>(x)), Elem<FMT, Z>(std::get<2>(x))};
    return true;
  }
  template <int FMT> static void Load(const JV* j, T& x) {
    if (!j || j->t != '[' || j->a.size() != 3) throw Reject();
    Ref<X>::template Load<FMT>(&j->a[0], std::get<0>(x));
    Ref<Y>::template Load<FMT>(&j->a[1], std::get<1>(x));
    Ref<Z>::template Load<FMT>(&j->a[2], std::get<2>(x));
  }
  static void Dump(const T& x, std::string& o) {
    o += '(';
    Ref<X>::Dump(std::get<0>(x), o);
    Ref<Y>::Dump(std::get<1>(x), o);
    Ref<Z>::Dump(std::get<2>(x), o);
    o += ')';
  }
};
template <typename T, size_t N> struct Ref<std::array<T, N>> : RefSeq<std::array<T, N>> {
  static void Gen(vh::Rng& r, std::array<T, N>& x, int d) {
    for (auto& e : x) Ref<T>::Gen(r, e, d);
  }
  template <int FMT> static void Load(const JV* j, std::array<T, N>& x) {
    if (!j || j->t != '[' || j->a.size() != N) throw Reject();
    for (size_t i = 0; i < N; ++i) Ref<T>::template Load<FMT>(&j->a[i], x[i]);
  }
};

template <typename T> static std::string TypeIdText() {
  return JSON(Value<reflection::ReflectedTypeBase>(reflection::Reflector().template ReflectType<T>()).type_id);
}
template <typename T> struct CaseName { static std::string Get() { return reflection::CurrentTypeName<T, reflection::NameFormat::Z>(); } };
template <> struct CaseName<A> { static std::string Get() { return "A"; } };
template <> struct CaseName<B> { static std::string Get() { return "B"; } };
template <> struct CaseName<Empty> { static std::string Get() { return "Empty"; } };
template <> struct CaseName<NV> { static std::string Get() { return "NV"; } };

static bool& AllowUninitialized() {
  static bool b = false;
  return b;
}
template <typename T> struct is_variant : std::false_type {};
template <typename V, typename... TS> struct RefVariant {
  static void Gen(vh::Rng& r, V& x, int d) {
    if (AllowUninitialized() && r.chance(10)) {
      x = nullptr;
      return;
    }
    const uint64_t pick = r.below(sizeof...(TS));
    uint64_t i = 0;
    auto one = [&](auto* p) {
      using X = std::decay_t<decltype(*p)>;
      if (i++ == pick) {
        X v;
        Ref<X>::Gen(r, v, d + 1);
        x = std::move(v);
      }
    };
    (one(static_cast<TS*>(nullptr)), ...);
  }
  struct Emitter {
    JV& j;
    int fmt;
    template <typename X> void operator()(const X& x) {
      JV v, name;
      switch (fmt) {
        case CURRENT_FMT: Ref<X>::template Emit<CURRENT_FMT>(x, v); break;
        case MINIMALISTIC: Ref<X>::template Emit<MINIMALISTIC>(x, v); break;
        case JAVASCRIPT: Ref<X>::template Emit<JAVASCRIPT>(x, v); break;
        default: Ref<X>::template Emit<FSHARP>(x, v); break;
      }
      name.t = '"';
      name.s = CaseName<X>::Get();
      j.t = '{';
      if (fmt == FSHARP) {
        j.o = {{"Case", name}};
        if (!std::is_same_v<X, Empty>) {
          JV f;
          f.t = '[';
          f.a.push_back(v);
          j.o.emplace_back("Fields", f);
        }
      } else {
        j.o = {{name.s, v}};
        if (fmt == CURRENT_FMT) {
          JV id;
          id.t = '"';
          id.s = TypeIdText<X>();
          id.s = id.s.substr(1, id.s.size() - 2);
          j.o.emplace_back("", id);
        }
        if (fmt == JAVASCRIPT) j.o.emplace_back("$", name);
      }
    }
  };
  template <int FMT> static bool Emit(const V& x, JV& j) {
    if (!Exists(x)) {
      j = JV();
      return FMT == CURRENT_FMT || FMT == FSHARP;
    }
    Emitter e{j, FMT};
    x.Call(e);
    return true;
  }
  template <int FMT> static void Load(const JV* j, V& x) {
    if (!j || j->t == 'n') {
      if (FMT == CURRENT_FMT || FMT == FSHARP) throw Reject();
      x = nullptr;
      return;
    }
    if (j->t != '{') throw Reject();
    std::string name, id;
    const JV* body = nullptr;
    if (FMT == CURRENT_FMT) {
      const JV* t = j->Find("");
      if (!t || t->t != '"' || t->s[0] != 'T') throw Reject();
      id = t->s;
    } else if (FMT == FSHARP) {
      const JV* c = j->Find("Case");
      if (!c || c->t != '"') throw Reject();
      name = c->s;
    } else {
      for (const auto& e : j->o) {
        const std::string k = e.first.c_str();
        if (k.size() != e.first.size()) throw DontCare();
        if (k != "" && k != "$") {
          if (body) throw Reject();
          name = k;
          body = &e.second;
        }
      }
      if (!body) throw Reject();
    }
    bool done = false;
    auto one = [&](auto* p) {
      using X = std::decay_t<decltype(*p)>;
      std::string tid = TypeIdText<X>();
      tid = tid.substr(1, tid.size() - 2);
      if (done) return;
      const JV* data = body;
      if (FMT == CURRENT_FMT) {
        if (id != tid) {
          // The numeric parser is lenient.
          if (strtoull(id.c_str() + 1, nullptr, 10) == strtoull(tid.c_str() + 1, nullptr, 10)) throw DontCare();
          return;
        }
        data = j->Find(CaseName<X>::Get());
        if (!data) throw Reject();
      } else {
        if (name != CaseName<X>::Get()) return;
        if (FMT == FSHARP) {
          const JV* f = j->Find("Fields");
          if (f) {
            if (f->t != '[' || f->a.size() != 1) throw Reject();
            data = &f->a[0];
          } else if (std::is_same_v<X, Empty>) {
            x = X();
            done = true;
            return;
          } else {
            throw Reject();
          }
        }
      }
      X v;
      Ref<X>::template Load<FMT>(data, v);
      x = std::move(v);
      done = true;
    };
    (one(static_cast<TS*>(nullptr)), ...);
    if (!done) throw Reject();
  }
  struct Dumper {
    std::string& o;
    template <typename X> void operator()(const X& x) {
      o += CaseName<X>::Get() + ':';
      Ref<X>::Dump(x, o);
    }
  };
  static void Dump(const V& x, std::string& o) {
    if (!Exists(x)) {
      o += "uninitialized;";
    } else {
      Dumper d{o};
      x.Call(d);
    }
  }
};
template <> struct Ref<V3> : RefVariant<V3, A, B, Empty> {};
template <> struct Ref<NV> : RefVariant<NV, A, Empty> {};
template <> struct Ref<VN> : RefVariant<VN, NV, B> {};

template <typename T> static std::string DumpOf(const T& x) {
  std::string s;
  Ref<T>::Dump(x, s);
  return s;
}

template <int FMT> struct Fmt;
template <> struct Fmt<CURRENT_FMT> { using type = JSONFormat::Current; };
template <> struct Fmt<MINIMALISTIC> { using type = JSONFormat::Minimalistic; };
template <> struct Fmt<JAVASCRIPT> { using type = JSONFormat::JavaScript; };
template <> struct Fmt<FSHARP> { using type = JSONFormat::NewtonsoftFSharp; };

// How a text is parsed should be as the reference says.
template <typename T, int FMT> static void CheckParse(const std::string& text, const char* what) {
  using J = typename Fmt<FMT>::type;
  enum { INVALID, REJECTED, OK } want = OK;
  T ref = T();
  try {
    const JV tree = RefParse(text);
    Ref<T>::template Load<FMT>(&tree, ref);
  } catch (Bad&) {
    want = INVALID;
  } catch (Reject&) {
    want = REJECTED;
  } catch (DontCare&) {
    vh::Count("dont_care");
    return;
  }
  vh::Eval();
  vh::Count(want == OK ? "accepted" : want == REJECTED ? "rejected" : "invalid");
  auto detail = [&](const std::string& s) { return std::string(what) + " fmt=" + std::to_string(FMT) + " " + s + " on " + text.substr(0, 400); };
  try {
    const T x = ParseJSON<T, J>(text);
    if (want != OK) {
      vh::Violation("json:accepted", detail(want == INVALID ? "invalid JSON" : "wrong schema"));
    } else {
      const std::string d1 = DumpOf(ref), d2 = DumpOf(x);
      if (d1 != d2) vh::Violation("json:parsed-differently", detail(d2.substr(0, 200)));
    }
  } catch (const InvalidJSONException& e) {
    if (want != INVALID) vh::Violation("json:valid-refused", detail(e.what()));
  } catch (const TypeSystemParseJSONException& e) {
    if (want != REJECTED) vh::Violation(want == OK ? "json:refused" : "json:wrong-exception", detail(e.what()));
  } catch (const std::exception& e) {
    vh::Violation("json:foreign-exception", detail(e.what()));
  }
  try {
    const auto x = TryParseJSON<T, J>(text.c_str());
    if (Exists(x) != (want == OK)) vh::Violation("json:try", detail(""));
  } catch (const std::exception& e) {
    vh::Violation("json:try-throws", detail(e.what()));
  }
}

static bool roundtrips, hostile;  // Which part of it to look at.
template <typename T, int FMT> static void RoundTrip(vh::Rng& r) {
  using J = typename Fmt<FMT>::type;
  AllowUninitialized() = FMT == MINIMALISTIC || FMT == JAVASCRIPT;
  T x;
  Ref<T>::Gen(r, x, 0);
  if (hostile) {
    JV want;
    Ref<T>::template Emit<FMT>(x, want);
    std::string text;
    TextOf(want, nullptr, text);
    for (int i = 0; i < 6; ++i) {
      JV m = want;
      for (uint64_t k = 0, n = 1 + r.below(3); k < n; ++k) Mutate(r, m);
      std::string s;
      TextOf(m, r.chance(20) ? &r : nullptr, s);
      CheckParse<T, FMT>(s, "mutated");
    }
    for (int i = 0; i < 3; ++i) CheckParse<T, FMT>(MutateText(r, text), "text");
    return;
  }
  const std::string dump = DumpOf(x);
  const std::string text = JSON<J>(x);
  auto detail = [&](const std::string& s) { return "fmt=" + std::to_string(FMT) + " " + s + " on " + text.substr(0, 400); };
  vh::Eval();
  vh::Count("round_trips");
  vh::Distinct(vh::hash_str(text));
  JV want, got;
  Ref<T>::template Emit<FMT>(x, want);
  try {
    got = RefParse(text);
    if (!Same(want, got)) {
      std::string w;
      TextOf(want, nullptr, w);
      vh::Violation("json:generated", detail("want " + w.substr(0, 400)));
    }
  } catch (Bad&) {
    vh::Violation("json:generated-invalid", detail(""));
    return;
  } catch (DontCare&) {
    vh::Count("dont_care");
  }
  if (text.find('\0') != std::string::npos) vh::Violation("json:zero-byte", detail(""));
  auto same = [&](const char* how, const T& y) {
    const std::string d = DumpOf(y);
    if (d != dump) vh::Violation(std::string("json:round-trip:") + how, detail(d.substr(0, 200)));
  };
  try {
    same("string", ParseJSON<T, J>(text));
    if (JSON<J>(ParseJSON<T, J>(text.c_str())).size() != text.size()) vh::Violation("json:round-trip:text", detail(""));
    // Into something that is not empty, in every way.
    T dirty[4];
    for (auto& d : dirty) {
      Ref<T>::Gen(r, d, 0);
    }
    ParseJSON<T, J>(text, dirty[0]);
    same("into", dirty[0]);
    ParseJSON<T, J>(text.c_str(), dirty[1]);
    same("into-c-str", dirty[1]);
    ParseJSON<T, J>(strings::Chunk(text), dirty[2]);
    same("into-chunk", dirty[2]);
    same("chunk", ParseJSON<T, J>(strings::Chunk(text)));
    const auto t = TryParseJSON<T, J>(text);
    VH_CHECK(Exists(t), "json:round-trip:try", detail(""));
    if (Exists(t)) same("try", Value(t));
    if (FMT == CURRENT_FMT) {
      // Formats are compatible this way.
      same("current-as-minimalistic", ParseJSON<T, JSONFormat::Minimalistic>(text));
      same("current-as-javascript", ParseJSON<T, JSONFormat::JavaScript>(text));
    } else if (FMT == JAVASCRIPT) {
      same("javascript-as-minimalistic", ParseJSON<T, JSONFormat::Minimalistic>(text));
    } else if (FMT == MINIMALISTIC) {
      same("minimalistic-as-javascript", ParseJSON<T, JSONFormat::JavaScript>(text));
    }
    T copy = x;
    same("copy", copy);
    T moved = std::move(copy);
    same("move", moved);
  } catch (const std::exception& e) {
    vh::Violation("json:round-trip:throws", detail(e.what()));
  }
  // Rewritten, but the same.
  std::string rewritten;
  TextOf(want, &r, rewritten);
  CheckParse<T, FMT>(rewritten, "rewritten");
}

// A random patch for `x` (of fields and values of `y`), and what it results in.
template <typename T> static void MakePatch(vh::Rng& r, T& x, T& y, JV& j) {
  j.t = '{';
  Fields<T>::Each(
      [&](const char* n, auto& fx, auto& fy) {
        using X = std::decay_t<decltype(fx)>;
        if (r.chance(60)) return;
        JV v;
        if constexpr (is_struct<X>::value) {
          if (r.chance(70)) {
            MakePatch(r, fx, fy, v);
            j.o.emplace_back(n, v);
            return;
          }
        }
        Ref<X>::template Emit<CURRENT_FMT>(fy, v);
        fx = fy;
        j.o.emplace_back(n, v);
      },
      x, y);
}

template <typename T> static void PatchCase(vh::Rng& r) {
  AllowUninitialized() = false;
  T x, y;
  Ref<T>::Gen(r, x, 0);
  Ref<T>::Gen(r, y, 0);
  T want = x;
  JV j;
  MakePatch(r, want, y, j);
  for (uint64_t i = 0, n = r.below(3); i < n; ++i) j.o.insert(j.o.begin() + r.below(j.o.size() + 1), {"no such field", RandomJV(r, 1)});
  std::string text;
  TextOf(j, &r, text);
  vh::Eval();
  vh::Count("patches");
  T a = x, b = x, c = x;
  try {
    PatchObjectWithJSON(a, text);
    PatchObjectWithJSON(b, text.c_str());
    PatchObjectWithJSON(c, strings::Chunk(text));
    const std::string w = DumpOf(want);
    for (const T* p : {&a, &b, &c}) {
      const std::string d = DumpOf(*p);
      if (d != w) {
        size_t at = 0;
        while (at < d.size() && at < w.size() && d[at] == w[at]) ++at;
        const size_t from = at < 60 ? 0 : at - 60;
        vh::Violation("json:patch", "is " + d.substr(from, 200) + "; must be " + w.substr(from, 200) + "; patch " + text.substr(0, 1000));
      }
    }
  } catch (const std::exception& e) {
    vh::Violation("json:patch-throws", std::string(e.what()).substr(0, 300) + " on " + text.substr(0, 300));
  }
  // A wrong patch is refused.
  JV m = j;
  Mutate(r, m);
  std::string s;
  TextOf(m, nullptr, s);
  try {
    PatchObjectWithJSON(a, s);
    vh::Count("mutated_patches_accepted");
  } catch (const TypeSystemParseJSONException&) {
    vh::Count("mutated_patches_refused");
  } catch (const std::exception& e) {
    vh::Violation("json:patch-foreign-exception", std::string(e.what()).substr(0, 300) + " on " + s.substr(0, 300));
  }
}

static void NotRepresentable(vh::Rng& r) {
  const double bad[] = {std::nan(""), INFINITY, -INFINITY};
  const double d = bad[r.below(3)];
  auto check = [&](const auto& x) {
    vh::Eval();
    try {
      const std::string s = JSON(x);
      vh::Violation("json:nan", s);
    } catch (const current::Exception&) {
      vh::Count("not_representable");
    }
  };
  check(d);
  check(static_cast<float>(d));
  Prim p;
  p.d = d;
  check(p);
  B b;
  b.y = d;
  check(b);
  Vars v;
  v.v = b;
  v.nv = A();
  v.vn = b;
  check(v);
  Opts o;
  o.d = d;
  check(std::vector<Opts>({Opts(), o}));
  Optional<double> od(d);
  check(od);
}

template <typename T> static void AllFormats(vh::Rng& r) {
  RoundTrip<T, CURRENT_FMT>(r);
  RoundTrip<T, MINIMALISTIC>(r);
  RoundTrip<T, JAVASCRIPT>(r);
  RoundTrip<T, FSHARP>(r);
}

template <typename T> static void Bomb(const std::string& text, bool valid) {
  vh::Eval();
  vh::Count("bombs");
  try {
    ParseJSON<T>(text);
    vh::Violation("json:bomb", "accepted " + text.substr(0, 40));
  } catch (const InvalidJSONException&) {
    VH_CHECK(!valid, "json:bomb-valid-refused", text.substr(0, 40));
  } catch (const TypeSystemParseJSONException&) {
    VH_CHECK(valid, "json:bomb-invalid", text.substr(0, 40));
  }
}
static std::string Repeat(const std::string& s, size_t n) {
  std::string r;
  r.reserve(s.size() * n);
  while (n--) r += s;
  return r;
}
static void Bombs() {
  for (size_t n : {1ul, 10ul, 500ul, 1000ul, 1001ul, 5000ul, 100000ul, 2000000ul}) {
    vh::CaseDurable("nesting " + std::to_string(n));
    Bomb<int32_t>(Repeat("[", n), false);
    Bomb<A>(Repeat("{\"x\":", n), false);
    Bomb<All>(Repeat("{\"prim\":", n), false);
    Bomb<A>(Repeat("[", n) + Repeat("]", n), n <= 1000);
    Bomb<Vars>(Repeat("{\"v\":", n) + "1" + Repeat("}", n), n <= 1000);
    Bomb<A>(Repeat("{\"x\":[", n) + Repeat("]}", n), n * 2 <= 1000);
    // Not nested.
    const auto v = ParseJSON<std::vector<std::string>>("[\"" + Repeat("[{\\\"", n) + "\"" + Repeat(",\"[\"", n) + "]");
    VH_CHECK(v.size() == n + 1 && v[0].size() == 3 * n, "json:wide", std::to_string(n));
  }
}

static void TypedCase(vh::Rng& r) {
  switch (r.below(roundtrips ? 9 : 7)) {
    case 0: AllFormats<Prim>(r); break;
    case 1: AllFormats<Opts>(r); break;
    case 2: AllFormats<Vars>(r); break;
    case 3: AllFormats<Cont>(r); break;
    case 4: AllFormats<Derived>(r); break;
    case 5: AllFormats<All>(r); break;
    case 6:
      RoundTrip<std::vector<std::string>, CURRENT_FMT>(r);
      RoundTrip<int8_t, MINIMALISTIC>(r);
      RoundTrip<uint64_t, CURRENT_FMT>(r);
      RoundTrip<std::string, JAVASCRIPT>(r);
      RoundTrip<double, CURRENT_FMT>(r);
      RoundTrip<float, FSHARP>(r);
      RoundTrip<bool, CURRENT_FMT>(r);
      break;
    case 7: NotRepresentable(r); break;
    default:
      for (int i = 0; i < 200; ++i) {
        const double d = RandomDouble(r);
        const std::string s = JSON(d);
        const double e = ParseJSON<double>(s);
        vh::Eval();
        VH_CHECK(std::memcmp(&d, &e, 8) == 0 && std::strtod(s.c_str(), nullptr) == d, "json:double", s);
      }
  }
}
static void SomePatch(vh::Rng& r) {
  switch (r.below(4)) {
    case 0: PatchCase<All>(r); break;
    case 1: PatchCase<Cont>(r); break;
    case 2: PatchCase<Derived>(r); break;
    default: PatchCase<Vars>(r); PatchCase<Opts>(r); PatchCase<Prim>(r);
  }
}
#endif

#if PARTS & 2
using namespace current::json;
// What the universal parser should make of a document: numbers are doubles, and the first one of same keys stays.
static JV Normalize(const JV& v) {
  JV r;
  r.t = v.t;
  if (v.t == '#') {
    r.t = 'D';
    r.d = v.s == "-0" ? 0.0 : std::strtod(v.s.c_str(), nullptr);
    if (r.d == 0) r.d = 0;  // The sign of zero is not kept.
  } else {
    r.s = v.s;
  }
  for (const auto& e : v.a) r.a.push_back(Normalize(e));
  for (const auto& e : v.o) {
    if (!r.Find(e.first)) r.o.emplace_back(e.first, Normalize(e.second));
  }
  return r;
}
static JV RandomDoc(vh::Rng& r, int depth) {
  JV v;
  switch (depth > 4 ? r.below(4) : r.below(8)) {
    case 0: return RandomJV(r, 3);
    case 1:
      v.t = 'D';
      v.d = TamedDouble(r);
      return v;
    case 2:
    case 3: v.t = '"'; v.s = RandomString(r); return v;
    case 4:
    case 5:
      v.t = '[';
      for (uint64_t i = 0, n = r.below(6); i < n; ++i) v.a.push_back(RandomDoc(r, depth + 1));
      return v;
    default:
      v.t = '{';
      for (uint64_t i = 0, n = r.below(6); i < n; ++i) v.o.emplace_back(RandomString(r), RandomDoc(r, depth + 1));
      return v;
  }
}
static void CheckUniversal(const std::string& text) {
  // Unlike the typed one, it takes strings with zero bytes; which are never valid outside of a string.
  JV want;
  bool valid = true;
  if (text.find('\0') != std::string::npos) return;
  try {
    want = Normalize(RefParse(text));
  } catch (Bad&) {
    valid = false;
  } catch (DontCare&) {
    return;
  }
  vh::Eval();
  vh::Count(valid ? "universal_valid" : "universal_invalid");
  try {
    const JSONValue v = ParseJSONUniversally(text);
    if (!valid) {
      vh::Violation("universal:accepted", text.substr(0, 300));
      return;
    }
    const std::string out = AsJSON(v);
    const JV got = Normalize(RefParse(out));
    VH_CHECK(Same(want, got), "universal:differs", text.substr(0, 300) + " -> " + out.substr(0, 300));
    const JSONValue copy = v;
    VH_CHECK(AsJSON(copy) == out && AsJSON(ParseJSONUniversally(out)) == out, "universal:unstable", out.substr(0, 300));
    vh::Distinct(vh::hash_str(out));
  } catch (const TypeSystemParseJSONException& e) {
    VH_CHECK(!valid, "universal:refused", text.substr(0, 300));
  } catch (Bad&) {
    vh::Violation("universal:generated-invalid", text.substr(0, 300));
  } catch (DontCare&) {
  } catch (const std::exception& e) {
    vh::Violation("universal:foreign-exception", e.what());
  }
}
static void UniversalCase(vh::Rng& r) {
  JV doc = RandomDoc(r, 0);
  std::string text;
  TextOf(doc, r.chance(50) ? &r : nullptr, text);
  CheckUniversal(text);
  for (int i = 0; i < 3; ++i) {
    JV m = doc;
    Mutate(r, m);
    std::string s;
    TextOf(m, nullptr, s);
    CheckUniversal(s);
    CheckUniversal(MutateText(r, text));
  }
  // The object as a container.
  JSONObject o;
  std::vector<std::pair<std::string, double>> model;
  for (int i = 0, n = static_cast<int>(r.below(30)); i < n; ++i) {
    const std::string k = r.chance(80) ? "k" + std::to_string(r.below(5)) : RandomString(r);
    const auto it = std::find_if(model.begin(), model.end(), [&](const auto& e) { return e.first == k; });
    if (r.chance(70)) {
      const double d = static_cast<double>(r.below(1000));
      o.push_back(k, JSONNumber(d));
      if (it != model.end()) model.erase(it);
      model.emplace_back(k, d);
    } else {
      o.erase(k);
      if (it != model.end()) model.erase(it);
    }
    vh::Eval();
    bool ok = o.size() == model.size() && o.empty() == model.empty();
    size_t p = 0;
    for (const auto& e : o) {
      ok = ok && p < model.size() && e.key == model[p].first && Value<JSONNumber>(e.value).number == model[p].second;
      ++p;
    }
    ok = ok && p == model.size();
    for (int q = 0; q < 5; ++q) {
      const std::string kk = "k" + std::to_string(q);
      const bool has = std::any_of(model.begin(), model.end(), [&](const auto& e) { return e.first == kk; });
      ok = ok && o.HasKey(kk) == has && Exists<JSONNull>(o[kk]) != has;
    }
    VH_CHECK(ok, "universal:object", AsJSON(o));
  }
}
static void UniversalBombs() {
  for (size_t n : {1ul, 10ul, 500ul, 1000ul, 1001ul, 5000ul, 100000ul, 2000000ul}) {
    vh::CaseDurable("universal nesting " + std::to_string(n));
    for (int k = 0; k < 4; ++k) {
      std::string s;
      for (size_t i = 0; i < n; ++i) s += k & 1 ? "[" : "{\"a\":";
      if (k & 2) {
        s += "1";
        for (size_t i = 0; i < n; ++i) s += k & 1 ? "]" : "}";
      }
      vh::Eval();
      vh::Count("bombs");
      const bool valid = (k & 2) && n <= 1000;
      try {
        const std::string out = AsJSON(ParseJSONUniversally(s));
        VH_CHECK(valid && out == s, "universal:bomb", std::to_string(n));
      } catch (const TypeSystemParseJSONException&) {
        VH_CHECK(!valid, "universal:bomb-refused", std::to_string(n));
      }
    }
  }
}
#endif

int main(int argc, char** argv) {
  return vh::Main(argc, argv, [] {
    auto& o = vh::opt();
    vh::Rng seed(o.seed * 1000003 + o.shard * 7919 + vh::hash_str(o.mode));
#if PARTS & 1
    roundtrips = o.mode == "round-trip";
    hostile = o.mode == "hostile";
#endif
    if (o.shard == 0) {
#if PARTS & 1
      if (hostile) Bombs();
#endif
#if PARTS & 2
      if (o.mode == "universal") UniversalBombs();
#endif
    }
    for (uint64_t c = 0; c < o.cases && !vh::TooMany(); ++c) {
      vh::Rng r(seed.next());
      if (c % 16 == 0) vh::Case("case " + std::to_string(c));
#if PARTS & 1
      if (o.mode == "patch") {
        SomePatch(r);
      } else {
        TypedCase(r);
      }
#endif
#if PARTS & 2
      if (o.mode == "universal") UniversalCase(r);
#endif
      vh::Count("cases");
    }
  });
}
