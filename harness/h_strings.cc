// C29: strings and codecs against independent reference implementations.
#include "bricks/strings/strings.h"
#include "bricks/strings/time.h"
#include "bricks/strings/rounding.h"
#include "bricks/strings/regex.h"
#include "bricks/strings/group_by_lines.h"
#include "bricks/util/base64.h"
#include "bricks/util/crc32.h"
#include "bricks/util/sha256.h"
#include "vh.h"
#include <cmath>
#include <list>
#include <set>

using namespace current::strings;
typedef std::vector<std::string> VS;
typedef std::vector<std::pair<std::string, std::string>> VP;

static std::string Q(const std::string& s) {
  std::string r = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c >= 32 && c < 127 && c != '"' && c != '\\') r += c;
    else snprintf(b, sizeof b, "\\x%02x", c), r += b;
  }
  return r + "\"";
}
static std::string Q(const VS& v) {
  std::string r = "[";
  for (auto& s : v) r += Q(s) + ",";
  return r + "]";
}
static std::string RandomFrom(vh::Rng& r, const std::string& alphabet, size_t max_len) {
  std::string s(r.below(max_len + 1), 0);
  for (auto& c : s) c = alphabet[r.below(alphabet.size())];
  return s;
}
static std::string Bytes(vh::Rng& r, size_t max_len) {
  std::string s(r.below(max_len + 1), 0);
  for (auto& c : s) c = static_cast<char>(r.next());
  return s;
}
static VS RefSplit(const std::string& s, std::function<bool(char)> sep, bool keep) {
  VS out;
  std::string cur;
  for (char c : s) {
    if (sep(c)) {
      if (keep || !cur.empty()) out.push_back(cur);
      cur.clear();
    } else {
      cur += c;
    }
  }
  if (keep || !cur.empty()) out.push_back(cur);
  return out;
}
static bool IsWs(char c) { return c == ' ' || (c >= 9 && c <= 13); }

static void SplitCase(vh::Rng& r) {
  static const std::string alphabets[] = {"ab ,;", std::string("a\0b ,", 5), "ab \t\n\r\v\f", std::string("\x80\xff\0,; ab", 8), ",,;;=ab"};
  const std::string s = RandomFrom(r, alphabets[r.below(5)], r.chance(10) ? 200 : 12);
  const EmptyFields ef = r.chance(50) ? EmptyFields::Keep : EmptyFields::Skip;
  const bool keep = ef == EmptyFields::Keep;
  const int kind = r.below(6);
  VS want;
  auto in = [](const std::string& set) { return [set](char c) { return set.find(c) != std::string::npos; }; };
  std::string setsep = RandomFrom(r, ",; a\n", 3);
  if (kind == 0) want = RefSplit(s, in(","), keep);
  if (kind == 1) want = RefSplit(s, in(",;"), keep);
  if (kind == 2) want = RefSplit(s, in(setsep), keep);
  if (kind == 3) want = RefSplit(s, IsWs, keep);
  if (kind == 4) want = RefSplit(s, in("\r\n"), keep);
  if (kind == 5) want = RefSplit(s, [](char c) { return c == 'a' || c == ','; }, keep);
  const auto f = [](char c) { return c != 'a' && c != ','; };
  const std::string what = "kind " + std::to_string(kind) + " sep " + Q(setsep) + " keep " + std::to_string(keep) + " " + Q(s);
  auto check = [&](const std::string& how, const VS& got, size_t n) {
    VH_CHECK(got == want && n == got.size(), "split:" + how, what + " -> " + Q(got) + " returned " + std::to_string(n) + ", expected " + Q(want));
    vh::Eval();
  };
  auto run = [&](auto&& sep) {
    {
      VS got = Split(std::string(s), sep, static_cast<EmptyFields>(ef));
      check("vector", got, got.size());
    }
    {
      VS got;
      const size_t n = Split(s, sep, [&](std::string&& x) { got.push_back(x); }, ef);
      check("callback", got, n);
    }
    {
      std::string copy = s;
      VS got;
      const size_t n = Split(copy, sep, [&](Chunk x) { 
        VH_CHECK(x.c_str()[x.length()] == 0, "split:chunk_terminated", what);
        got.push_back(x); }, ef);
      check("inplace", got, n);
      VH_CHECK(copy == s, "split:restores", what + " left " + Q(copy));
    }
    {
      std::string copy = s;
      VS got;
      const Chunk whole(copy);
      const size_t n = Split(whole, sep, [&](Chunk x) { got.push_back(x); }, ef);
      check("chunk", got, n);
      VH_CHECK(copy == s, "split:restores", what + " left " + Q(copy));
    }
    {
      std::string copy = s;
      auto chunks = SplitIntoChunks(Chunk(copy), sep, ef);
      VS got;
      for (auto& c : chunks) got.push_back(c);
      check("into_chunks", got, got.size());
      VH_CHECK(copy == s, "split:restores", what + " left " + Q(copy));
    }
    if (s.find('\0') == std::string::npos) {
      VS got;
      const size_t n = Split(s.c_str(), sep, [&](std::string&& x) { got.push_back(x); }, ef);
      check("c_str", got, n);
      std::vector<char> mut(s.c_str(), s.c_str() + s.size() + 1);
      VS got2;
      const size_t n2 = Split(&mut[0], sep, [&](Chunk x) { got2.push_back(x); }, ef);
      check("char*", got2, n2);
      VH_CHECK(std::string(&mut[0]) == s, "split:restores", what);
    }
  };
  if (kind == 0) run(',');
  if (kind == 1) run(",;");
  if (kind == 2) run(setsep);
  if (kind == 3) {
    run(ByWhitespace::UseIsSpace);
    check("<ws>", [&] { VS v; Split<ByWhitespace>(s, [&](const std::string& x) { v.push_back(x); }, ef); return v; }(), want.size());
  }
  if (kind == 4) {
    run(ByLines::Use0Aor0D);
    check("<lines>", [&] { VS v; Split<ByLines>(s, [&](const std::string& x) { v.push_back(x); }, ef); return v; }(), want.size());
  }
  if (kind == 5) run(f);
  // Join is the inverse, where it can be.
  if (kind == 0 && keep) {
    VH_CHECK(Join(want, ',') == s && Join(want, ",") == s && Join(want, std::string(",")) == s, "join:inverse", what);
  }
  vh::Distinct(vh::hash_str(what));
  if (r.chance(1)) vh::Sample(what + " -> " + Q(want));
}

static void JoinCase(vh::Rng& r) {
  VS v;
  for (int n = r.below(6); n > 0; --n) v.push_back(Bytes(r, 5));
  std::string sep = Bytes(r, 3);
  std::string want;
  for (size_t i = 0; i < v.size(); ++i) want += (i ? sep : "") + v[i];
  VH_CHECK(Join(v, sep) == want, "join:vector", Q(v) + Q(sep));
  VH_CHECK(Join(std::list<std::string>(v.begin(), v.end()), sep) == want, "join:list", Q(v) + Q(sep));
  std::set<std::string> set(v.begin(), v.end());
  std::string want_set;
  for (auto& s : set) want_set += (want_set.empty() && s == *set.begin() ? "" : sep) + s;
  VH_CHECK(Join(set, sep) == [&] { std::string w; bool f = true; for (auto& s : set) { if (!f) w += sep; f = false; w += s; } return w; }(), "join:set", Q(v) + Q(sep));
  std::vector<int64_t> nums;
  std::string want_nums;
  for (int n = r.below(6); n > 0; --n) {
    nums.push_back(static_cast<int64_t>(r.next()) >> r.below(64));
    want_nums += (nums.size() > 1 ? "--" : "") + std::to_string(nums.back());
  }
  VH_CHECK(Join(nums, "--") == want_nums, "join:numbers", want_nums);
  std::string want_c;
  for (size_t i = 0; i < v.size(); ++i) want_c += (i ? std::string(1, '\0') : "") + v[i];
  VH_CHECK(Join(v, '\0') == want_c, "join:char", Q(v));
  vh::Eval(5);
}

static void KVCase(vh::Rng& r) {
  const std::string s = RandomFrom(r, "ab12==:: ,", 24);
  VP want;
  bool no_value = false, multiple = false;
  int order = 0;  // Which is thrown first.
  for (auto& f : RefSplit(s, [](char c) { return c == ','; }, false)) {
    VS kv = RefSplit(f, [](char c) { return c == '='; }, false);
    if (kv.size() == 2) want.emplace_back(kv[0], kv[1]);
    else if (kv.size() > 2) multiple = true, order = order ? order : 2;
    else no_value = true, order = order ? order : 1;
  }
  VH_CHECK(SplitIntoKeyValuePairs(s, '=', ',') == want, "kv:silent", Q(s));
  VH_CHECK(SplitIntoKeyValuePairs(s, "=", std::string(",")) == want, "kv:silent", Q(s));
  int got = 0;
  try {
    VH_CHECK(SplitIntoKeyValuePairs(s, '=', ',', KeyValueParsing::Throw) == want, "kv:throw_result", Q(s));
  } catch (const KeyValueNoValueException&) {
    got = 1;
  } catch (const KeyValueMultipleValuesException&) {
    got = 2;
  }
  VH_CHECK(got == order, "kv:throw", Q(s) + " got " + std::to_string(got) + " expected " + std::to_string(order));
  VP want_ws;
  for (auto& f : RefSplit(s, IsWs, false)) {
    VS kv = RefSplit(f, [](char c) { return c == ':'; }, false);
    if (kv.size() == 2) want_ws.emplace_back(kv[0], kv[1]);
  }
  VH_CHECK(SplitIntoKeyValuePairs(s, ':') == want_ws, "kv:ws", Q(s));
  vh::Eval(4);
  vh::Distinct(vh::hash_str("kv" + s));
  (void)no_value, (void)multiple;
}

static void TrimCase(vh::Rng& r) {
  const std::string s = RandomFrom(r, std::string(" \t\n\r\v\fab\0\x80\xff", 11), 10);
  size_t b = 0, e = s.size();
  while (b < e && IsWs(s[b])) ++b;
  while (e > b && IsWs(s[e - 1])) --e;
  const std::string want = s.substr(b, e - b);
  VH_CHECK(Trim(s) == want, "trim", Q(s) + " -> " + Q(Trim(s)));
  VH_CHECK(Trim(s.data(), s.size()) == want, "trim", Q(s));
  std::string lower, upper;
  const std::string t = Bytes(r, 10);
  for (char c : t) lower += c >= 'A' && c <= 'Z' ? c + 32 : c, upper += c >= 'a' && c <= 'z' ? c - 32 : c;
  VH_CHECK(ToLower(t) == lower, "lower", Q(t));
  VH_CHECK(ToUpper(t) == upper, "upper", Q(t));
  // UTF-8 length.
  std::string u;
  size_t n = r.below(8);
  for (size_t i = 0; i < n; ++i) {
    const uint32_t lim[] = {0x80, 0x800, 0x10000, 0x110000};
    const int k = r.below(4);
    uint32_t c = k ? lim[k - 1] + r.below(lim[k] - lim[k - 1]) : 1 + r.below(0x7f);
    if (k == 0) u += c;
    if (k == 1) u += 0xc0 | (c >> 6), u += 0x80 | (c & 63);
    if (k == 2) u += 0xe0 | (c >> 12), u += 0x80 | ((c >> 6) & 63), u += 0x80 | (c & 63);
    if (k == 3) u += 0xf0 | (c >> 18), u += 0x80 | ((c >> 12) & 63), u += 0x80 | ((c >> 6) & 63), u += 0x80 | (c & 63);
  }
  VH_CHECK(UTF8StringLength(u) == n, "utf8", Q(u));
  vh::Eval(5);
}

struct Boom {};
template <class MAKE>
static void GroupCase(vh::Rng& r, MAKE make, bool c_string, bool friendly, const std::string& how) {
  const std::string s = RandomFrom(r, c_string ? std::string("ab\n\n\r \x80") : std::string("ab\n\n\r\0 \x80", 8), r.chance(10) ? 300 : 20);
  VS want = RefSplit(s, [](char c) { return c == '\n'; }, true);
  if (want.back().empty()) want.pop_back();
  VS got;
  const size_t boom_at = r.chance(25) && friendly ? r.below(want.size() + 1) : -1;
  size_t complete = 0;
  bool thrown = false, expect_throw_in_feed = false;
  std::string history;
  {
    auto g = make([&](const std::string& line) {
      if (got.size() == boom_at) {
        got.push_back("boom");
        throw Boom();
      }
      got.push_back(line);
    });
    size_t i = 0;
    while (i < s.size()) {
      const size_t n = 1 + r.below(std::min<size_t>(s.size() - i, 1 + r.below(20)));
      const std::string piece = s.substr(i, n);
      i += n;
      history += Q(piece) + " ";
      for (char c : piece) complete += c == '\n';
      bool threw = false;
      try {
        if (c_string && r.chance(50)) g.Feed(piece.c_str());
        else g.Feed(piece);
      } catch (const Boom&) {
        threw = true;
      }
      VH_CHECK(threw == (!thrown && complete > boom_at), "group:throw:" + how, history);
      thrown = thrown || threw;
      // Everything complete is delivered at once, nothing incomplete is.
      if (!thrown) VH_CHECK(got.size() == complete, "group:prompt:" + how, history + " got " + Q(got));
      else VH_CHECK(got.size() == boom_at + 1, "group:after_throw:" + how, history);
    }
    expect_throw_in_feed = thrown;
    if constexpr (std::is_same_v<decltype(g), ExceptionFriendlyStatefulGroupByLines> || std::is_same_v<decltype(g), ExceptionFriendlyStatefulGroupByLinesCStringProcessing>) {
      VH_CHECK(!g.DebugWasDoneCalled(), "group:done", history);
      if (!thrown) {
        bool threw = false;
        try {
          g.Done();
        } catch (const Boom&) {
          threw = true;
        }
        VH_CHECK(threw == (boom_at == complete && want.size() > complete), "group:done_throw:" + how, history);
        if (threw) expect_throw_in_feed = true;
        bool e1 = false, e2 = false;
        try {
          g.Feed("x\n");
        } catch (const GroupByLinesFeedCaledAfterDone&) {
          e1 = true;
        }
        try {
          g.Done();
        } catch (const GroupByLinesDoneCalledTwice&) {
          e2 = true;
        }
        VH_CHECK(e1 && e2, "group:after_done:" + how, history);
      } else {
        const size_t before = got.size();
        g.Feed("more\nand more");
        VH_CHECK(got.size() == before, "group:ignored:" + how, history);
        // The line which failed is not processed again, nor is what follows it.
        const size_t keep = got.size();
        g.Done();
        VH_CHECK(got.size() == keep, "group:done_after_throw:" + how, history);
        got.resize(keep);
      }
    }
  }
  if (expect_throw_in_feed) {
    want.resize(boom_at);
    want.push_back("boom");
  }
  VH_CHECK(got == want, "group:" + how, history + " -> " + Q(got) + ", expected " + Q(want));
  vh::Eval();
  vh::Distinct(vh::hash_str(how + history));
}
static void Groups(vh::Rng& r) {
  GroupCase(r, [](std::function<void(const std::string&)> f) { return StatefulGroupByLines([f](std::string&& s) { f(s); }); }, false, false, "string");
  GroupCase(r, [](std::function<void(const std::string&)> f) { return CreateStatefulGroupByLines([f](const std::string& s) { f(s); }); }, false, false, "create");
  GroupCase(r, [](std::function<void(const std::string&)> f) { return CreateStatefulGroupByLines([f](const char* s) { f(s); }); }, true, false, "c_string");
  GroupCase(r, [](std::function<void(const std::string&)> f) { return CreateExceptionFriendlyStatefulGroupByLines([f](std::string&& s) { f(s); }); }, false, true, "friendly");
  GroupCase(r, [](std::function<void(const std::string&)> f) { return CreateExceptionFriendlyStatefulGroupByLines([f](const char* s) { f(s); }); }, true, true, "friendly_c");
}

static size_t RefDistance(const std::string& a, const std::string& b) {
  std::vector<size_t> p(b.size() + 1), c(b.size() + 1);
  for (size_t j = 0; j <= b.size(); ++j) p[j] = j;
  for (size_t i = 1; i <= a.size(); ++i) {
    c[0] = i;
    for (size_t j = 1; j <= b.size(); ++j) c[j] = std::min(std::min(p[j], c[j - 1]) + 1, p[j - 1] + (a[i - 1] != b[j - 1]));
    std::swap(p, c);
  }
  return p[b.size()];
}
static void DistanceCase(vh::Rng& r) {
  const std::string abc = r.chance(50) ? "ab" : "abcdefgh";
  std::string a = RandomFrom(r, abc, 14), b = RandomFrom(r, abc, 14);
  if (r.chance(50)) {
    b = a;
    for (int k = r.below(4); k > 0; --k) {
      const size_t p = r.below(b.size() + 1);
      if (r.chance(50)) b.insert(p, 1, abc[r.below(abc.size())]);
      else if (p < b.size()) b.erase(p, 1);
    }
  }
  const size_t want = RefDistance(a, b);
  VH_CHECK(SlowEditDistance(a, b) == want, "distance:slow", Q(a) + Q(b));
  const size_t off = r.below(6);
  const size_t fast = FastEditDistance(a, b, off);
  VH_CHECK(want <= off ? fast == want : fast > off && fast >= want, "distance:fast", Q(a) + Q(b) + " " + std::to_string(off) + " -> " + std::to_string(fast) + ", distance " + std::to_string(want));
  vh::Eval(2);
  vh::Distinct(vh::hash_str(a + "|" + b) + off);
}

static void RoundCase(vh::Rng& r) {
  double v;
  const int k = r.below(5);
  const size_t n = 1 + r.below(15);
  if (k == 0) v = r.unit() * std::pow(10.0, r.range(-15, 20));
  else if (k == 1) v = std::pow(10.0, r.range(-15, 17)) * (1 + r.range(-3, 3) * std::pow(10.0, -r.range(1, 15)));
  else if (k == 2) v = static_cast<double>(r.below(100000)) / std::pow(10.0, r.below(6));
  else if (k == 3) v = 1 - std::pow(10.0, -r.range(1, 15));
  else v = static_cast<double>(r.below(1000));
  if (r.chance(30)) v = -v;
  const bool plus = r.chance(30);
  char info[100];
  const std::string got = RoundDoubleToString(v, n, plus);
  snprintf(info, sizeof info, "%.17g to %d digits%s -> ", v, int(n), plus ? " with sign" : "");
  const std::string d = info + got;
  vh::Eval();
  vh::Distinct(vh::hash_str(d));
  if (std::fabs(v) < 1e-16) {
    VH_CHECK(got == "0", "round:zero", d);
    return;
  }
  // Shape: a sign where due, one leading zero only if below one, no trailing zeros past the dot, no exponent.
  std::string u = got;
  VH_CHECK((u[0] == '-') == (v < 0) && (u[0] == '+') == (v > 0 && plus), "round:sign", d);
  if (u[0] == '-' || u[0] == '+') u = u.substr(1);
  const size_t dot = u.find('.');
  const std::string ip = u.substr(0, dot), fp = dot == std::string::npos ? "" : u.substr(dot + 1);
  bool ok = !ip.empty() && ip.find_first_not_of("0123456789") == std::string::npos && fp.find_first_not_of("0123456789") == std::string::npos;
  ok = ok && (dot == std::string::npos || !fp.empty()) && (ip.size() == 1 || ip[0] != '0') && (fp.empty() || fp.back() != '0');
  VH_CHECK(ok, "round:shape", d);
  if (!ok) return;
  // Not more than n significant digits.
  std::string digits = ip + fp;
  digits.erase(0, std::min(digits.find_first_not_of('0'), digits.size()));
  while (!digits.empty() && digits.back() == '0') digits.pop_back();
  VH_CHECK(!digits.empty() && digits.size() <= n, "round:digits", d);
  // The nearest such number (ties and the last couple of bits either way).
  const long double got_v = strtold(u.c_str(), nullptr), val = std::fabs(static_cast<long double>(v));
  const int e = static_cast<int>(std::floor(std::log10(val)));
  const long double ulp = std::pow(10.0L, e - static_cast<int>(n) + 1);
  VH_CHECK(std::fabs(got_v - val) <= ulp * 0.5L + val * 2e-15L, "round:value", d);
}

enum class E8 : uint8_t {};
enum class EI8 : int8_t {};
enum class E32 : int32_t {};
enum class EB : bool { F, T };
template <typename T>
static void NumRT(vh::Rng& r, const char* name) {
  const T x = static_cast<T>(r.chance(30) ? (r.chance(50) ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min()) : static_cast<T>(r.next() >> r.below(64)));
  const std::string s = current::ToString(x);
  VH_CHECK(s == std::to_string(x), std::string("tostring:") + name, s);
  VH_CHECK(current::FromString<T>(s) == x, std::string("fromstring:") + name, s + " -> " + std::to_string(current::FromString<T>(s)));
  T y = static_cast<T>(77);
  const T& z = current::FromString(s.c_str(), y);
  VH_CHECK(&y == &z && y == x, std::string("fromstring_into:") + name, s);
  VH_CHECK(current::FromString<T>(std::string("bad")) == 0 && current::FromString<T>(std::string()) == 0, std::string("fromstring_bad:") + name, "bad");
  vh::Eval(4);
}
template <typename E>
static void EnumRT(vh::Rng& r, const char* name) {
  typedef typename std::underlying_type<E>::type U;
  const U u = static_cast<U>(r.next());
  const E x = static_cast<E>(u);
  const std::string s = current::ToString(x);
  VH_CHECK(s == std::to_string(u), std::string("tostring:") + name, s);
  VH_CHECK(current::FromString<E>(s) == x, std::string("fromstring:") + name, s + " -> " + std::to_string(static_cast<int>(current::FromString<E>(s))));
  vh::Eval(2);
}
template <typename T>
static void FixedRT(vh::Rng& r, const char* name) {
  const T x = static_cast<T>(r.next() >> r.below(64)), y = r.chance(20) ? x : r.chance(30) ? static_cast<T>(x + 1) : r.chance(10) ? std::numeric_limits<T>::max() : static_cast<T>(r.next() >> r.below(64));
  const std::string a = PackToString(x), b = PackToString(y);
  T back;
  VH_CHECK(a.size() == b.size() && a.size() == FixedSizeSerializer<T>::size_in_bytes, std::string("fixed:size:") + name, a + " " + b);
  VH_CHECK((a < b) == (x < y) && (a == b) == (x == y), std::string("fixed:order:") + name, a + " " + b);
  VH_CHECK(UnpackFromString(a, back) == x && back == x, std::string("fixed:back:") + name, a);
  vh::Eval(3);
}
static void NumberCase(vh::Rng& r) {
  NumRT<int8_t>(r, "int8");
  NumRT<uint8_t>(r, "uint8");
  NumRT<int16_t>(r, "int16");
  NumRT<uint16_t>(r, "uint16");
  NumRT<int32_t>(r, "int32");
  NumRT<uint32_t>(r, "uint32");
  NumRT<int64_t>(r, "int64");
  NumRT<uint64_t>(r, "uint64");
  EnumRT<E8>(r, "enum:uint8");
  EnumRT<EI8>(r, "enum:int8");
  EnumRT<E32>(r, "enum:int32");
  const EB eb = r.chance(50) ? EB::T : EB::F;
  VH_CHECK(current::FromString<EB>(current::ToString(eb)) == eb, "fromstring:enum:bool", current::ToString(eb));
  const bool b = r.chance(50);
  VH_CHECK(current::ToString(b) == (b ? "true" : "false") && current::FromString<bool>(current::ToString(b)) == b, "fromstring:bool", "");
  const auto ms = std::chrono::milliseconds(static_cast<int64_t>(r.next()) >> r.below(64));
  const auto us = std::chrono::microseconds(static_cast<int64_t>(r.next()) >> r.below(64));
  VH_CHECK(current::FromString<std::chrono::milliseconds>(current::ToString(ms)) == ms, "fromstring:ms", current::ToString(ms));
  VH_CHECK(current::FromString<std::chrono::microseconds>(current::ToString(us)) == us, "fromstring:us", current::ToString(us));
  const std::string s = Bytes(r, 10);
  VH_CHECK(current::ToString(s) == s && current::FromString<std::string>(s) == s, "fromstring:string", Q(s));
  FixedRT<uint16_t>(r, "uint16");
  FixedRT<uint32_t>(r, "uint32");
  FixedRT<uint64_t>(r, "uint64");
  // Intervals.
  int64_t t = static_cast<int64_t>(r.next() >> (1 + r.below(50))) / 1000;
  if (r.chance(50)) t = t / 60000000 * 60000000 % 100000000000000;
  else if (r.chance(50)) t = t / 1000000 * 1000000 - r.chance(50);
  if (t < 0) t = 0;
  const int64_t sec = t / 1000000;
  std::string want = std::to_string(sec % 60) + "s";
  if (sec >= 60) want = std::to_string(sec / 60 % 60) + "m " + want;
  if (sec >= 3600) want = std::to_string(sec / 3600 % 24) + "h " + want;
  if (sec >= 86400) want = std::to_string(sec / 86400) + "d " + want;
  typedef std::chrono::microseconds US;
  VH_CHECK(TimeIntervalAsHumanReadableString(US(t)) == want, "interval", std::to_string(t) + " -> " + TimeIntervalAsHumanReadableString(US(t)) + ", expected " + want);
  VH_CHECK(!t || TimeIntervalAsHumanReadableString(US(-t)) == "-" + want, "interval:negative", std::to_string(t));
  VH_CHECK(TimeDifferenceAsHumanReadableString(US(t)) == (t < 50000 ? "just now" : want + " into the future"), "interval:future", std::to_string(t));
  VH_CHECK(TimeDifferenceAsHumanReadableString(US(-t)) == (t < 50000 ? "just now" : want + " ago"), "interval:past", std::to_string(t));
  vh::Eval(10);
  vh::Distinct(vh::hash_str(want) + r.s);
}

static int Sign(int x) { return (x > 0) - (x < 0); }
static void ChunkCase(vh::Rng& r) {
  const std::string abc = std::string("ab\0\xff", 4);
  std::string a = RandomFrom(r, abc, 6), b = r.chance(40) ? a.substr(0, r.below(a.size() + 1)) : RandomFrom(r, abc, 6);
  Chunk ca(a), cb(b);
  const std::string d = Q(a) + Q(b);
  VH_CHECK(Sign(ca.LexicographicalCompare(cb)) == Sign(a.compare(b)), "chunk:compare", d);
  VH_CHECK(Chunk::LexicographicalComparator()(ca, cb) == (a < b) && Chunk::EqualityComparator()(ca, cb) == (a == b), "chunk:comparators", d);
  const bool prefix = a.compare(0, b.size(), b) == 0 && a.size() >= b.size();
  VH_CHECK(ca.HasPrefix(cb) == prefix, "chunk:prefix", d);
  Chunk rest;
  VH_CHECK(ca.ExpungePrefix(cb, rest) == prefix && (!prefix || static_cast<std::string>(rest) == a.substr(b.size())), "chunk:expunge", d);
  VH_CHECK((ca == b) == (a == b) && (ca != b) == (a != b) && static_cast<std::string>(ca) == a && ca.empty() == a.empty() && ca.length() == a.size(), "chunk:equal", d);
  std::string copy = a;
  VH_CHECK(Chunk::HashFunction()(ca) == Chunk::HashFunction()(Chunk(copy)), "chunk:hash", d);
  // The database of unique chunks.
  ChunkDB db;
  VS strings;
  for (int i = r.below(12); i > 0; --i) strings.push_back(RandomFrom(r, abc, 4));
  std::list<std::string> storage;
  std::list<Chunk> chunks;
  std::vector<std::pair<std::string, UniqueChunk>> unique;
  std::set<std::string> seen;
  for (auto& s : strings) {
    const std::string probe = s;
    UniqueChunk u;
    VH_CHECK(db.Find(Chunk(probe), u) == (seen.count(s) > 0), "chunk:find", Q(strings));
    storage.push_back(s);
    chunks.push_back(Chunk(storage.back()));
    unique.emplace_back(s, db[chunks.back()]);
    seen.insert(s);
    VH_CHECK(db.Find(Chunk(probe), u) && u == unique.back().second, "chunk:found", Q(strings));
  }
  for (auto& x : unique)
    for (auto& y : unique) {
      VH_CHECK((x.second == y.second) == (x.first == y.first) && (x.second != y.second) == (x.first != y.first), "chunk:unique", Q(strings));
      VH_CHECK(int(x.second < y.second) + int(y.second < x.second) + int(x.second == y.second) == 1, "chunk:order", Q(strings));
    }
  for (auto& x : unique) VH_CHECK(static_cast<std::string>(x.second) == x.first, "chunk:unique_value", Q(strings));
  vh::Eval(8 + unique.size());
  vh::Distinct(vh::hash_str(d));
}

static void PrintfCase(vh::Rng& r) {
  const size_t sizes[] = {0, 1, 5, 65533, 65534, 65535, 65536, 65537, 100000, 1048574, 1048575};
  std::string s(r.chance(95) ? r.below(100) : sizes[r.below(11)], 'x');
  for (auto& c : s) c = 'a' + r.below(26);
  const int n = static_cast<int>(r.next());
  const std::string got = Printf("%s|%d", s.c_str(), n), want = (s + "|" + std::to_string(n)).substr(0, 1048575);
  VH_CHECK(got == want, "printf", std::to_string(s.size()) + " " + std::to_string(n) + " -> " + std::to_string(got.size()));
  std::string m, back;
  const std::string in = RandomFrom(r, "a\n\r\t\"|\\xn", 12);
  for (char c : in) m += c == '\n' ? "<br>" : c == '|' ? "&#124;" : std::string(1, c);
  // The escaped string, put between quotes, is a C++ literal denoting the original one.
  const std::string e = EscapeForCPlusPlus(in);
  bool literal = true;
  for (size_t i = 0; i < e.size(); ++i) {
    if (e[i] == '\n' || e[i] == '\r' || e[i] == '"') literal = false;
    if (e[i] != '\\') { back += e[i]; continue; }
    const char c = ++i < e.size() ? e[i] : 0;
    if (c == 'n') back += '\n'; else if (c == 't') back += '\t'; else if (c == 'r') back += '\r'; else if (c == '"' || c == '\\') back += c; else literal = false;
  }
  VH_CHECK(literal && back == in, "escape:cpp", Q(in) + " -> " + Q(e));
  VH_CHECK(EscapeForMarkdown(in) == m, "escape:markdown", Q(in));
  vh::Eval(3);
}

// ---- Codecs.
static std::string RefBase64(const std::string& s, bool url) {
  std::string abc;
  for (char c = 'A'; c <= 'Z'; ++c) abc += c;
  for (char c = 'a'; c <= 'z'; ++c) abc += c;
  for (char c = '0'; c <= '9'; ++c) abc += c;
  abc += url ? "-_" : "+/";
  std::string out;
  for (size_t i = 0; i < s.size(); i += 3) {
    uint32_t w = 0;
    const size_t n = std::min<size_t>(3, s.size() - i);
    for (size_t k = 0; k < 3; ++k) w = w << 8 | (k < n ? static_cast<uint8_t>(s[i + k]) : 0);
    for (size_t k = 0; k < 4; ++k) out += k <= n ? abc[w >> (18 - 6 * k) & 63] : '=';
  }
  return out;
}
static uint32_t RefCRC(const std::string& s, uint32_t crc = 0) {
  crc = ~crc;
  for (unsigned char c : s) {
    crc ^= c;
    for (int k = 0; k < 8; ++k) crc = crc >> 1 ^ (crc & 1 ? 0xedb88320u : 0);
  }
  return ~crc;
}
// FIPS 180-4, with the constants computed from the primes.
static std::string RefSHA256(std::string m) {
  auto frac = [](long double x) { return static_cast<uint32_t>((x - std::floor(x)) * 4294967296.0L); };
  std::vector<int> primes;
  for (int p = 2; primes.size() < 64; ++p) {
    bool ok = true;
    for (int q : primes) ok = ok && p % q;
    if (ok) primes.push_back(p);
  }
  uint32_t h[8], k[64];
  for (int i = 0; i < 8; ++i) h[i] = frac(sqrtl(primes[i]));
  for (int i = 0; i < 64; ++i) k[i] = frac(cbrtl(primes[i]));
  const uint64_t bits = m.size() * 8;
  m += static_cast<char>(0x80);
  while (m.size() % 64 != 56) m += '\0';
  for (int i = 7; i >= 0; --i) m += static_cast<char>(bits >> (8 * i));
  auto rot = [](uint32_t x, int n) { return x >> n | x << (32 - n); };
  for (size_t o = 0; o < m.size(); o += 64) {
    uint32_t w[64], v[8];
    for (int i = 0; i < 16; ++i) {
      w[i] = 0;
      for (int b = 0; b < 4; ++b) w[i] = w[i] << 8 | static_cast<uint8_t>(m[o + 4 * i + b]);
    }
    for (int i = 16; i < 64; ++i)
      w[i] = w[i - 16] + (rot(w[i - 15], 7) ^ rot(w[i - 15], 18) ^ w[i - 15] >> 3) + w[i - 7] + (rot(w[i - 2], 17) ^ rot(w[i - 2], 19) ^ w[i - 2] >> 10);
    memcpy(v, h, sizeof h);
    for (int i = 0; i < 64; ++i) {
      const uint32_t t1 = v[7] + (rot(v[4], 6) ^ rot(v[4], 11) ^ rot(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + k[i] + w[i];
      const uint32_t t2 = (rot(v[0], 2) ^ rot(v[0], 13) ^ rot(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
      for (int j = 7; j > 0; --j) v[j] = v[j - 1];
      v[4] += t1;
      v[0] = t1 + t2;
    }
    for (int i = 0; i < 8; ++i) h[i] += v[i];
  }
  char out[65];
  for (int i = 0; i < 8; ++i) snprintf(out + 8 * i, 9, "%08x", h[i]);
  return out;
}

static void CodecCase(vh::Rng& r) {
  const std::string s = Bytes(r, r.chance(5) ? 5000 : 70);
  const std::string d = Q(s.substr(0, 100));
  const std::string b64 = RefBase64(s, false), url = RefBase64(s, true);
  VH_CHECK(current::Base64Encode(s) == b64, "base64:encode", d);
  VH_CHECK(current::Base64Encode(s.data(), s.size()) == b64, "base64:encode", d);
  VH_CHECK(current::Base64Encode(reinterpret_cast<const uint8_t*>(s.data()), s.size()) == b64, "base64:encode", d);
  VH_CHECK(current::Base64URLEncode(s) == url, "base64:url_encode", d);
  VH_CHECK(current::Base64Decode(b64) == s, "base64:decode", d);
  VH_CHECK(current::Base64URLDecode(url) == s, "base64:url_decode", d);
  std::string placeholder = Bytes(r, 5);
  VH_CHECK(static_cast<std::string>(current::Base64EncodeInto(Chunk(s), placeholder)) == b64, "base64:into", d);
  VH_CHECK(static_cast<std::string>(current::Base64DecodeInto(Chunk(b64), placeholder)) == s, "base64:from", d);
  // Unpadded is fine too.
  std::string np = url;
  while (!np.empty() && np.back() == '=') np.pop_back();
  VH_CHECK(current::Base64URLDecode(np) == s, "base64:unpadded", d);
  // An invalid character is refused, whatever it is.
  std::string bad = np;
  const char c = static_cast<char>(r.next());
  const bool urlsafe = r.chance(50);
  const bool valid = isalnum(static_cast<unsigned char>(c)) || (urlsafe ? c == '-' || c == '_' : c == '+' || c == '/');
  if (!valid && c != '=') {
    for (auto& x : bad) {
      if (!urlsafe) x = x == '-' ? '+' : x == '_' ? '/' : x;
    }
    bad.insert(r.below(bad.size() + 1), 1, c);
    bool threw = false;
    try {
      urlsafe ? current::Base64URLDecode(bad) : current::Base64Decode(bad);
    } catch (const current::Base64DecodeException&) {
      threw = true;
    }
    VH_CHECK(threw, "base64:invalid", Q(bad));
  }
  // Garbage is either refused or decoded into something of the right size.
  std::string g = RandomFrom(r, "ABab01+/-_==\x80 ", 12);
  try {
    const std::string x = current::Base64Decode(g);
    const size_t n = std::min(g.find('='), g.size());
    VH_CHECK(x.size() == n * 6 / 8 && (n % 4 == 1 || RefBase64(x, false).substr(0, x.size() * 8 / 6) == g.substr(0, x.size() * 8 / 6)), "base64:garbage", Q(g) + " -> " + Q(x));
  } catch (const current::Base64DecodeException&) {
  }
  VH_CHECK(current::CRC32(s) == RefCRC(s), "crc32", d);
  const size_t cut = r.below(s.size() + 1);
  VH_CHECK(current::CRC32(current::CRC32(0, s.data(), cut), s.data() + cut, s.size() - cut) == RefCRC(s), "crc32:parts", d);
  VH_CHECK(current::SHA256(s) == RefSHA256(s), "sha256", d);
  const std::string sized(r.below(140), 'q');
  VH_CHECK(current::SHA256(sized) == RefSHA256(sized), "sha256:size", std::to_string(sized.size()));
  vh::Eval(14);
  vh::Distinct(vh::hash_str(s));
}

// ---- Named captures. A regex is generated along with its standard counterpart, and a matching or arbitrary string.
struct Re {
  std::string named, plain;
  VS names;  // Of each group, in order.
};
static Re GenRe(vh::Rng& r, int depth, int& name) {
  Re x;
  auto add = [&](const std::string& s) { x.named += s, x.plain += s; };
  auto sub = [&](const Re& y) {
    x.named += y.named, x.plain += y.plain;
    x.names.insert(x.names.end(), y.names.begin(), y.names.end());
  };
  for (int n = 1 + r.below(3); n > 0; --n) {
    switch (r.below(depth > 0 ? 14 : 6)) {
      case 0: add("a"); break;
      case 1: add("b"); break;
      case 2: add("[ab]"); break;
      case 3: add(r.chance(50) ? "\\(" : "\\)"); break;
      case 4: add(r.chance(50) ? "\\\\" : "[(a]"); break;
      case 5: add(r.chance(50) ? "a?" : "\\(?"); break;
      case 6: case 7: case 8: {
        std::string nm = "n" + std::to_string(name++);
        x.named += "(?<" + nm + ">", x.plain += "(";
        x.names.push_back(nm);
        sub(GenRe(r, depth - 1, name));
        add(")");
        break;
      }
      case 9: case 10:
        add("(");
        x.names.push_back("");
        sub(GenRe(r, depth - 1, name));
        add(")");
        break;
      case 11:
        add("(?:");
        sub(GenRe(r, depth - 1, name));
        add(")");
        break;
      case 12:
        add(r.chance(50) ? "(?=" : "(?!");
        sub(GenRe(r, depth - 1, name));
        add(")");
        break;
      case 13:
        x.named += "(?<", x.plain += "(";
        {
          std::string nm = "n" + std::to_string(name++);
          x.named += nm + ">";
          x.names.push_back(nm);
        }
        sub(GenRe(r, depth - 1, name));
        add("|");
        sub(GenRe(r, depth - 1, name));
        add(")?");
        break;
    }
  }
  return x;
}
static void RegexCase(vh::Rng& r) {
  int name = 0;
  const Re re = GenRe(r, 2, name);
  const std::string d = re.named;
  std::regex plain(re.plain);
  NamedRegexCapturer c(re.named);
  size_t named = 0;
  for (auto& n : re.names) named += !n.empty();
  VH_CHECK(c.TotalCaptures() == re.names.size() && c.NamedCaptures() == named, "regex:count", d + " has " + std::to_string(c.TotalCaptures()) + " of " + std::to_string(re.names.size()));
  VH_CHECK(c.GetTransformedRegexCaptureGroupNames() == re.names, "regex:names", d);
  for (int i = 0; i < 6; ++i) {
    const std::string s = RandomFrom(r, "aabb()\\", 6);
    std::smatch m;
    const bool matches = std::regex_match(s, m, plain);
    const std::string e = d + " on " + Q(s);
    VH_CHECK(c.Test(s) == matches, "regex:test", e);
    auto first = c.Match(s);
    auto got = std::move(first);
    VH_CHECK(got.empty() == !matches, "regex:match", e);
    if (matches) {
      VH_CHECK(got.size() == m.size() && got.length() == s.size(), "regex:size", e);
      vh::Count("matches");
    }
    for (size_t k = 0; k < re.names.size(); ++k) {
      if (re.names[k].empty()) continue;
      const std::string want = matches ? m[k + 1].str() : "";
      VH_CHECK(got[re.names[k]] == want && got.Has(re.names[k]) == !want.empty(), "regex:group", e + " " + re.names[k] + " is " + Q(got[re.names[k]]) + ", expected " + Q(want));
    }
    VH_CHECK(!got.Has("nope") && got["nope"] == "", "regex:unknown", e);
    // All the matches inside.
    const std::string t = RandomFrom(r, "aabb()\\", 12);
    auto it = std::sregex_iterator(t.begin(), t.end(), plain);
    size_t n = 0;
    auto iterable = c.Iterate(t);
    for (const auto& a : iterable) {
      if (++n > 50 || it == std::sregex_iterator()) break;
      VH_CHECK(a.str() == it->str() && static_cast<ptrdiff_t>(a.position()) == it->position(), "regex:iterate", d + " in " + Q(t));
      for (size_t k = 0; k < re.names.size(); ++k) {
        if (!re.names[k].empty()) VH_CHECK(a[re.names[k]] == (*it)[k + 1].str(), "regex:iterate_group", d + " in " + Q(t));
      }
      ++it;
    }
    VH_CHECK(n > 50 || (it == std::sregex_iterator() && static_cast<ptrdiff_t>(n) == std::distance(std::sregex_iterator(t.begin(), t.end(), plain), std::sregex_iterator())), "regex:iterate_count", d + " in " + Q(t));
    vh::Eval(3 + re.names.size());
  }
  vh::Distinct(vh::hash_str(d));
}

int main(int argc, char** argv) {
  return vh::Main(argc, argv, [] {
    auto& o = vh::opt();
    vh::Rng seed(o.seed * 1000003 + o.shard * 7919 + vh::hash_str(o.mode));
    for (uint64_t i = 0; i < o.cases && !vh::TooMany(); ++i) {
      vh::Rng r(seed.next());
      if (i % 64 == 0) vh::Case("case " + std::to_string(i));
      if (o.mode == "text") {
        SplitCase(r);
        JoinCase(r);
        KVCase(r);
        TrimCase(r);
        Groups(r);
        DistanceCase(r);
        ChunkCase(r);
        PrintfCase(r);
      }
      if (o.mode == "numbers") {
        RoundCase(r);
        RoundCase(r);
        NumberCase(r);
      }
      if (o.mode == "codecs") CodecCase(r);
      if (o.mode == "regex") RegexCase(r);
      vh::Count("cases");
    }
  });
}
