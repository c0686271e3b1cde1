// PARTS=1: CompactTSV and CSV (C30), OT (C31), the printer of nginx configs (C32).
// PARTS=2: SelfModifyingConfig (C32), dflags (C36).
#define CURRENT_MOCK_TIME
#include <sstream>
#include <fstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <dirent.h>
#if PARTS == 1
#include "compact_tsv/compact_tsv.h"
#include "utils/csv/csv.h"
#include "utils/operational_transformation/ot.h"
#include "utils/nginx/config.h"
#else
#include "blocks/self_modifying_config/config.h"
#include "bricks/dflags/dflags.h"
#endif
#include "vh.h"

static std::string Q(const std::string& s) { return vh::esc(s.substr(0, 300)); }

static std::string Bytes(vh::Rng& r, size_t n, const std::string& exclude = "") {
  std::string s;
  const int kind = r.below(3);
  while (s.size() < n) {
    const char c = kind == 0 ? static_cast<char>(r.below(256)) : kind == 1 ? "ab\0 \t\"x,"[r.below(8)] : static_cast<char>('a' + r.below(26));
    if (exclude.find(c) == std::string::npos) s += c;
    else s += 'x';
  }
  return s;
}

#if PARTS == 1
// ---- CompactTSV.
typedef std::vector<std::vector<std::string>> Table;

static void CompactCase(vh::Rng& r) {
  const size_t cols = r.chance(5) ? 254 : r.chance(10) ? 253 : r.chance(20) ? 1 + r.below(254) : 1 + r.below(8);
  const size_t rows = r.chance(5) ? 0 : 1 + r.below(r.chance(10) ? 300 : 30);
  std::vector<std::string> pool;
  for (size_t i = 0, n = 1 + r.below(20); i < n; ++i) {
    pool.push_back(r.chance(3) ? Bytes(r, 65535 - r.below(2)) : r.chance(10) ? "" : Bytes(r, r.below(20)));
  }
  CompactTSV tsv(r.chance(50) ? cols : 0);
  Table t;
  std::set<std::string> stored;
  std::vector<std::string> cur;
  size_t expected = 0, budget = 20 << 20, changed = 0;
  for (size_t i = 0; i < rows && budget > (1 << 20); ++i) {
    std::vector<std::string> row(cols);
    for (size_t j = 0; j < cols; ++j) {
      row[j] = (i && r.chance(60)) ? t.back()[j] : r.chance(90) ? pool[r.below(pool.size())] : Bytes(r, r.below(10));
      if (cur.empty() || cur[j] != row[j]) {
        ++changed;
        expected += 5;
        if (stored.insert(row[j]).second) {
          expected += 4 + row[j].size();
          budget -= std::min(budget, row[j].size());
        }
      }
    }
    expected += 1;
    cur = row;
    t.push_back(row);
    tsv(row);
  }
  tsv.Finalize();
  const std::string packed = tsv.GetPackedString();
  // Each distinct string is stored once, and only the changes are.
  VH_CHECK(packed.size() <= expected, "compact:size", std::to_string(packed.size()) + " vs " + std::to_string(expected));
  const size_t shift = r.below(8);
  // The precise size, for the sanitizer to tell of reads beyond.
  std::vector<uint8_t> moved(shift + packed.size());
  if (!packed.empty()) memcpy(moved.data() + shift, packed.data(), packed.size());
  auto check = [&](const char* kind, const Table& got, size_t total) {
    vh::Eval();
    VH_CHECK(total == t.size(), std::string("compact:rows ") + kind, std::to_string(total) + " of " + std::to_string(t.size()));
    VH_CHECK(got == t, std::string("compact:data ") + kind, "cols " + std::to_string(cols) + " rows " + std::to_string(t.size()));
  };
  {
    Table got;
    const size_t n = CompactTSV::Unpack([&](const std::vector<std::string>& v) { got.push_back(v); }, packed);
    check("string", got, n);
  }
  {
    Table got;
    const size_t n = CompactTSV::Unpack(
        [&](const std::vector<std::pair<const char*, size_t>>& v) {
          got.emplace_back();
          for (const auto& e : v) {
            got.back().emplace_back(e.first, e.second);
            if (e.first[e.second]) vh::Violation("compact:not terminated", "");
          }
        },
        moved.data() + shift, packed.size());
    check("pair", got, n);
  }
  if (!packed.empty()) {
    Table got;
    const size_t n = CompactTSV::Unpack(
        [&](const std::vector<const char*>& v) {
          got.emplace_back();
          const size_t i = got.size() - 1;
          for (size_t j = 0; j < v.size(); ++j) {
            // Knows of the string up to its first null character.
            if (i < t.size() && j < t[i].size() && strlen(v[j]) == strlen(t[i][j].c_str())) {
              got.back().emplace_back(v[j], t[i][j].size());
            } else {
              got.back().emplace_back(v[j]);
            }
          }
        },
        std::vector<uint8_t>(packed.begin(), packed.end()));
    check("pchar", got, n);
  }
  {
    Table got;
    std::map<std::string, current::strings::UniqueChunk> seen;
    std::map<const char*, std::string> at;
    const size_t n = CompactTSV::Unpack(
        [&](const std::vector<current::strings::UniqueChunk>& v) {
          got.emplace_back();
          for (const auto& c : v) {
            const std::string s(c.c_str(), c.length());
            got.back().push_back(s);
            // Equal strings are the same chunk.
            const auto& first = seen.emplace(s, c).first->second;
            if (!(first == c) || first < c || c < first) vh::Violation("compact:unique", Q(s));
            if (!at.emplace(c.c_str(), s).second && at[c.c_str()] != s) vh::Violation("compact:unique", Q(s));
          }
        },
        packed);
    check("chunk", got, n);
  }
  vh::Count("cells", changed);
  vh::Distinct(vh::hash_str(packed));
}

// ---- CSV.
template <typename T>
static T CSVField(const std::string& s);
template <>
std::string CSVField<std::string>(const std::string& s) { return s; }
template <>
int64_t CSVField<int64_t>(const std::string& s) { return strtoll(s.c_str(), nullptr, 10); }
template <>
double CSVField<double>(const std::string& s) { return strtod(s.c_str(), nullptr); }

template <typename T>
static std::string CSVValue(vh::Rng& r) {
  if (std::is_same<T, std::string>::value) return r.chance(25) ? "" : Bytes(r, r.below(8), std::string(",\n\r"));
  if (std::is_same<T, double>::value) {
    char b[64];
    snprintf(b, sizeof(b), "%.17g", (r.unit() - 0.5) * pow(10, r.range(-20, 20)));
    return b;
  }
  return std::to_string(static_cast<int64_t>(r.next()) >> r.below(64));
}

template <typename T>
static void CSVCase(vh::Rng& r) {
  const std::string fn = vh::opt().scratch + "/t.csv";
  const size_t cols = 1 + r.below(r.chance(10) ? 40 : 6);
  std::vector<std::string> header;
  for (size_t i = 0; i < cols; ++i) header.push_back((cols > 1 && r.chance(15)) ? "" : Bytes(r, 1 + r.below(8), std::string(",\n\r")));
  std::string text;
  std::vector<std::vector<std::string>> data;
  bool bad = false;
  auto add = [&](const std::vector<std::string>& row, bool last) {
    for (size_t i = 0; i < row.size(); ++i) text += (i ? "," : "") + row[i];
    // A row of a single empty field is an empty line, which is of its own meaning.
    if (!last || r.chance(60) || text.empty() || text.back() == '\n') text += r.chance(30) ? "\r\n" : "\n";
  };
  const size_t n = r.below(12);
  add(header, n == 0);
  for (size_t i = 0; i < n; ++i) {
    std::vector<std::string> row;
    size_t c = cols;
    if (r.chance(4)) {
      c = r.chance(50) ? cols + 1 + r.below(3) : 1 + r.below(cols);
      bad |= c != cols;
    }
    for (size_t j = 0; j < c; ++j) row.push_back(CSVValue<T>(r));
    if (c == 1 && row[0].empty()) row[0] = "-";
    data.push_back(row);
    add(row, i + 1 == n);
  }
  {
    std::ofstream fo(fn, std::ios::binary);
    fo << text;
  }
  vh::Eval();
  vh::Distinct(vh::hash_str(text));
  try {
    const auto csv = current::CSV<T>::ReadFile(fn);
    if (bad) {
      vh::Violation("csv:accepted", Q(text));
      return;
    }
    VH_CHECK(csv.header == header, "csv:header", Q(text));
    bool ok = csv.data.size() == data.size();
    for (size_t i = 0; ok && i < data.size(); ++i) {
      ok = csv.data[i].size() == data[i].size();
      for (size_t j = 0; ok && j < data[i].size(); ++j) ok = csv.data[i][j] == CSVField<T>(data[i][j]);
    }
    VH_CHECK(ok, "csv:data", Q(text));
    vh::Count("csv rows", data.size());
  } catch (const current::CSVFileFormatException&) {
    VH_CHECK(bad, "csv:refused", Q(text));
    vh::Count("csv refused");
  }
  if (r.chance(5)) {
    unlink(fn.c_str());
    try {
      current::CSV<T>::ReadFile(fn);
      vh::Violation("csv:no file", "");
    } catch (const current::CSVFileNotFoundException&) {
    }
    { std::ofstream fo(fn, std::ios::binary); fo << (r.chance(50) ? "" : "\n1,2\n"); }
    try {
      current::CSV<T>::ReadFile(fn);
      vh::Violation("csv:no header", "");
    } catch (const current::CSVFileFormatException&) {
    }
  }
}

// ---- OT.
typedef std::vector<char32_t> Text;

static void PutUTF8(std::string& s, uint32_t c) {
  if (c < 0x80) {
    s += static_cast<char>(c);
  } else if (c < 0x800) {
    s += static_cast<char>(0xc0 | (c >> 6));
    s += static_cast<char>(0x80 | (c & 63));
  } else if (c < 0x10000) {
    s += static_cast<char>(0xe0 | (c >> 12));
    s += static_cast<char>(0x80 | ((c >> 6) & 63));
    s += static_cast<char>(0x80 | (c & 63));
  } else {
    s += static_cast<char>(0xf0 | (c >> 18));
    s += static_cast<char>(0x80 | ((c >> 12) & 63));
    s += static_cast<char>(0x80 | ((c >> 6) & 63));
    s += static_cast<char>(0x80 | (c & 63));
  }
}
static std::string UTF8(const Text& t) {
  std::string s;
  for (char32_t c : t) PutUTF8(s, c);
  return s;
}
static std::string JSONString(vh::Rng& r, const Text& t) {
  std::string s = "\"";
  char b[32];
  for (char32_t c : t) {
    if (c < 32 || c == '"' || c == '\\' || r.chance(15)) {
      if (c == '\n' && r.chance(50)) {
        s += "\\n";
      } else if ((c == '"' || c == '\\') && r.chance(50)) {
        s += '\\';
        s += static_cast<char>(c);
      } else if (c < 0x10000) {
        snprintf(b, sizeof(b), "\\u%04x", static_cast<unsigned>(c));
        s += b;
      } else {
        snprintf(b, sizeof(b), "\\u%04x\\u%04X", static_cast<unsigned>(0xd800 + ((c - 0x10000) >> 10)), static_cast<unsigned>(0xdc00 + ((c - 0x10000) & 1023)));
        s += b;
      }
    } else {
      PutUTF8(s, c);
    }
  }
  return s + "\"";
}

struct OTLog {
  typedef std::vector<std::pair<int64_t, Text>> snapshots_t;
  snapshots_t& snapshots;
  size_t stop_at;
  bool* early;
  bool ProcessSnapshot(std::chrono::microseconds us, const std::deque<wchar_t>& rope) {
    snapshots.emplace_back(us.count(), Text(rope.begin(), rope.end()));
    return snapshots.size() != stop_at;
  }
  std::string GenerateOutput(const std::deque<wchar_t>& rope, bool early_termination) {
    *early = early_termination;
    return UTF8(Text(rope.begin(), rope.end()));
  }
};

static void OTCase(vh::Rng& r) {
  Text model;
  OTLog::snapshots_t expected, got;
  std::string json = "{";
  // At most one thing is wrong, and everything before it is processed as is.
  const size_t n = r.below(r.chance(10) ? 60 : 12);
  const size_t bad_at = r.chance(40) ? r.below(n + 1) : n + 1;
  bool bad = false, late = false;
  auto space = [&] { return std::string(r.chance(10) ? " " : r.chance(5) ? "\n" : ""); };
  for (size_t i = 0; i < n; ++i) {
    json += (i ? "," : "") + space() + "\"" + (r.chance(10) ? "same" : "k" + std::to_string(i)) + "\":" + space();
    const int what = i == bad_at ? r.below(7) : -1;
    if (what == 0) {
      json += r.chance(50) ? "[]" : r.chance(50) ? "null" : "1";
      bad = late = true;
      break;
    }
    const uint64_t t = r.chance(90) ? 1400000000000ull + r.below(1000000000000ull) : r.below(3);
    std::string ts = what == 1 ? (r.chance(50) ? "-1" : r.chance(50) ? "1.5" : "\"1\"") : std::to_string(t);
    std::string ops;
    size_t caret = 0;
    const size_t m = r.below(8);
    bool first = true;
    auto op = [&](const std::string& s) {
      ops += (first ? "" : ",") + space() + s + space();
      first = false;
    };
    for (size_t j = 0; j < m; ++j) {
      const int k = r.below(10);
      if (k < 5) {
        Text s;
        const size_t len = r.below(r.chance(10) ? 200 : 8);
        for (size_t q = 0; q < len; ++q) {
          uint32_t c = r.chance(60) ? 32 + r.below(95) : r.chance(20) ? r.below(32) : r.chance(50) ? r.below(0x800) : r.below(0x110000);
          if (c >= 0xd800 && c < 0xe000) c = 'x';
          s.push_back(c);
        }
        op(JSONString(r, s));
        model.insert(model.begin() + caret, s.begin(), s.end());
        caret += s.size();
      } else if (k < 8) {
        if (caret < model.size()) {
          const size_t d = 1 + r.below(model.size() - caret);
          op(std::to_string(d));
          caret += d;
        }
      } else {
        const size_t d = r.chance(10) ? 0 : r.below(model.size() - caret + 1);
        op(d ? "-" + std::to_string(d) : "0");
        model.erase(model.begin() + caret, model.begin() + caret + d);
      }
    }
    if (what == 2) {
      const int64_t left = static_cast<int64_t>(model.size() - caret);
      const int64_t big[] = {left + 1, left + 2, left + 100, 2147483647, 4294967296, 9223372036854775807};
      const int64_t neg[] = {-left - 1, -left - 7, -2147483647, -2147483648LL, -2147483649LL, -9223372036854775807LL};
      op(std::to_string(r.chance(50) ? big[r.below(6)] : neg[r.below(6)]));
    } else if (what == 3) {
      const char* x[] = {"null", "true", "[]", "{}", "[1]", "1.5", "-0.5", "1e3", "18446744073709551615", "\"\x80\"", "\"a\xff\"", "\"\xf8\x88\x80\x80\x80\""};
      op(x[r.below(12)]);
    }
    bad = what >= 0;
    const std::string arr = what == 4 ? (r.chance(50) ? "{}" : "\"x\"") : "[" + ops + "]";
    if (what == 5) {
      json += "{\"o\":" + arr + "}";
    } else if (what == 6) {
      json += "{\"t\":" + ts + "}";
    } else {
      json += r.chance(80) ? "{\"t\":" + ts + ",\"o\":" + arr + "}" : "{\"x\":[1],\"o\":" + arr + "," + space() + "\"t\":" + ts + "}";
    }
    if (bad) {
      late = true;
      break;
    }
    expected.emplace_back(static_cast<int64_t>(t * 1000), model);
  }
  json += "}";
  const size_t stop = r.chance(30) ? 1 + r.below(n + 1) : 0;
  bool early = false;
  if (stop && expected.size() >= stop) {
    expected.resize(stop);
    bad = false;
    model = expected.back().second;
  }
  vh::Eval();
  vh::Distinct(vh::hash_str(json));
  try {
    const std::string out = current::utils::ot::OT(json, OTLog{got, stop, &early});
    if (bad) {
      vh::Violation("ot:accepted", Q(json));
    } else {
      VH_CHECK(out == UTF8(model), "ot:output", Q(json) + " : " + Q(out) + " vs " + Q(UTF8(model)));
      VH_CHECK(early == (stop && expected.size() == stop), "ot:early", Q(json));
    }
  } catch (const current::utils::ot::OTParseException& e) {
    VH_CHECK(bad, "ot:refused", Q(json) + e.OriginalDescription());
    vh::Count("ot refused");
  }
  VH_CHECK(got == expected, "ot:snapshots", Q(json) + " " + std::to_string(got.size()) + " vs " + std::to_string(expected.size()));
  if (!stop && !bad && !late) {
    VH_CHECK(current::utils::ot::OT(json) == UTF8(model), "ot:passthrough", Q(json));
  }
  vh::Count("snapshots", got.size());
  // Any text at all is either processed or refused.
  if (r.chance(50)) {
    std::string s = json;
    for (size_t i = 0, k = 1 + r.below(4); i < k && !s.empty(); ++i) {
      const size_t p = r.below(s.size());
      if (r.chance(30)) s.erase(p, 1 + r.below(5));
      else if (r.chance(50)) s[p] = "{}[]\",:0-9\\xe.u"[r.below(16)];
      else s[p] = static_cast<char>(r.below(256));
    }
    try {
      current::utils::ot::OT(s);
      vh::Count("ot mutants accepted");
    } catch (const current::utils::ot::OTParseException&) {
      vh::Count("ot mutants refused");
    }
  }
}

// ---- Configs of nginx.
using namespace current::nginx::config;
struct Node {
  std::string head;  // The name and the parameters, as printed.
  bool block;
  std::vector<Node> in;
  bool operator==(const Node& o) const { return head == o.head && block == o.block && in == o.in; }
};

static std::string Word(vh::Rng& r) {
  static const char* words[] = {"listen", "location", "server", "http", "proxy_pass", "if", "~*", "/x/y", "$host", "'a b'", "http://127.0.0.1:80/", "\"q\"", "on"};
  return r.chance(70) ? words[r.below(13)] : "w" + std::to_string(r.below(100));
}
static std::string Params(vh::Rng& r) {
  std::string s;
  for (size_t i = 0, n = r.below(4); i < n; ++i) s += (i ? " " : "") + Word(r);
  return s;
}
static std::string Head(const std::string& name, const std::string& params) { return params.empty() ? name : name + ' ' + params; }

template <typename B>
static void FillBlock(vh::Rng& r, B& b, Node& n, int depth) {
  const size_t k = r.below(depth ? 5 : 2);
  for (size_t i = 0; i < k; ++i) {
    const int w = r.below(depth > 0 ? 8 : 2);
    if (w < 3) {
      const std::string a = Word(r), p = Params(r);
      if (r.chance(50)) {
        b.Add(SimpleDirective(a, p));
      } else {
        auto& s = b.Create(SimpleDirective(a, "?"));
        s.parameters = p;
      }
      n.in.push_back({Head(a, p), false, {}});
    } else if (w < 5) {
      const std::string a = Word(r), p = Params(r);
      n.in.push_back({Head(a, p), true, {}});
      if (r.chance(30)) {
        // Given as a list.
        const std::string c1 = Word(r), c2 = Word(r), c3 = Word(r);
        auto& in = n.in.back().in;
        switch (r.below(3)) {
          case 0: b.Add(BlockDirective(a, p, {SimpleDirective(c1, c2)})), in = {{c1 + ' ' + c2, false, {}}}; break;
          case 1: b.Add(BlockDirective(a, p, {SimpleDirective(c1, c2), BlockDirective(c3, std::initializer_list<directives_t>{SimpleDirective(c2, "")})})), in = {{c1 + ' ' + c2, false, {}}, {c3, true, {{c2, false, {}}}}}; break;
          default:
            n.in.back().head = a;
            b.Add(BlockDirective(a, std::initializer_list<directives_t>{SimpleDirective(c1, c2), SimpleDirective(c2, ""), SimpleDirective(c3, c1)}));
            in = {{c1 + ' ' + c2, false, {}}, {c2, false, {}}, {c3 + ' ' + c1, false, {}}};
        }
      } else if (r.chance(50)) {
        BlockDirective x(a, p);
        FillBlock(r, x, n.in.back(), depth - 1);
        b.Add(x);
      } else {
        auto& x = b.Create(BlockDirective(a, p));
        FillBlock(r, x, n.in.back(), depth - 1);
      }
    } else if (w < 6) {
      const std::string p = Word(r), to = Word(r);
      n.in.push_back({"location " + p, true, {}});
      if (r.chance(50)) {
        auto x = ProxyPassLocationDirective(p, to);
        n.in.back().in = {{"proxy_pass " + to, false, {}}, {"proxy_set_header X-Real-IP $remote_addr", false, {}}, {"proxy_set_header X-Forwarded-For $proxy_add_x_forwarded_for", false, {}}, {"proxy_pass_request_headers on", false, {}}};
        FillBlock(r, x, n.in.back(), depth - 1);
        b.Add(x);
      } else {
        auto& x = b.Create(LocationDirective(p));
        FillBlock(r, x, n.in.back(), depth - 1);
      }
    } else {
      const uint16_t port = r.below(65536);
      n.in.push_back({"server", true, {{"listen " + std::to_string(port), false, {}}}});
      ServerDirective x(port);
      FillBlock(r, x, n.in.back(), depth - 1);
      b.Add(x);
    }
  }
}

// By the grammar of nginx, but that words are not looked into.
static bool ParseNginx(const std::string& s, size_t& p, std::vector<Node>& out, bool top, int indent) {
  while (true) {
    const size_t eol = s.find('\n', p);
    if (eol == std::string::npos) return top && p == s.size();
    std::string line = s.substr(p, eol - p);
    p = eol + 1;
    size_t sp = 0;
    while (sp < line.size() && line[sp] == ' ') ++sp;
    line = line.substr(sp);
    if (line == "}") return !top && sp == static_cast<size_t>(indent - 1) * 2;
    if (sp != static_cast<size_t>(indent) * 2 || line.empty()) return false;
    if (line.back() == ';') {
      out.push_back({line.substr(0, line.size() - 1), false, {}});
    } else if (line.size() > 2 && line.substr(line.size() - 2) == " {") {
      out.push_back({line.substr(0, line.size() - 2), true, {}});
      if (!ParseNginx(s, p, out.back().in, false, indent + 1)) return false;
    } else {
      return false;
    }
  }
}

static void NginxCase(vh::Rng& r) {
  FullConfig cfg;
  std::vector<Node> model;
  for (size_t i = 0, n = r.below(4); i < n; ++i) {
    const std::string a = Word(r), p = Params(r);
    if (r.chance(50)) {
      cfg.Add(SimpleDirective(a, p));
      model.push_back({Head(a, p), false, {}});
    } else {
      BlockDirective x(a, p);
      model.push_back({Head(a, p), true, {}});
      FillBlock(r, x, model.back(), 2);
      cfg.Add(x);
    }
  }
  Node http{"http", true, {}};
  std::set<uint16_t> ports;
  for (size_t i = 0, n = r.below(6); i < n; ++i) {
    const uint16_t port = r.chance(50) ? r.below(4) : r.below(65536);
    try {
      auto& server = cfg.http.CreateServer(port);
      VH_CHECK(ports.insert(port).second, "nginx:port twice", std::to_string(port));
      http.in.push_back({"server", true, {{"listen " + std::to_string(port), false, {}}}});
      Node& node = http.in.back();
      for (size_t j = 0, m = r.below(3); j < m; ++j) {
        const std::string p = Word(r), to = Word(r);
        if (r.chance(50)) {
          auto& x = server.CreateLocation(p);
          node.in.push_back({"location " + p, true, {}});
          FillBlock(r, x, node.in.back(), 2);
        } else {
          server.CreateProxyPassLocation(p, to);
          node.in.push_back({"location " + p, true, {{"proxy_pass " + to, false, {}}, {"proxy_set_header X-Real-IP $remote_addr", false, {}}, {"proxy_set_header X-Forwarded-For $proxy_add_x_forwarded_for", false, {}}, {"proxy_pass_request_headers on", false, {}}}});
        }
      }
      FillBlock(r, server, node, 1);
    } catch (const current::nginx::PortAlreadyUsedException&) {
      VH_CHECK(ports.count(port), "nginx:port refused", std::to_string(port));
      vh::Count("ports refused");
    }
    if (r.chance(30)) {
      const std::string a = Word(r);
      cfg.http.Add(SimpleDirective(a, "x"));
      http.in.push_back({a + " x", false, {}});
    }
  }
  model.push_back(http);
  const int indent = r.chance(70) ? 0 : r.below(4);
  const std::string text = ConfigPrinter::AsString(cfg, indent);
  vh::Eval();
  vh::Distinct(vh::hash_str(text));
  std::vector<Node> got;
  size_t p = 0;
  VH_CHECK(ParseNginx(text, p, got, true, indent), "nginx:grammar", text);
  VH_CHECK(got == model, "nginx:tree", text);
  VH_CHECK(ConfigPrinter::AsString(ParseJSON<FullConfig>(JSON(cfg)), indent) == text, "nginx:json", text);
  {
    std::vector<Node> one;
    size_t q = 0;
    const std::string t2 = ConfigPrinter::AsString(cfg.http, indent);
    VH_CHECK(ParseNginx(t2, q, one, true, indent) && one.size() == 1 && one[0] == http, "nginx:block", t2);
  }
  vh::Count("lines", std::count(text.begin(), text.end(), '\n'));
}

int main(int argc, char** argv) {
  return vh::Main(argc, argv, [] {
    const auto& o = vh::opt();
    for (uint64_t i = 0; i < o.cases && !vh::TooMany(); ++i) {
      vh::Rng r(o.seed + i * 7919);
      vh::Case(o.mode + " seed=" + std::to_string(o.seed) + " case=" + std::to_string(i));
      if (o.mode == "compact") CompactCase(r);
      else if (o.mode == "csv") {
        const int k = r.below(4);
        if (k < 2) CSVCase<std::string>(r);
        else if (k == 2) CSVCase<int64_t>(r);
        else CSVCase<double>(r);
      } else if (o.mode == "ot") OTCase(r);
      else if (o.mode == "nginx") NginxCase(r);
      else abort();
    }
  });
}
#else  // PARTS == 2

// ---- SelfModifyingConfig.
CURRENT_STRUCT(Inner) {
  CURRENT_FIELD(s, std::string);
  CURRENT_FIELD(v, std::vector<int32_t>);
};
CURRENT_STRUCT(Cfg) {
  CURRENT_FIELD(n, int64_t, 0);
  CURRENT_FIELD(name, std::string);
  CURRENT_FIELD(inner, Inner);
  CURRENT_FIELD(o, Optional<std::string>);
  CURRENT_FIELD(m, (std::map<std::string, int32_t>));
};

static Cfg RandomCfg(vh::Rng& r) {
  Cfg c;
  c.n = static_cast<int64_t>(r.next());
  auto word = [&] { std::string s; for (size_t i = 0, n = r.below(10); i < n; ++i) s += static_cast<char>(r.chance(10) ? 1 + r.below(31) : 32 + r.below(95)); return s; };
  c.name = word();
  c.inner.s = word();
  for (size_t i = 0, n = r.below(5); i < n; ++i) c.inner.v.push_back(static_cast<int32_t>(r.next()));
  if (r.chance(50)) c.o = word();
  for (size_t i = 0, n = r.below(3); i < n; ++i) c.m[word()] = static_cast<int32_t>(r.next());
  return c;
}

typedef std::map<std::string, std::string> Files;  // The directories are of the contents "<dir>".

static Files ReadAll(const std::string& dir) {
  Files f;
  DIR* d = opendir(dir.c_str());
  if (!d) abort();
  while (dirent* e = readdir(d)) {
    const std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    struct stat st;
    if (lstat((dir + "/" + n).c_str(), &st)) abort();
    if (S_ISDIR(st.st_mode)) {
      f[n] = "<dir>";
    } else {
      std::ifstream fi(dir + "/" + n, std::ios::binary);
      std::stringstream ss;
      ss << fi.rdbuf();
      f[n] = ss.str();
    }
  }
  closedir(d);
  return f;
}

static std::string Show(const Files& f) {
  std::string s;
  for (const auto& x : f) s += x.first + " = " + x.second + "; ";
  return s;
}

static void Put(const std::string& fn, const std::string& s) {
  std::ofstream fo(fn, std::ios::binary | std::ios::trunc);
  fo << s;
  if (!fo) abort();
}

static std::string History(int64_t us) {
  time_t t = us / 1000000;
  tm x;
  gmtime_r(&t, &x);
  char b[64];
  snprintf(b, sizeof(b), "cfg.json.%04d%02d%02d-%02d%02d%02d", x.tm_year + 1900, x.tm_mon + 1, x.tm_mday, x.tm_hour, x.tm_min, x.tm_sec);
  return b;
}

static void ConfigCase(vh::Rng& r) {
  const std::string dir = vh::opt().scratch + "/cfg";
  if (system(("chmod -R u+w '" + dir + "' 2>/dev/null; rm -rf '" + dir + "'; mkdir '" + dir + "'").c_str())) abort();
  const std::string fn = dir + "/cfg.json";
  int64_t now = 1000000000000000 + r.below(800000000) * 1000000;
  current::time::ResetToZero();
  current::time::SetNow(std::chrono::microseconds(now));
  Files model;
  std::string log;
  std::unique_ptr<current::SelfModifyingConfig<Cfg>> smc;
  Cfg cur;
  auto put = [&](const std::string& s) { Put(fn, s); model["cfg.json"] = s; };
  auto bad = [&]() -> std::string {
    const std::string good = JSON(RandomCfg(r));
    const int k = r.below(6);
    return k == 0 ? "" : k == 1 ? good.substr(0, good.size() - 1 - r.below(good.size() / 2)) : k == 2 ? "[]" : k == 3 ? "{\"n\":\"x\",\"name\":\"\",\"inner\":{\"s\":\"\",\"v\":[]},\"m\":{}}" : k == 4 ? "{}" : "{\"n\":1,\"name\":\"\",\"inner\":{\"s\":\"\",\"v\":[true]},\"m\":{}}";
  };
  const std::string dirs_denied = dir + "/ro";
  for (int step = 0, steps = 3 + r.below(25); step < steps; ++step) {
    now += 1000000 + r.below(r.chance(10) ? 100000000 : 3) * 1000000ll + r.below(1000000) * (now % 1000000 == 0);
    now -= now % 1000000;
    const int64_t us = now + r.below(1000000);
    current::time::SetNow(std::chrono::microseconds(us));
    bool indeterminate = false;
    const int k = r.below(smc ? 10 : 4);
    try {
      if (!smc) {
        // Opened with the file as is, or with none, or with an invalid one.
        int what = 0;
        std::string content;
        if (k == 0 && !model.count("cfg.json")) {
          what = 1;
        } else if (k == 1) {
          content = bad();
          put(content);
          what = 2;
        } else {
          const Cfg c = RandomCfg(r);
          content = JSON(c);
          cur = c;
          put(r.chance(50) ? content : "  " + content + "\n");
          if (k == 2 && r.chance(50)) {
            // The history can't be written.
            if (mkdir((dir + "/" + History(us)).c_str(), 0777)) abort();
            model[History(us)] = "<dir>";
            what = 3;
          }
        }
        log += "open" + std::to_string(what) + " ";
        try {
          smc = std::make_unique<current::SelfModifyingConfig<Cfg>>(fn);
          VH_CHECK(what == 0, "config:opened", log);
          model[History(us)] = content;
          model["cfg.json"] = content;
        } catch (const current::SelfModifyingConfigReadFileException&) {
          VH_CHECK(what == 1, "config:read", log);
        } catch (const current::SelfModifyingConfigParseJSONException&) {
          VH_CHECK(what == 2, "config:parse", log + content);
        } catch (const current::SelfModifyingConfigWriteFileException&) {
          VH_CHECK(what == 3, "config:write", log);
        }
      } else if (k < 5) {
        const Cfg c = RandomCfg(r);
        log += "update ";
        // With the time given, or the current one; with the very config in use, too.
        const bool self = r.chance(10);
        if (self) smc->Update(smc->Config(), std::chrono::microseconds(us));
        else if (r.chance(50)) smc->Update(c, std::chrono::microseconds(us));
        else smc->Update(c);
        model[History(us)] = JSON(cur);
        if (!self) cur = c;
        model["cfg.json"] = JSON(cur);
        vh::Count("updates");
      } else if (k == 5) {
        const Cfg c = RandomCfg(r);
        put(JSON(c));
        log += "reload ";
        smc->Reload();
        cur = c;
        vh::Count("reloads");
      } else if (k == 6) {
        log += "bad reload ";
        if (r.chance(30)) {
          unlink(fn.c_str());
          model.erase("cfg.json");
          try {
            smc->Reload();
            vh::Violation("config:reload of none", log);
          } catch (const current::SelfModifyingConfigReadFileException&) {
          }
        } else {
          put(bad());
          try {
            smc->Reload();
            vh::Violation("config:reload of bad", log + model["cfg.json"]);
          } catch (const current::SelfModifyingConfigParseJSONException&) {
          }
        }
        put(JSON(cur));
      } else if (k == 7) {
        // No place for the history: nothing changes.
        log += "no history ";
        const bool ro = r.chance(50);
        if (ro) {
          chmod(dir.c_str(), 0555);
        } else {
          if (mkdir((dir + "/" + History(us)).c_str(), 0777)) abort();
          model[History(us)] = "<dir>";
        }
        try {
          smc->Update(RandomCfg(r), std::chrono::microseconds(us));
          vh::Violation("config:updated with no history", log);
        } catch (const current::SelfModifyingConfigWriteFileException&) {
        }
        if (ro) chmod(dir.c_str(), 0777);
      } else if (k == 8) {
        // The config itself can't be written: reported, with the previous one kept in the history.
        log += "read-only ";
        chmod(fn.c_str(), 0444);
        try {
          smc->Update(RandomCfg(r), std::chrono::microseconds(us));
          vh::Violation("config:updated the read-only", log);
        } catch (const current::SelfModifyingConfigWriteFileException&) {
        }
        chmod(fn.c_str(), 0666);
        model[History(us)] = JSON(cur);
        smc->Reload();
      } else {
        log += "close ";
        smc = nullptr;
      }
    } catch (const current::Exception& e) {
      vh::Violation("config:exception", log + e.DetailedDescription());
      return;
    }
    vh::Eval();
    const Files f = ReadAll(dir);
    if (!(f == model)) {
      vh::Violation("config:files", log + " : " + Show(f) + " vs " + Show(model));
      return;
    }
    if (smc) {
      const Cfg& conv = *smc;
      if (JSON(smc->Config()) != JSON(cur) || &conv != &smc->Config()) {
        vh::Violation("config:value", log + JSON(smc->Config()) + " vs " + JSON(cur));
        return;
      }
    }
  }
  vh::Distinct(vh::hash_str(log));
}

// ---- dflags.
struct Flags {
  int8_t i8;
  uint8_t u8;
  int16_t i16;
  uint16_t u16;
  int32_t i32;
  uint32_t u32;
  int64_t i64;
  uint64_t u64;
  size_t sz;
  float f;
  double d;
  std::string s;
  bool b, b2;
};

static std::string Dump(const Flags& x) {
  char buf[512];
  snprintf(buf, sizeof(buf), "%d %d %d %d %d %u %lld %llu %zu %a %a %d %d ", x.i8, x.u8, x.i16, x.u16, x.i32, x.u32, static_cast<long long>(x.i64), static_cast<unsigned long long>(x.u64), x.sz, x.f, x.d, x.b, x.b2);
  return buf + x.s;
}

static const char* kNames[] = {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "sz", "f", "d", "s", "b", "b2"};

// Returns whether parsed.
static bool SetModel(Flags& m, const std::string& name, const std::string& v) {
  auto num = [&](auto& to) {
    typedef std::decay_t<decltype(to)> T;
    size_t i = 0;
    const bool neg = !v.empty() && v[0] == '-';
    if (neg) ++i;
    if (i == v.size()) return false;
    unsigned __int128 a = 0;
    for (; i < v.size(); ++i) {
      if (v[i] < '0' || v[i] > '9') return false;
      a = a * 10 + (v[i] - '0');
    }
    const __int128 x = neg ? -static_cast<__int128>(a) : static_cast<__int128>(a);
    if (x < std::numeric_limits<T>::min() || x > std::numeric_limits<T>::max()) return false;
    to = static_cast<T>(x);
    return true;
  };
  auto boolean = [&](bool& to) {
    if (v == "0" || v == "false" || v == "False" || v == "no" || v == "No") return to = false, true;
    if (v == "1" || v == "true" || v == "True" || v == "yes" || v == "Yes") return to = true, true;
    return false;
  };
  auto flt = [&](auto& to) {
    char* e = nullptr;
    if (v.empty()) return false;
    to = sizeof(to) == 4 ? strtof(v.c_str(), &e) : strtod(v.c_str(), &e);
    return *e == 0;
  };
  if (name == "i8") return num(m.i8);
  if (name == "u8") return num(m.u8);
  if (name == "i16") return num(m.i16);
  if (name == "u16") return num(m.u16);
  if (name == "i32") return num(m.i32);
  if (name == "u32") return num(m.u32);
  if (name == "i64") return num(m.i64);
  if (name == "u64") return num(m.u64);
  if (name == "sz") return num(m.sz);
  if (name == "f") return flt(m.f);
  if (name == "d") return flt(m.d);
  if (name == "s") return m.s = v, true;
  if (name == "b") return boolean(m.b);
  return boolean(m.b2);
}

static std::string FlagValue(vh::Rng& r, const std::string& name) {
  char buf[64];
  if (r.chance(6)) {
    static const char* odd[] = {"", "abc", "-", "maybe", "--x", "TRUE", "x1", "9999999999999999999999", "yes", "nan?"};
    return odd[r.below(10)];
  }
  if (name == "s") return r.chance(20) ? "" : r.chance(20) ? "a=b" : r.chance(20) ? "--s" : Bytes(r, 1 + r.below(6), std::string(1, '\0'));
  if (name[0] == 'b') {
    static const char* bs[] = {"0", "1", "true", "false", "True", "False", "yes", "no", "Yes", "No"};
    return bs[r.below(10)];
  }
  if (name == "f") return snprintf(buf, sizeof(buf), "%.9g", static_cast<float>((r.unit() - 0.5) * 1e6)), buf;
  if (name == "d") return snprintf(buf, sizeof(buf), "%.17g", (r.unit() - 0.5) * pow(10, r.range(-30, 30))), buf;
  const bool u = name[0] == 'u' || name == "sz";
  const int bits = name == "sz" ? 64 : atoi(name.c_str() + 1);
  // Within the bounds, at them, and one beyond.
  if (u) {
    const uint64_t max = bits == 64 ? ~0ull : (1ull << bits) - 1;
    const unsigned __int128 v = r.chance(70) ? r.next() & max : r.chance(50) ? static_cast<unsigned __int128>(max) - r.below(2) : r.chance(30) ? static_cast<unsigned __int128>(max) + 1 : r.below(11);
    if (v > ~0ull) return "18446744073709551616";
    return std::to_string(static_cast<uint64_t>(v));
  }
  const __int128 max = (static_cast<__int128>(1) << (bits - 1)) - 1, min = -max - 1;
  const __int128 v = r.chance(60) ? static_cast<__int128>(static_cast<int64_t>(r.next()) >> (64 - bits)) : r.chance(40) ? max - r.below(2) : r.chance(50) ? min + r.below(2) : r.chance(30) ? max + 1 : r.chance(30) ? min - 1 : static_cast<__int128>(r.range(-10, 10));
  if (v > INT64_MAX) return "9223372036854775808";
  if (v < INT64_MIN) return "-9223372036854775809";
  return std::to_string(static_cast<int64_t>(v));
}

struct ParseOutcome {
  int code = -1000;  // Of the exit, if any.
  std::vector<std::string> args;
};

static void FlagsCase(vh::Rng& r) {
  Flags def;
  def.i8 = r.next(), def.u8 = r.next(), def.i16 = r.next(), def.u16 = r.next(), def.i32 = r.next(), def.u32 = r.next(), def.i64 = r.next(), def.u64 = r.next(), def.sz = r.next();
  def.f = r.range(-1000, 1000) / 8.0f;
  def.d = r.range(-1000, 1000) / 8.0;
  def.s = r.chance(50) ? "" : "default";
  def.b = r.chance(50), def.b2 = r.chance(50);
  Flags x = def, m = def;
  std::vector<std::string> args = {r.chance(50) ? "prog" : "./a/b c"};
  const size_t n = r.below(r.chance(10) ? 30 : 8);
  for (size_t i = 0; i < n; ++i) {
    const int k = r.below(20);
    if (k < 14) {
      const std::string name = kNames[r.below(14)], dashes = r.chance(50) ? "-" : "--";
      if (name[0] == 'b' && r.chance(50)) {
        args.push_back(dashes + name);
        if (r.chance(40)) args.push_back(FlagValue(r, name));
      } else if (r.chance(50)) {
        args.push_back(dashes + name + "=" + FlagValue(r, name));
      } else {
        args.push_back(dashes + name);
        args.push_back(FlagValue(r, name));
      }
    } else if (k < 18) {
      static const char* free_args[] = {"foo", "", "x=1", "0", "yes", "a-b", "i8"};
      args.push_back(free_args[r.below(7)]);
    } else if (r.chance(30)) {
      static const char* odd[] = {"--nosuchflag", "--nosuchflag=1", "---i8=1", "-", "--", "--i8", "--help", "-help", "--I8=1", "--i", "--=1", "--help=1", "---", "--s"};
      args.push_back(odd[r.below(14)]);
    }
  }
  // The expected outcome, by the comment at the top of dflags.h.
  int code = -1000;
  std::vector<std::string> rest = {args[0]};
  for (size_t i = 1; i < args.size() && code == -1000; ++i) {
    const std::string& a = args[i];
    if (a.empty() || a[0] != '-') {
      rest.push_back(a);
      continue;
    }
    size_t d = 0;
    while (d < a.size() && a[d] == '-') ++d;
    if (d > 2) {
      code = 255;
      break;
    }
    const size_t eq = a.find('=', d);
    const std::string name = a.substr(d, eq == std::string::npos ? std::string::npos : eq - d);
    if (name == "help") {
      code = 0;
      break;
    }
    bool known = false;
    for (const char* q : kNames) known |= name == q;
    if (!known) {
      code = 255;
      break;
    }
    std::string value;
    if (eq != std::string::npos) {
      value = a.substr(eq + 1);
    } else {
      bool tmp = false;
      Flags scratch = m;
      if (name[0] == 'b' && (i + 1 == args.size() || !SetModel(scratch, name, args[i + 1]))) {
        value = "1";
      } else if (i + 1 == args.size()) {
        code = 255;
        break;
      } else {
        value = args[++i];
      }
      static_cast<void>(tmp);
    }
    // Whether whitespace, a plus, or trailing garbage is a part of a number is up to streams.
    if (name[0] != 'b' && name != "s") {
      bool plain = true;
      for (size_t q = 0; q < value.size(); ++q) plain &= strchr("0123456789-.eE+", value[q]) != nullptr;
      if (!plain && !value.empty() && (isdigit(value[0]) || isspace(value[0]) || value[0] == '+')) return;
    }
    if (!SetModel(m, name, value)) {
      if ((name == "f" || name == "d") && !value.empty() && isdigit(value[0])) return;
      code = 255;
    }
  }
  std::string shown;
  for (const auto& a : args) shown += "[" + Q(a) + "] ";
  dflags::FlagsManager::DefaultRegisterer registerer;
  dflags::FlagsManager::ScopedSingletonInjector injector(registerer);
  dflags::FlagRegisterer<int8_t> r1(x.i8, "i8", "int8_t", def.i8, "d1");
  dflags::FlagRegisterer<uint8_t> r2(x.u8, "u8", "uint8_t", def.u8, "d2");
  dflags::FlagRegisterer<int16_t> r3(x.i16, "i16", "int16_t", def.i16, "d3");
  dflags::FlagRegisterer<uint16_t> r4(x.u16, "u16", "uint16_t", def.u16, "d4");
  dflags::FlagRegisterer<int32_t> r5(x.i32, "i32", "int32_t", def.i32, "d5");
  dflags::FlagRegisterer<uint32_t> r6(x.u32, "u32", "uint32_t", def.u32, "d6");
  dflags::FlagRegisterer<int64_t> r7(x.i64, "i64", "int64_t", def.i64, "d7");
  dflags::FlagRegisterer<uint64_t> r8(x.u64, "u64", "uint64_t", def.u64, "d8");
  dflags::FlagRegisterer<size_t> r9(x.sz, "sz", "size_t", def.sz, "d9");
  dflags::FlagRegisterer<float> r10(x.f, "f", "float", def.f, "d10");
  dflags::FlagRegisterer<double> r11(x.d, "d", "double", def.d, "d11");
  dflags::FlagRegisterer<std::string> r12(x.s, "s", "std::string", def.s, "d12");
  dflags::FlagRegisterer<bool> r13(x.b, "b", "bool", def.b, "d13");
  dflags::FlagRegisterer<bool> r14(x.b2, "b2", "bool", def.b2, "d14");
  std::vector<std::unique_ptr<char[]>> copies;
  std::vector<char*> argv;
  for (const auto& a : args) {
    copies.emplace_back(new char[a.size() + 1]);
    memcpy(copies.back().get(), a.c_str(), a.size() + 1);
    argv.push_back(copies.back().get());
  }
  argv.push_back(nullptr);
  vh::Eval();
  vh::Distinct(vh::hash_str(shown));
  const bool twice = code == -1000 && r.chance(3);
  if (code == -1000 && !twice) {
    int argc = static_cast<int>(args.size());
    char** av = argv.data();
    // An exit ends the harness with no "done" reported.
    vh::CaseDurable("flags " + shown);
    if (r.chance(50)) ParseDFlags(&argc, &av);
    else google::ParseCommandLineFlags(&argc, &av);
    VH_CHECK(Dump(x) == Dump(m), "flags:values", shown + ": " + Q(Dump(x)) + " vs " + Q(Dump(m)));
    std::vector<std::string> got;
    for (int i = 0; i < argc; ++i) got.emplace_back(av[i]);
    VH_CHECK(got == rest, "flags:rest", shown);
    vh::Count("parsed");
    return;
  }
  int fd[2];
  if (pipe(fd)) abort();
  const pid_t pid = fork();
  if (pid == 0) {
    dup2(fd[1], 1);
    dup2(fd[1], 2);
    close(fd[0]);
    close(fd[1]);
    int argc = static_cast<int>(args.size());
    char** av = argv.data();
    ParseDFlags(&argc, &av);
    if (twice) {
      argc = static_cast<int>(args.size());
      av = argv.data();
      ParseDFlags(&argc, &av);
    }
    ::_exit(77);
  }
  close(fd[1]);
  std::string out;
  char b[4096];
  ssize_t q;
  while ((q = read(fd[0], b, sizeof(b))) > 0) out.append(b, q);
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  const int want = twice ? 255 : code;
  VH_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == want, "flags:exit", shown + " : " + std::to_string(st) + ", expected " + std::to_string(want) + ": " + out.substr(0, 800));
  if (want == 255) {
    VH_CHECK(!out.empty(), "flags:no message", shown);
  } else {
    const std::string types[] = {"int8_t", "uint8_t", "int16_t", "uint16_t", "int32_t", "uint32_t", "int64_t", "uint64_t", "size_t", "float", "double", "std::string", "bool", "bool"};
    const std::string defaults[] = {std::to_string(def.i8), std::to_string(def.u8), std::to_string(def.i16), std::to_string(def.u16), std::to_string(def.i32), std::to_string(def.u32), std::to_string(def.i64), std::to_string(def.u64), std::to_string(def.sz), std::to_string(def.f), std::to_string(def.d), "'" + def.s + "'", def.b ? "True" : "False", def.b2 ? "True" : "False"};
    VH_CHECK(out.find("14 flags registered.") != std::string::npos, "flags:help", out);
    for (int i = 0; i < 14; ++i) {
      const size_t p = out.find(std::string("\t--") + kNames[i] + " , " + types[i]);
      const size_t e = p == std::string::npos ? p : std::min(out.size(), out.find("\t--", p + 3));
      const std::string section = p == std::string::npos ? "" : out.substr(p, e - p);
      VH_CHECK(section.find("d" + std::to_string(i + 1)) != std::string::npos && section.find("Default value: " + defaults[i] + "\n") != std::string::npos, "flags:help", std::string(kNames[i]) + ": " + out);
    }
    vh::Count("help");
  }
  vh::Count("exits");
}

int main(int argc, char** argv) {
  return vh::Main(argc, argv, [] {
    const auto& o = vh::opt();
    for (uint64_t i = 0; i < o.cases && !vh::TooMany(); ++i) {
      vh::Rng r(o.seed + i * 7919);
      vh::Case(o.mode + " seed=" + std::to_string(o.seed) + " case=" + std::to_string(i));
      if (o.mode == "config") ConfigCase(r);
      else if (o.mode == "flags") FlagsCase(r);
      else abort();
    }
  });
}
#endif
