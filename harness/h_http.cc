// HTTP: what was sent is what is seen, on both sides, however the bytes were cut into reads, or mangled.
//   PARTS 1: the parsers and responders themselves, over connections the harness plays.
//   PARTS 2: a real server and a real client over loopback.
//   PARTS 4: URLs and headers.
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <errno.h>
#include "vh.h"

#ifndef PARTS
#define PARTS 7
#endif

static ssize_t VHRecv(int fd, void* p, size_t n, int flags);
static ssize_t VHSend(int fd, const void* p, size_t n, int flags);
#if PARTS & 1
#define recv VHRecv
#define send VHSend
#endif
#include "blocks/http/api.h"
#include "blocks/http/chunked_response_parser.h"
#undef recv
#undef send
#include "vh_net.h"

using namespace current;
using current::net::http::Headers;
using current::net::http::Header;
using current::net::http::Cookie;

// ---- Shared: what is sent.
static const char* const kTokenChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_!#$%&'*+.^`|~";
static std::string Token(vh::Rng& r, size_t max) {
  std::string s;
  const size_t n = 1 + r.below(max), k = r.chance(50) ? 5 : strlen(kTokenChars);
  while (s.size() < n) s += kTokenChars[r.below(k)];
  return s;
}
static std::string AnyBytes(vh::Rng& r, size_t n) {
  static const std::string some("\r\n\0:;=&%+ /?#0aF\"", 17);
  std::string s;
  const int kind = static_cast<int>(r.below(3));
  while (s.size() < n) {
    s += kind == 0 ? some[r.below(some.size())] : kind == 1 ? static_cast<char>(r.below(256)) : static_cast<char>('a' + r.below(26));
  }
  return s;
}
static size_t SomeSize(vh::Rng& r) {
  switch (r.below(12)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return 16 * 1024 - 40 + r.below(80);
    case 3: return r.below(70000);
    case 4: return r.below(3000);
    default: return r.below(80);
  }
}
// No control characters, and no blanks around.
static std::string HeaderValue(vh::Rng& r) {
  std::string s;
  const size_t n = r.chance(3) ? 20000 : r.chance(10) ? 0 : r.below(30);
  while (s.size() < n) {
    const int c = static_cast<int>(r.below(256));
    s += static_cast<char>(c < 32 || c == 127 ? (r.chance(20) ? '\t' : ' ') : c);
  }
  const size_t b = s.find_first_not_of(" \t"), e = s.find_last_not_of(" \t");
  return b == std::string::npos ? "" : s.substr(b, e - b + 1);
}
static std::string Canonical(std::string s) {
  for (char& c : s) {
    if (c == '-') c = '_';
    if (c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32);
  }
  return s;
}
static bool IsCookieName(const std::string& s) { return Canonical(s) == "cookie" || Canonical(s) == "set_cookie"; }

// The reference model of `Headers`.
struct RefHeaders {
  std::vector<std::pair<std::string, std::string>> list;  // In the order they appeared, of the spelling they did.
  std::map<std::string, std::pair<std::string, std::map<std::string, std::string>>> cookies;
  std::pair<std::string, std::string>* Find(const std::string& k) {
    for (auto& e : list) {
      if (Canonical(e.first) == Canonical(k)) return &e;
    }
    return nullptr;
  }
  void Set(const std::string& k, const std::string& v) {
    if (k.empty()) return;
    auto* e = Find(k);
    if (!e) {
      list.emplace_back(k, v);
    } else if (!v.empty()) {
      if (!e->second.empty()) e->second += ", ";
      e->second += v;
    }
  }
};
static std::string Dump(RefHeaders& h) {
  std::string s;
  for (auto& e : h.list) s += e.first + "=>" + e.second + "\n";
  for (auto& c : h.cookies) {
    s += "cookie " + c.first + "=>" + c.second.first + "\n";
    for (auto& p : c.second.second) s += "  " + p.first + "=>" + p.second + "\n";
  }
  return s;
}
static std::string Dump(const Headers& h) {
  std::string s;
  for (const auto& e : h) s += e.header + "=>" + e.value + "\n";
  for (const auto& c : h.cookies) {
    s += "cookie " + c.first + "=>" + c.second.value + "\n";
    for (const auto& p : c.second.params) s += "  " + p.first + "=>" + p.second + "\n";
  }
  return s;
}
static std::string Percent(unsigned char c, vh::Rng& r) {
  char b[4];
  snprintf(b, sizeof(b), r.chance(50) ? "%%%02X" : "%%%02x", c);
  return b;
}
// Of the query string: anything can be escaped.
static std::string Escaped(const std::string& s, vh::Rng& r) {
  std::string e;
  for (unsigned char c : s) {
    const bool safe = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || strchr("-_.~!'()*,:@/?", c);
    if (c == ' ' && r.chance(50)) {
      e += '+';
    } else if (!c || !safe || r.chance(10)) {
      e += Percent(c, r);
    } else {
      e += static_cast<char>(c);
    }
  }
  return e;
}

struct Message {
  bool request = true;
  std::string text;
  size_t needed = 0;  // How much of the text has to be read.
  std::string method, target, path, fragment;
  std::vector<std::pair<std::string, std::string>> params;
  RefHeaders headers;
  std::vector<std::pair<std::string, std::string>> raw_headers;
  std::string body;
  bool has_body = false, chunked = false;
  int buffer = 0;  // To read the message into.
  std::vector<std::string> chunks;
};

static void MakeTarget(vh::Rng& r, Message& m) {
  static const char chars[] = "abcXYZ019-._~!$&'()*+,;=:@/%";
  m.path = "/";
  for (uint64_t i = 0, n = r.chance(3) ? 5000 : r.below(20); i < n; ++i) {
    const char c = chars[r.below(sizeof(chars) - 1)];
    if (m.path == "/" && c == '/') continue;  // `//host`.
    m.path += c;
  }
  m.target = m.path;
  if (r.chance(60)) {
    m.target += '?';
    const size_t n = 1 + r.below(4);
    for (size_t i = 0; i < n; ++i) {
      std::string k = r.chance(80) ? Token(r, 4) : AnyBytes(r, 1 + r.below(5)), v = r.chance(70) ? AnyBytes(r, r.below(10)) : "";
      if (i) m.target += '&';
      m.target += Escaped(k, r);
      if (!v.empty() || r.chance(50)) m.target += "=" + Escaped(v, r);
      m.params.emplace_back(k, v);
    }
  }
  if (r.chance(20)) {
    m.fragment = Token(r, 6);
    m.target += "#" + m.fragment;
  }
}

static Message MakeMessage(vh::Rng& r, bool request) {
  Message m;
  m.request = request;
  static const char* methods[] = {"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS"};
  m.method = r.chance(90) ? methods[r.below(7)] : Token(r, 9);
  if (request) {
    MakeTarget(r, m);
    for (uint64_t i = r.chance(20) ? 1 + r.below(3) : 0; i; --i) m.text += "\r\n";
    m.text += m.method + " " + m.target + " HTTP/1." + (r.chance(80) ? "1" : "0") + "\r\n";
  } else {
    m.method = "HTTP/1.1";
    m.target = std::to_string(100 + r.below(500));
    m.path = "/";
    m.text += m.method + " " + m.target + " " + Token(r, 10) + "\r\n";
  }
  std::vector<std::pair<std::string, std::string>> hs;
  for (uint64_t i = 0, n = r.below(r.chance(5) ? 200 : 8); i < n; ++i) {
    std::string k = Token(r, 6);
    if (r.chance(30) && !hs.empty()) {
      k = hs[r.below(hs.size())].first;
      for (char& c : k) {
        if (r.chance(30)) c = c == '-' ? '_' : c == '_' ? '-' : c;
        if (r.chance(50)) c = static_cast<char>(r.chance(50) ? toupper(c) : tolower(c));
      }
    }
    if (IsCookieName(k)) continue;
    hs.emplace_back(k, HeaderValue(r));
  }
  m.buffer = static_cast<int>(r.chance(50) ? 2 + r.below(60) : r.chance(50) ? 16 * 1024 + 1 : 2 + r.below(5000));
  m.has_body = !request || r.chance(60) || m.method == "POST" || m.method == "PUT" || m.method == "PATCH";
  m.chunked = m.has_body && r.chance(50);
  auto add = [&](const std::string& k, const std::string& v) { hs.insert(hs.begin() + r.below(hs.size() + 1), {k, v}); };
  auto spelled = [&](std::string s) {
    for (char& c : s) {
      if (r.chance(20)) c = static_cast<char>(r.chance(50) ? toupper(c) : tolower(c));
    }
    return s;
  };
  if (m.has_body) {
    m.body = AnyBytes(r, m.chunked && r.chance(6) ? 100000 + r.below(300000) : SomeSize(r));
    if (m.chunked) {
      add(spelled("Transfer-Encoding"), spelled("chunked"));
      if (r.chance(10)) add("Content-Length", std::to_string(r.below(1000)));
    } else {
      add(spelled("Content-Length"), std::to_string(m.body.size()));
    }
  }
  if (request && r.chance(10)) {
    m.method = m.has_body || r.chance(50) ? Token(r, 5) : "DELETE";
    add(spelled("X-HTTP-Method-Override"), m.method);
    for (char& c : m.method) c = static_cast<char>(toupper(c));
    if (!m.has_body && (m.method == "POST" || m.method == "PUT" || m.method == "PATCH")) {
      m.has_body = true;
      add("Content-Length", "0");
    }
  }
  for (const auto& h : hs) m.headers.Set(h.first, h.second);
  for (uint64_t i = r.chance(30) ? 1 + r.below(2) : 0; i; --i) {
    std::string v;
    for (uint64_t k = 1 + r.below(3); k; --k) {
      const std::string name = Token(r, 3), value = Token(r, 4);
      if (name.find_first_of("=;") != std::string::npos || value.find_first_of("=;") != std::string::npos) continue;
      if (!v.empty()) v += r.chance(80) ? "; " : ";";
      v += name + "=" + value;
      m.headers.cookies.emplace(name, std::make_pair(value, std::map<std::string, std::string>()));
    }
    add(spelled(request ? "Cookie" : "Set-Cookie"), v);
  }
  if (!m.headers.cookies.empty()) {
    // The first one of the same name stays; recompute in the order of headers.
    m.headers.cookies.clear();
    for (const auto& h : hs) {
      if (!IsCookieName(h.first)) continue;
      size_t at = 0;
      while (at < h.second.size()) {
        size_t end = h.second.find(';', at);
        if (end == std::string::npos) end = h.second.size();
        std::string kv = h.second.substr(at, end - at);
        kv = kv.substr(kv.find_first_not_of(' '));
        const size_t eq = kv.find('=');
        m.headers.cookies.emplace(kv.substr(0, eq), std::make_pair(kv.substr(eq + 1), std::map<std::string, std::string>()));
        at = end + 1;
      }
    }
  }
  m.raw_headers = hs;
  for (const auto& h : hs) {
    auto blank = [&]() {
      std::string b;
      for (uint64_t i = r.chance(50) ? 1 : r.below(4); i; --i) b += r.chance(80) ? ' ' : '\t';
      return b;
    };
    m.text += h.first + ":" + blank() + h.second + (r.chance(20) ? blank() : "") + "\r\n";
  }
  m.text += "\r\n";
  if (m.has_body) {
    if (!m.chunked) {
      m.text += m.body;
    } else {
      size_t at = 0;
      const size_t cap = m.body.size() > 90000 ? 100000 : r.chance(30) ? 4 : r.chance(50) ? 300 : 100000;
      while (at < m.body.size()) {
        // As large as the buffer the message is to be read into is, or may become, every now and then.
        const size_t around = r.chance(50) ? m.buffer : static_cast<size_t>(m.buffer * 1.95);
        size_t n = r.chance(15) ? around + r.below(4) - std::min<size_t>(around - 1, 2) : cap == 100000 && r.chance(50) ? 50000 + r.below(50000) : 1 + r.below(cap);
        n = std::min<size_t>(n, m.body.size() - at);
        m.chunks.push_back(m.body.substr(at, n));
        at += n;
      }
      if (m.chunks.size() > 3000) {
        m.chunks.resize(3000);
        m.body.clear();
        for (const auto& c : m.chunks) m.body += c;
      }
      for (const auto& c : m.chunks) {
        char hex[32];
        const char* f[] = {"%zx", "%zX", "%04zx", "%012zX"};
        snprintf(hex, sizeof(hex), f[r.chance(60) ? 1 : r.below(4)], c.size());
        m.text += hex;
        if (r.chance(10)) m.text += "; " + Token(r, 3) + "=\"1\"";
        m.text += "\r\n" + c + "\r\n";
      }
      m.text += r.chance(80) ? "0\r\n" : "000; last\r\n";
    }
  }
  m.needed = m.text.size();
  if (m.chunked) m.text += r.chance(80) ? "\r\n" : "Trailer: x\r\n\r\n";
  return m;
}

#if PARTS & 1
// ---- Connections played by the harness.
struct Fake {
  std::string in, out;
  size_t pos = 0;
  vh::Rng rng{0};
  int fragments = 0;  // 0: as much as asked for, 1: mostly tiny, 2: a mixture.
  int interrupted = 0;
  bool starved = false;
  int end_errno = 0;            // What `errno` is once there is nothing left; -1 with it if `reset`.
  bool reset = false;
  size_t fail_write_at = static_cast<size_t>(-1);
  bool write_failed = false, wrote_after_failure = false;
  uint64_t reads = 0, writes = 0;
};
static std::map<int, Fake*>& Fakes() {
  static thread_local std::map<int, Fake*> m;
  return m;
}
static ssize_t VHRecv(int fd, void* p, size_t n, int flags) {
  const auto it = Fakes().find(fd);
  if (it == Fakes().end()) return ::recv(fd, p, n, flags);
  Fake& f = *it->second;
  ++f.reads;
  if (static_cast<int>(f.rng.below(100)) < f.interrupted) {
    errno = EINTR;
    return -1;
  }
  const size_t left = f.in.size() - f.pos;
  if (!left) {
    f.starved = true;
    errno = f.end_errno;
    return f.reset ? (errno = ECONNRESET, -1) : 0;
  }
  size_t k = std::min(n, left);
  if (!(flags & MSG_WAITALL) || static_cast<int>(f.rng.below(100)) < f.interrupted) {
    if (f.fragments == 1 || (f.fragments == 2 && f.rng.chance(50))) {
      k = std::min<size_t>(k, 1 + f.rng.below(f.in.size() < 2000 ? 3 : f.in.size() / 200));
    } else if (f.fragments == 2) {
      k = std::min<size_t>(k, 1 + f.rng.below(2000));
    }
  }
  memcpy(p, f.in.data() + f.pos, k);
  f.pos += k;
  return static_cast<ssize_t>(k);
}
static ssize_t VHSend(int fd, const void* p, size_t n, int flags) {
  const auto it = Fakes().find(fd);
  if (it == Fakes().end()) return ::send(fd, p, n, flags);
  Fake& f = *it->second;
  ++f.writes;
  if (f.write_failed) f.wrote_after_failure = true;
  if (f.out.size() + n > f.fail_write_at) {
    f.write_failed = true;
    const size_t k = f.fail_write_at - f.out.size();
    f.out.append(static_cast<const char*>(p), k);
    errno = EPIPE;
    return k && f.rng.chance(50) ? static_cast<ssize_t>(k) : -1;
  }
  f.out.append(static_cast<const char*>(p), n);
  return static_cast<ssize_t>(n);
}
struct FakeConnection {
  Fake f;
  int fd;
  explicit FakeConnection(vh::Rng& r) {
    f.rng = r.fork();
    f.fragments = static_cast<int>(r.below(3));
    f.interrupted = r.chance(20) ? 20 : 0;
    const int errnos[] = {0, EAGAIN, ECONNRESET, EINTR, EINVAL};
    f.end_errno = errnos[r.below(5)];
    fd = ::open("/dev/null", O_RDWR | O_CLOEXEC);
    Fakes()[fd] = &f;
  }
  net::Connection Connect() {
    return net::Connection(net::SocketHandle(net::SocketHandle::FromAcceptedHandle(fd)), net::IPAndPort("1.2.3.4", 5), net::IPAndPort("6.7.8.9", 10));
  }
  ~FakeConnection() { Fakes().erase(fd); }
};

static std::string Show(const Message& m) { return std::to_string(m.text.size()) + " bytes: " + m.text.substr(0, 700); }

template <typename DATA> static void CheckMessage(const Message& m, const DATA& d, const Headers& headers) {
  VH_CHECK(d.Method() == m.method, "http:method", d.Method() + " on " + Show(m));
  VH_CHECK(d.RawPath() == m.target, "http:target", d.RawPath() + " on " + Show(m));
  if (m.request) {
    VH_CHECK(d.URL().path == m.path, "http:path", d.URL().path + " on " + Show(m));
    VH_CHECK(d.URL().parameters_vector == m.params, "http:params", Show(m));
    std::map<std::string, std::string> first;
    for (const auto& p : m.params) first.insert(p);
    VH_CHECK(d.URL().query.AsImmutableMap() == first, "http:query", Show(m));
    VH_CHECK(d.URL().fragment == m.fragment, "http:fragment", Show(m));
  }
  RefHeaders h = m.headers;
  VH_CHECK(Dump(headers) == Dump(h), "http:headers", Dump(headers).substr(0, 500) + " on " + Show(m));
  VH_CHECK(d.Body() == m.body, "http:body", std::to_string(d.Body().size()) + " bytes, must be " + std::to_string(m.body.size()) + " on " + Show(m));
  VH_CHECK(d.BodyLength() == m.body.size() && std::string(d.BodyBegin(), d.BodyEnd()) == m.body, "http:body-pointers", Show(m));
}

struct Chunked : net::HTTPDefaultHelper {};

// One message, complete, or cut short, into one of the parsers.
static void ParseCase(vh::Rng& r) {
  Message m = MakeMessage(r, r.chance(70));
  vh::Eval();
  vh::Distinct(vh::hash_str(m.text));
  const bool cut = r.chance(20);
  // Nothing is read past the end of the message, unless it is there already.
  const size_t end = cut ? r.below(m.needed) : r.chance(50) ? m.needed : m.text.size();
  m.text.resize(end);
  if (!cut && r.chance(10)) m.text += MakeMessage(r, true).text;
  FakeConnection c(r);
  c.f.in = m.text;
  c.f.reset = r.chance(30);
  const int buffer = m.buffer;
  const double growth = r.chance(50) ? 1.95 : r.chance(50) ? 1.0 : 1.0 + r.unit() * 3;
  try {
    if (m.request) {
      net::HTTPServerConnection s(c.Connect(), net::HTTPDefaultHelper::ConstructionParams(), buffer, growth);
      VH_CHECK(!cut, "http:cut", "accepted a part: " + Show(m));
      if (!cut) CheckMessage(m, s.HTTPRequest(), s.HTTPRequest().headers());
      VH_CHECK(s.RemoteIPAndPort().ip == "6.7.8.9" && s.RemoteIPAndPort().port == 10 && s.LocalIPAndPort().port == 5, "http:ip", "");
      s.DoNotSendAnyResponse();
      vh::Count(m.chunked ? "requests_chunked" : "requests");
    } else if (!m.chunked || r.chance(50)) {
      net::Connection conn(c.Connect());
      net::GenericHTTPRequestData<http::impl::HTTPRedirectHelper> d(conn, http::impl::HTTPRedirectHelper::ConstructionParams(), buffer, growth);
      VH_CHECK(!cut, "http:cut", "accepted a part: " + Show(m));
      if (!cut) CheckMessage(m, d, d.headers());
      vh::Count(m.chunked ? "responses_chunked" : "responses");
    } else {
      std::vector<std::string> chunks;
      RefHeaders hs;
      int done = 0;
      ChunkByChunkHTTPResponseReceiver::ConstructionParams params(
          [&](const std::string& k, const std::string& v) {
            if (!IsCookieName(k)) hs.Set(k, v);
            VH_CHECK(chunks.empty() && !done, "http:by-chunk:order", Show(m));
          },
          [&](const std::string& s) { chunks.push_back(s); },
          [&]() { ++done; });
      net::Connection conn(c.Connect());
      try {
        net::GenericHTTPRequestData<ChunkByChunkHTTPResponseReceiver> d(conn, params, buffer, growth);
        VH_CHECK(!cut && done == 1, "http:cut", "accepted a part: " + Show(m));
        hs.cookies = m.headers.cookies;
        VH_CHECK(Dump(hs) == Dump(m.headers), "http:by-chunk:headers", Show(m));
        VH_CHECK(chunks == m.chunks, "http:by-chunk:chunks", Show(m));
      } catch (const Exception&) {
        VH_CHECK(!done, "http:cut", "done: " + Show(m));
        // What has been delivered, is of it.
        VH_CHECK(chunks.size() <= m.chunks.size() && std::equal(chunks.begin(), chunks.end(), m.chunks.begin()), "http:by-chunk:cut", Show(m));
        throw;
      }
      vh::Count("responses_by_chunk");
    }
    VH_CHECK(cut || !c.f.starved, "http:waits", "waits for more than the message: " + Show(m));
  } catch (const net::SocketException& e) {
    VH_CHECK(cut, "http:refused", std::string(e.what()) + " on " + Show(m));
    vh::Count("cut");
  } catch (const std::exception& e) {
    vh::Violation("http:exception", std::string(e.what()) + " on " + Show(m));
  }
  vh::Count("reads", c.f.reads);
}

// Anything.
// No length where one is needed: refused with the code for that. With no need for one: no body.
static void NoLengthCase(vh::Rng& r) {
  const char* methods[] = {"POST", "PUT", "PATCH", "GET", "DELETE", "HEAD", "OPTIONS", "post", "POSTS"};
  const size_t k = r.below(9);
  std::string s = std::string(methods[k]) + " /" + Token(r, 5) + " HTTP/1.1\r\n";
  for (uint64_t i = r.below(4); i; --i) s += "X" + Token(r, 6) + ": " + Token(r, 9) + "\r\n";
  const bool overridden = r.chance(20);
  const size_t o = overridden ? r.below(7) : k;
  if (overridden) s += std::string("X-HTTP-Method-Override: ") + methods[o] + "\r\n";
  s += "\r\n";
  FakeConnection c(r);
  c.f.in = s;
  const bool needed = o < 3;
  vh::Eval();
  vh::Distinct(vh::hash_str(s));
  try {
    net::HTTPServerConnection conn(c.Connect(), net::HTTPDefaultHelper::ConstructionParams(), static_cast<int>(r.chance(50) ? 2 + r.below(60) : 16 * 1024 + 1));
    VH_CHECK(!needed, "http:no-length:accepted", s);
    VH_CHECK(conn.HTTPRequest().Method() == methods[o] && conn.HTTPRequest().Body().empty(), "http:no-length:body", s);
    conn.DoNotSendAnyResponse();
  } catch (const net::HTTPRequestBodyLengthNotProvided&) {
    VH_CHECK(needed && c.f.out.compare(0, 13, "HTTP/1.1 411 ") == 0, "http:no-length:refused", c.f.out.substr(0, 100) + " on " + s);
  }
  vh::Count(needed ? "no_length_411" : "no_length");
}

static void HostileCase(vh::Rng& r) {
  if (r.chance(5)) return NoLengthCase(r);
  std::string s;
  if (r.chance(85)) {
    s = MakeMessage(r, r.chance(70)).text;
    if (s.size() > 3000) s = s.substr(0, 500) + s.substr(s.size() - 1000);
  } else {
    s = AnyBytes(r, r.below(300));
  }
  static const char* words[] = {"-1",      "-80000000", "ffffffff", "80000000",          "FFFFFFFFFFFFFFFF", "7ffffff",
                                "0x",      "\r\n",      "\r\n\r\n", "\r\n0\r\n",          ":",                "Content-Length: ",
                                "Transfer-Encoding: chunked\r\n",   "99999999999999999999", "4294967297",     "-",
                                "%",       "%%%",       "%0",       "//",                "://",              "@",
                                "?",       "#",         "http://u:p@h:99999999999/", " ", "POST ",           "Cookie: a",
                                "Cookie: =;=;", "18446744073709551615", "18446744073709551600", "2147483648", "-9223372036854775808"};
  for (uint64_t i = r.below(5); i; --i) {
    const size_t at = r.below(s.size() + 1);
    switch (r.below(6)) {
      case 0: s.insert(at, words[r.below(sizeof(words) / sizeof(*words))]); break;
      case 1: s.insert(at, 1, static_cast<char>(r.below(256))); break;
      case 2: s.erase(at, r.below(8)); break;
      case 3: {  // Where a number is, another one.
        const size_t d = s.find_first_of("0123456789abcdef", at);
        if (d != std::string::npos) {
          const size_t e = s.find_first_not_of("0123456789abcdefABCDEF", d);
          s.replace(d, (e == std::string::npos ? s.size() : e) - d, words[r.below(6)]);
        }
        break;
      }
      case 4: {
        const size_t d = s.find("\r\n", at);
        if (d != std::string::npos) s.insert(d + 2, words[r.below(sizeof(words) / sizeof(*words))]);
        break;
      }
      default:
        if (at < s.size()) s[at] = static_cast<char>(r.below(256));
    }
  }
  vh::Eval();
  vh::Distinct(vh::hash_str(s));
  FakeConnection c(r);
  c.f.in = s;
  c.f.reset = r.chance(30);
  if (r.chance(10)) c.f.fail_write_at = r.below(300);
  const int buffer = static_cast<int>(r.chance(50) ? 2 + r.below(60) : 16 * 1024 + 1);
  try {
    if (r.chance(70)) {
      {
        net::HTTPServerConnection conn(c.Connect(), net::HTTPDefaultHelper::ConstructionParams(), buffer);
        const auto& d = conn.HTTPRequest();
        VH_CHECK(d.Body().size() == d.BodyLength() && d.BodyLength() <= s.size(), "http:hostile:body", s.substr(0, 500));
        URLPathArgs args;
        vh::Count("hostile_accepted");
        // Destructed, with 500 as the response, without having responded.
      }
      VH_CHECK(c.f.write_failed || c.f.out.compare(0, 13, "HTTP/1.1 500 ") == 0, "http:hostile:no-500", s.substr(0, 500));
    } else {
      net::Connection conn(c.Connect());
      net::GenericHTTPRequestData<http::impl::HTTPRedirectHelper> d(conn, http::impl::HTTPRedirectHelper::ConstructionParams(), buffer);
      VH_CHECK(d.Body().size() <= s.size(), "http:hostile:body", s.substr(0, 500));
      vh::Count("hostile_accepted");
    }
  } catch (const Exception& e) {
    vh::Count("hostile_refused");
    const std::string& o = c.f.out;
    VH_CHECK(o.empty() || c.f.write_failed || o.compare(0, 13, "HTTP/1.1 400 ") == 0 || o.compare(0, 13, "HTTP/1.1 411 ") == 0 || o.compare(0, 13, "HTTP/1.1 413 ") == 0,
             "http:hostile:response", o.substr(0, 100) + " on " + s.substr(0, 500));
    if (!o.empty()) vh::Count("hostile_4xx");
  } catch (const std::exception& e) {
    vh::Violation("http:hostile:exception", std::string(e.what()) + " on " + s.substr(0, 1000));
  } catch (...) {
    vh::Violation("http:hostile:exception", s.substr(0, 1000));
  }
}

// The response as an independent parser sees it.
struct Seen {
  int code = 0;
  std::vector<std::pair<std::string, std::string>> headers;  // All of them, verbatim.
  std::string body;
  bool ok = false;
};
static Seen Read(const std::string& raw) {
  Seen s;
  vh::RespParser p;
  p.Feed(raw.data(), raw.size());
  if (!p.complete || p.malformed) return s;
  s.code = p.code;
  s.body = p.body;
  size_t at = p.head.find("\r\n") + 2;
  while (at < p.head.size()) {
    const size_t e = p.head.find("\r\n", at);
    const std::string line = p.head.substr(at, e - at);
    const size_t c = line.find(": ");
    if (c == std::string::npos) return s;
    s.headers.emplace_back(line.substr(0, c), line.substr(c + 2));
    at = e + 2;
  }
  // Nothing follows.
  const size_t total = p.chunked ? p.pos + 5 : p.pos + p.body.size();
  s.ok = total == raw.size();
  return s;
}

static Headers SomeHeaders(vh::Rng& r, std::vector<std::pair<std::string, std::string>>& expected) {
  Headers h;
  RefHeaders ref;
  for (uint64_t i = r.below(5); i; --i) {
    const std::string k = "X" + Token(r, 5), v = HeaderValue(r);
    h.Set(k, v);
    ref.Set(k, v);
  }
  for (const auto& e : ref.list) expected.push_back(e);
  std::map<std::string, std::string> cookies;
  for (uint64_t i = r.below(3); i; --i) {
    const std::string k = Token(r, 3), v = Token(r, 5), p = Token(r, 4);
    if (r.chance(50)) {
      h.SetCookie(k, v);
      if (cookies.count(k)) h.cookies[k].params.clear();
      cookies[k] = v;
    } else {
      h.SetCookie(k, v, {{p, r.chance(50) ? "" : "z"}, {"~", "1"}});
      const std::string pv = h.cookies[k].params[p];
      const std::string a = p + (pv.empty() ? "" : "=" + pv), b = "~=1";
      cookies[k] = v + (p == "~" ? "; ~=" + pv : p < "~" ? "; " + a + "; " + b : "; " + b + "; " + a);
      if (p == "~") cookies[k] = v + "; " + (pv.empty() ? "~" : "~=" + pv);
    }
  }
  for (const auto& c : cookies) expected.emplace_back("Set-Cookie", c.first + "=" + c.second);
  return h;
}

CURRENT_STRUCT(Body) {
  CURRENT_FIELD(s, std::string);
  CURRENT_FIELD(n, std::vector<uint64_t>);
};

template <uint64_t CACHE> static bool SendChunks(vh::Rng& r, net::HTTPServerConnection& s, Fake& f, std::string& body, bool& failed, net::HTTPResponseCodeValue code, const Headers& h, const std::string& type) {
  auto sender = s.SendChunkedHTTPResponse<CACHE>(code, h, type);
  auto decoded = [&]() {
    vh::RespParser p;
    p.Feed(f.out.data(), f.out.size());
    if (p.malformed) vh::Violation("http:chunked:malformed", f.out.substr(0, 300));
    return p.body;
  };
  uint64_t used = 0;  // How much of the cache is used.
  for (uint64_t i = r.below(12); i; --i) {
    auto flush = r.chance(40) ? net::ChunkFlush::Flush : net::ChunkFlush::NoFlush;
    std::string piece = AnyBytes(r, r.chance(20) ? 0 : r.chance(80) ? r.below(40) : r.below(3000));
    int kind = static_cast<int>(r.below(4));
    auto chunk_size = [](uint64_t n) {
      char hex[32];
      return n + 4 + static_cast<uint64_t>(snprintf(hex, sizeof(hex), "%llX", static_cast<unsigned long long>(n)));
    };
    if (CACHE > 10 && CACHE < 10000 && r.chance(35)) {
      // What fits in the cache to the byte, or does not.
      const uint64_t target = std::max<uint64_t>(CACHE - used + r.below(5), 2) - 1;
      uint64_t n = target;
      while (n && chunk_size(n) > target) --n;
      if (n) {
        piece = AnyBytes(r, n);
        flush = net::ChunkFlush::NoFlush;
        kind %= 3;
        vh::Count("cache_boundary");
      }
    }
    try {
      switch (kind) {
        case 0: sender.Send(piece, flush); break;
        case 1: sender(piece, flush); break;
        case 2: sender(std::vector<uint8_t>(piece.begin(), piece.end()), flush); break;
        default: {
          Body b;
          b.s = piece.substr(0, 100);
          for (char& c : b.s) c = static_cast<char>(c & 0x7f ? c & 0x7f : 1);
          piece = JSON(b) + "\n";
          sender(b, flush);
        }
      }
    } catch (const net::SocketException&) {
      failed = true;
      return true;
    }
    body += piece;
    if (flush == net::ChunkFlush::Flush) {
      used = 0;
    } else if (!piece.empty()) {
      const uint64_t n = chunk_size(piece.size());
      used = n > CACHE ? 0 : n > CACHE - used ? n : used + n;
    }
    if (!f.write_failed) {
      const std::string now = decoded();
      VH_CHECK(body.compare(0, now.size(), now) == 0 && now.size() <= body.size(), "http:chunked:prefix", f.out.substr(0, 300));
      if (flush == net::ChunkFlush::Flush) VH_CHECK(now == body, "http:chunked:flush", std::to_string(now.size()) + " of " + std::to_string(body.size()));
    }
  }
  return false;
}

static void RespondCase(vh::Rng& r) {
  FakeConnection c(r);
  c.f.in = "GET / HTTP/1.1\r\n\r\n";
  vh::Eval();
  if (r.chance(15)) c.f.fail_write_at = r.below(r.chance(50) ? 200 : 3000);
  std::vector<std::pair<std::string, std::string>> expected;
  const int codes[] = {200, 201, 204, 301, 404, 409, 500, 503};
  const int code = codes[r.below(8)];
  const std::string type = r.chance(50) ? "text/plain" : Token(r, 5) + "/" + Token(r, 8);
  std::string body = AnyBytes(r, SomeSize(r));
  Headers h = SomeHeaders(r, expected);
  expected.insert(expected.begin(), {"Connection", "close"});
  expected.insert(expected.begin(), {"Content-Type", type});
  int want_code = code;
  bool failed = false, chunked = false;
  try {
    auto conn = std::make_unique<net::HTTPServerConnection>(c.Connect());
    auto& s = *conn;
    const auto value = HTTPResponseCode(code);
    const uint64_t how = r.below(9);
    auto plain = [&]() {  // No headers nor cookies of ours.
      expected.resize(2);
    };
    switch (how) {
      case 0: s.SendHTTPResponse(body, value, h, type); break;
      case 1: s.SendHTTPResponse(std::vector<char>(body.begin(), body.end()), value, h, type); break;
      case 2: s.SendHTTPResponse(body.begin(), body.end(), value, h, type); break;
      case 3:
        s.SendHTTPResponse(body, value);
        plain();
        expected[0].second = "text/plain";
        break;
      case 4: {
        Body b;
        b.s = Token(r, 50);
        b.n.resize(r.below(50));
        body = JSON(b) + "\n";
        s.SendHTTPResponse(b, value, h, type);
        break;
      }
      case 5: {
        http::Request q(std::move(conn));
        http::Response response(body, value, type, h);
        const bool cors = r.chance(50);
        if (!cors) response.DisableCORS();
        if (cors) {
          size_t at = expected.size();
          while (at && expected[at - 1].first == "Set-Cookie") --at;
          expected.insert(expected.begin() + at, {"Access-Control-Allow-Origin", "*"});
        }
        q(response);
        bool again = false;
        try {
          q("again");
        } catch (const net::AttemptedToSendHTTPResponseMoreThanOnce&) {
          again = true;
        }
        VH_CHECK(again, "http:respond:twice", "");
        break;
      }
      case 6:  // Not responded.
        plain();
        conn = nullptr;
        body = net::DefaultInternalServerErrorMessage();
        want_code = 500;
        expected[0].second = "text/html; charset=utf-8";
        break;
      default: {
        chunked = true;
        body.clear();
        expected[1].second = "keep-alive";
        switch (r.below(4)) {
          case 0: SendChunks<1>(r, s, c.f, body, failed, value, h, type); break;
          case 1: SendChunks<63>(r, s, c.f, body, failed, value, h, type); break;
          case 2: SendChunks<999>(r, s, c.f, body, failed, value, h, type); break;
          default: SendChunks<1024 * 1024>(r, s, c.f, body, failed, value, h, type); break;
        }
      }
    }
    if (conn && r.chance(50)) {
      bool again = false;
      try {
        if (r.chance(50)) {
          s.SendHTTPResponse("again");
        } else {
          s.SendChunkedHTTPResponse();
        }
      } catch (const net::AttemptedToSendHTTPResponseMoreThanOnce&) {
        again = true;
      }
      VH_CHECK(again, "http:respond:twice", "");
    }
  } catch (const net::SocketException&) {
    failed = true;
  } catch (const std::exception& e) {
    vh::Violation("http:respond:exception", e.what());
    return;
  }
  if (c.f.write_failed) {
    vh::Count("failed_writes");
    return;
  }
  VH_CHECK(!failed, "http:respond:failed", "");
  expected.emplace_back(chunked ? "Transfer-Encoding" : "Content-Length", chunked ? "chunked" : std::to_string(body.size()));
  Seen seen = Read(c.f.out);
  vh::Count(chunked ? "responded_chunked" : "responded");
  VH_CHECK(seen.ok, "http:respond:malformed", c.f.out.substr(0, 700));
  VH_CHECK(seen.code == want_code, "http:respond:code", c.f.out.substr(0, 100));
  VH_CHECK(seen.body == body, "http:respond:body", std::to_string(seen.body.size()) + " " + std::to_string(body.size()));
  if (seen.headers != expected) {
    std::string e;
    for (const auto& x : expected) e += x.first + ": " + x.second + "|";
    vh::Violation("http:respond:headers", c.f.out.substr(0, 700) + " must be " + e);
  }
}
#endif

#if PARTS & 2
// ---- A real server.
static std::string Hex(const std::string& s) {
  static const char* d = "0123456789abcdef";
  std::string h;
  for (unsigned char c : s) {
    h += d[c >> 4];
    h += d[c & 15];
  }
  return h;
}
// Sends the request in pieces.
static vh::RespParser FetchInPieces(int port, const std::string& text, vh::Rng& r, bool* closed = nullptr) {
  vh::RespParser p;
  const int fd = vh::Dial(port);
  if (fd < 0) {
    p.malformed = true;
    return p;
  }
  size_t at = 0;
  int pieces = r.chance(40) ? 1 : 1 + static_cast<int>(r.below(5));
  while (at < text.size()) {
    const size_t n = --pieces <= 0 ? text.size() - at : 1 + r.below(text.size() - at);
    if (!vh::SendAll(fd, text.data() + at, n)) break;
    at += n;
    if (at < text.size()) ::usleep(static_cast<useconds_t>(r.below(300)));
  }
  char buf[65536];
  while (!p.complete && !p.malformed) {
    const ssize_t k = vh::RecvSome(fd, buf, sizeof(buf), 20000);
    if (k == -2) vh::Violation("server:no-response", text.substr(0, 500));
    if (k <= 0) {
      if (closed) *closed = true;
      break;
    }
    p.Feed(buf, static_cast<size_t>(k));
  }
  ::close(fd);
  return p;
}
static bool Alive(int port) {
  const auto r = vh::Fetch(port, "GET", "/alive");
  return r.complete && r.code == 200 && r.body == "yes";
}

static void RoutesCase(vh::Rng& r, http::HTTPServerPOSIX& server, int port) {
  using Mask = URLPathArgs::CountMask;
  using Scope = http::HTTPServerPOSIX::HTTPRoutesScope;
  std::map<std::string, std::map<size_t, int>> model;
  struct S {
    std::unique_ptr<Scope> scope;
    std::vector<std::pair<std::string, size_t>> owned;
  };
  std::vector<S> scopes;
  const size_t base = server.PathHandlersCount();
  int next = 0;
  auto component = [&]() { return r.chance(90) ? std::string(1, "abc"[r.below(3)]) : Token(r, 3); };
  auto some_path = [&]() {
    std::string p;
    for (uint64_t i = r.below(4); i; --i) p += "/" + std::string(1, "abc"[r.below(3)]);
    return p.empty() ? std::string("/") : p;
  };
  std::string history;
  for (uint64_t step = 0, n = 10 + r.below(40); step < n; ++step) {
    vh::Eval();
    const uint64_t what = r.below(10);
    if (what < 3) {
      std::string path = some_path();
      int invalid = 0;
      if (r.chance(10)) {
        switch (r.below(4)) {
          case 0: path = path.substr(1), invalid = 1; break;
          case 1: path += "/"; invalid = path == "//" ? 2 : 2; break;
          case 2: path += "x y"; invalid = 3; break;
          default: path = path + "x" + "?#%\"<>\n\x80"[r.below(8)] + "x"; invalid = 3;
        }
        if (path.empty() || path[0] != '/') invalid = 1;
      }
      uint16_t mask = 0;
      switch (r.below(5)) {
        case 0: mask = 1; break;
        case 1: mask = 0xffff; break;
        case 2: mask = static_cast<uint16_t>(1 + r.below(15)); break;
        case 3: mask = static_cast<uint16_t>(1 << r.below(16)); break;
        default: mask = static_cast<uint16_t>(r.below(65536));
      }
      const bool update = r.chance(20);
      const int id = ++next;
      bool all = true, any = false;
      for (size_t i = 0; i < 16; ++i) {
        if (mask >> i & 1) {
          const bool has = model.count(path) && model[path].count(i);
          if (model.count(path) && model[path].empty()) model.erase(path);
          all &= has;
          any |= has;
        }
      }
      if (model.count(path) && model[path].empty()) model.erase(path);
      const char* want = !mask ? "" : invalid == 1 ? "start" : invalid == 2 ? "end" : invalid == 3 ? "chars" : update ? (all ? "" : "no") : any ? "exists" : "";
      const char* got = "";
      history += (update ? "update " : "register ") + path + " " + std::to_string(mask) + "; ";
      auto scope = std::make_unique<Scope>();
      const std::function<void(Request)> handler = [id](Request q) {
        std::string s = std::to_string(id) + " " + q.method + " " + q.url.path + " " + (q.url_path_had_trailing_slash ? "/" : "-") + " " + q.url_path_args.base_path;
        for (const auto& a : q.url_path_args) s += " " + Hex(a);
        s += " " + std::to_string(q.url_path_args.size());
        for (size_t i = 0; i < q.url_path_args.size(); ++i) s += " " + Hex(q.url_path_args[i]);
        q(s);
      };
      try {
        if (update) {
          Scope ignored = server.Register<ReRegisterRoute::SilentlyUpdateExisting>(path, static_cast<Mask>(mask), std::function<void(Request)>(handler));
        } else if (mask == 1 && r.chance(50)) {
          *scope = server.Register(path, std::function<void(Request)>(handler));
        } else {
          *scope = server.Register(path, static_cast<Mask>(mask), std::function<void(Request)>(handler));
        }
      } catch (const http::PathDoesNotStartWithSlash&) {
        got = "start";
      } catch (const http::PathEndsWithSlash&) {
        got = "end";
      } catch (const http::PathContainsInvalidCharacters&) {
        got = "chars";
      } catch (const http::HandlerAlreadyExistsException&) {
        got = "exists";
      } catch (const http::HandlerDoesNotExistException&) {
        got = "no";
      }
      if (std::string(got) != want) vh::Violation("routes:register", std::string("got ") + got + ", want " + want + ": " + history.substr(history.size() > 1500 ? history.size() - 1500 : 0));
      if (!*want) {
        S e;
        for (size_t i = 0; i < 16; ++i) {
          if (mask >> i & 1) {
            model[path][i] = id;
            e.owned.emplace_back(path, i);
          }
        }
        if (!update && mask) {
          e.scope = std::move(scope);
          // Some are put together.
          if (!scopes.empty() && r.chance(30)) {
            auto& into = scopes[r.below(scopes.size())];
            if (r.chance(50)) {
              *into.scope += std::move(*e.scope);
            } else {
              auto sum = std::make_unique<Scope>(std::move(*into.scope) + std::move(*e.scope));
              into.scope = std::move(sum);
            }
            into.owned.insert(into.owned.end(), e.owned.begin(), e.owned.end());
          } else {
            scopes.push_back(std::move(e));
          }
        }
      }
      vh::Count("registrations");
    } else if (what == 3 && !scopes.empty()) {
      const size_t k = r.below(scopes.size());
      history += "drop " + scopes[k].owned[0].first + "...; ";
      for (const auto& o : scopes[k].owned) {
        model[o.first].erase(o.second);
        if (model[o.first].empty()) model.erase(o.first);
      }
      if (r.chance(30)) {
        *scopes[k].scope = nullptr;
      } else if (r.chance(30)) {
        Scope moved(std::move(*scopes[k].scope));
      } else {
        scopes[k].scope = nullptr;
      }
      scopes.erase(scopes.begin() + static_cast<long>(k));
      vh::Count("unregistrations");
    } else {
      // A request: a path, of components separated by one or more slashes.
      std::string path;
      std::vector<std::pair<size_t, std::string>> parts;  // End of each one in the path, and what it is.
      for (uint64_t i = r.chance(5) ? 14 + r.below(4) : r.below(6); i; --i) {
        path += r.chance(90) ? "/" : "//";
        if (path == "//") path = "/";
        std::string raw = component(), text = raw;
        if (r.chance(20)) {
          raw = AnyBytes(r, 1 + r.below(4));
          text.clear();
          for (unsigned char c : raw) text += r.chance(50) && isalnum(c) ? std::string(1, static_cast<char>(c)) : Percent(c, r);
        } else {
          text.clear();
          for (unsigned char c : raw) text += strchr("%#?+", c) ? Percent(c, r) : std::string(1, static_cast<char>(c));
        }
        path += text;
        parts.emplace_back(path.size(), raw);
      }
      if (path.empty() || r.chance(20)) path += "/";
      if (path == "/" && r.chance(10)) path = "/";
      int id = 0;
      std::string base_path;
      std::vector<std::string> args;
      for (size_t k = parts.size() + 1; k--;) {
        base_path = k ? path.substr(0, parts[k - 1].first) : "/";
        const size_t n_args = parts.size() - k;
        const auto a = model.find(base_path);
        if (a != model.end() && a->second.count(n_args)) {
          id = a->second[n_args];
          for (size_t i = k; i < parts.size(); ++i) args.push_back(parts[i].second);
          break;
        }
      }
      static const char* methods[] = {"GET", "DELETE", "OPTIONS", "HEAD", "X"};
      const std::string method = methods[r.below(5)];
      std::string text = method + " " + path + (r.chance(20) ? "?q=/c" : "") + " HTTP/1.1\r\n\r\n";
      const auto resp = FetchInPieces(port, text, r);
      vh::Count(id ? "requests_found" : "requests_404");
      const std::string where = path + " after " + history.substr(history.size() > 1500 ? history.size() - 1500 : 0);
      if (!id) {
        VH_CHECK(resp.complete && resp.code == 404, "routes:404", std::to_string(resp.code) + " " + resp.body.substr(0, 100) + ": " + where);
      } else {
        std::string want = std::to_string(id) + " " + method + " " + base_path + " " + (path.back() == '/' ? "/" : "-") + " " + base_path;
        for (const auto& a : args) want += " " + Hex(a);
        want += " " + std::to_string(args.size());
        for (const auto& a : args) want += " " + Hex(a);
        VH_CHECK(resp.complete && resp.code == 200 && resp.body == want, "routes:dispatch", resp.body.substr(0, 300) + ", must be " + want + ": " + where);
      }
      vh::Distinct(vh::hash_str(where));
    }
    VH_CHECK(server.PathHandlersCount() == base + model.size(), "routes:count", std::to_string(server.PathHandlersCount()) + " " + std::to_string(base + model.size()) + " after " + history);
  }
  scopes.clear();
  VH_CHECK(server.PathHandlersCount() == base, "routes:left", history);
}

// Registered and unregistered while being used.
static void RoutesConcurrentCase(vh::Rng& r, http::HTTPServerPOSIX& server, int port) {
  vh::Eval();
  vh::perturb_level() = static_cast<int>(r.below(15));
  struct State {
    std::atomic<bool> alive{true};
    uint64_t plain = 0;
    std::atomic<int> inside{0};
  };
  const int kPaths = 1 + static_cast<int>(r.below(3));
  std::atomic<bool> stop{false};
  std::atomic<uint64_t> ok{0}, missing{0};
  std::vector<std::thread> clients;
  const std::string prefix = "/conc";
  std::vector<std::atomic<int>> generation(kPaths);
  for (int t = 0; t < 3; ++t) {
    vh::Rng q = r.fork();
    clients.emplace_back([&, q]() mutable {
      while (!stop) {
        const int k = static_cast<int>(q.below(kPaths));
        const int before = generation[k];
        const auto resp = vh::Fetch(port, "GET", prefix + std::to_string(k));
        const int after = generation[k];
        if (!resp.complete || (resp.code != 200 && resp.code != 404)) {
          vh::Violation("routes-conc:response", std::to_string(resp.code) + resp.raw.substr(0, 200));
        } else if (resp.code == 404) {
          ++missing;
          // Odd: is registered.
          if (before == after && (before & 1)) vh::Violation("routes-conc:404", "while it was registered");
        } else {
          ++ok;
          const int g = atoi(resp.body.c_str());
          // Registered as `g` at some moment between `before` and `after`; it is set before and after registering.
          if (g < before - 1 || g > after + 1) vh::Violation("routes-conc:stale", std::to_string(g) + " of " + std::to_string(before) + ".." + std::to_string(after));
        }
      }
    });
  }
  for (uint64_t step = 0, n = 20 + r.below(40); step < n; ++step) {
    const int k = static_cast<int>(r.below(kPaths));
    auto state = std::make_unique<State>();
    State* p = state.get();
    const int g = generation[k] + 1;
    const auto pause = static_cast<useconds_t>(r.below(300));
    auto handler = [p, g, pause](Request q) {
      ++p->inside;
      ++p->plain;
      if (pause % 3 == 0) ::usleep(pause);
      if (!p->alive) vh::Violation("routes-conc:called-after-unregistering", "");
      ++p->plain;
      q(std::to_string(g));
      --p->inside;
    };
    {
      const auto scope = r.chance(50) ? server.Register(prefix + std::to_string(k), handler) : server.Register(prefix + std::to_string(k), static_cast<URLPathArgs::CountMask>(3), handler);
      generation[k] = g;
      ::usleep(static_cast<useconds_t>(r.below(1500)));
      if (r.chance(10)) {
        const auto another = server.Register<ReRegisterRoute::SilentlyUpdateExisting>(prefix + std::to_string(k), handler);
      }
      generation[k] = g + 1;
    }
    if (p->inside) vh::Violation("routes-conc:unregistered-while-in-use", "");
    p->alive = false;
    p->plain = 0;
    state = nullptr;
    vh::Count("unregistrations");
  }
  stop = true;
  for (auto& t : clients) t.join();
  vh::Count("requests_found", ok);
  vh::Count("requests_404", missing);
  vh::Distinct(vh::hash_mix(ok, missing));
  // Starting a server, with requests already waiting.
  vh::perturb_level() = 0;
  {
    auto reserved = net::ReserveLocalPort();
    const int p2 = reserved;
    const int fd = vh::Dial(p2);
    vh::SendAll(fd, "GET /early HTTP/1.1\r\n\r\n");
    auto& s2 = HTTP(std::move(reserved));
    const auto scope = s2.Register("/early", [](Request q) { q("early"); });
    vh::RespParser p;
    char buf[4096];
    while (!p.complete) {
      const ssize_t k = vh::RecvSome(fd, buf, sizeof(buf), 20000);
      if (k <= 0) break;
      p.Feed(buf, static_cast<size_t>(k));
    }
    ::close(fd);
    VH_CHECK(p.complete && (p.code == 404 || (p.code == 200 && p.body == "early")), "routes-conc:early", p.raw.substr(0, 200));
    vh::Count(p.code == 404 ? "early_404" : "early_200");
  }
}

static std::string Echo(const std::string& method, const URL& url, const Headers& h, const std::string& body) {
  std::string s = method + " " + url.path + " #" + url.fragment + "\n";
  for (const auto& p : url.parameters_vector) s += Hex(p.first) + "=" + Hex(p.second) + "\n";
  for (const auto& e : h) {
    const std::string c = Canonical(e.header);
    if (c[0] == 'x' || c == "content_type" || c == "user_agent") s += e.header + ": " + e.value + "\n";
  }
  for (const auto& c : h.cookies) s += "cookie " + c.first + "=" + c.second.value + "\n";
  return s + "\n" + body;
}

CURRENT_STRUCT(ClientBody) {
  CURRENT_FIELD(s, std::string);
  CURRENT_FIELD(n, std::vector<int32_t>);
};

static void ClientCase(vh::Rng& r, int port) {
  vh::Eval();
  Message m;
  MakeTarget(r, m);
  m.fragment.clear();
  if (r.chance(15)) m.fragment = Token(r, 5);
  const std::string prefix = "http://localhost:" + std::to_string(port);
  std::string url = prefix + "/echo";
  bool first = true;
  for (const auto& p : m.params) {
    url += first ? '?' : '&';
    first = false;
    url += Escaped(p.first, r) + "=" + Escaped(p.second, r);
  }
  if (!m.fragment.empty()) url += "#" + m.fragment;
  const std::string body = AnyBytes(r, r.chance(5) ? 300000 + r.below(1000000) : SomeSize(r));
  RefHeaders hs;
  std::vector<std::pair<std::string, std::string>> set;
  std::map<std::string, std::string> cookies;
  for (uint64_t i = r.below(4); i; --i) {
    std::string k = "X" + Token(r, 5);
    if (Canonical(k) == "x_http_method_override") continue;
    std::string v = HeaderValue(r);
    if (v.size() > 1000) v.resize(1000), v.back() = '.';
    set.emplace_back(k, v);
    hs.Set(k, v);
  }
  for (uint64_t i = r.below(3); i; --i) {
    const std::string k = Token(r, 4), v = Token(r, 4);
    cookies[k] = v;
  }
  const std::string agent = r.chance(50) ? "" : "x" + Token(r, 6);
  const std::string type = r.chance(50) ? "" : Token(r, 4) + "/" + Token(r, 5);
  auto dress = [&](auto& q) -> auto& {
    for (const auto& h : set) q.SetHeader(h.first, h.second);
    for (const auto& c : cookies) q.SetCookie(c.first, c.second);
    if (!agent.empty()) q.UserAgent(agent);
    return q;
  };
  auto expect = [&](const std::string& method, const std::string& content_type, const std::string& b) {
    std::string s = method + " /echo #" + m.fragment + "\n";
    for (const auto& p : m.params) s += Hex(p.first) + "=" + Hex(p.second) + "\n";
    if (!agent.empty()) s += "User-Agent: " + agent + "\n";
    for (const auto& e : hs.list) s += e.first + ": " + e.second + "\n";
    if (!content_type.empty()) s += "Content-Type: " + content_type + "\n";
    for (const auto& c : cookies) s += "cookie " + c.first + "=" + c.second + "\n";
    return s + "\n" + b;
  };
  const auto check = [&](const char* what, const http::HTTPResponseWithBuffer& resp, const std::string& want) {
    vh::Count(what);
    VH_CHECK(static_cast<int>(resp.code) == 203, "client:code", what);
    if (resp.body != want) {
      size_t at = 0;
      while (at < want.size() && at < resp.body.size() && want[at] == resp.body[at]) ++at;
      vh::Violation(std::string("client:echo:") + what, "differ at " + std::to_string(at) + " of " + std::to_string(want.size()) + "/" + std::to_string(resp.body.size()) + ": " +
                                                            resp.body.substr(at < 50 ? 0 : at - 50, 100) + " must be " + want.substr(at < 50 ? 0 : at - 50, 100));
    }
    VH_CHECK(resp.url == url, "client:url", resp.url + " " + url);
    VH_CHECK(resp.headers.GetOrDefault("x-echo", "") == "a, b" && resp.headers.cookies.count("c1"), "client:headers", Dump(resp.headers));
  };
  const std::string file = vh::opt().scratch + "/body." + std::to_string(vh::opt().shard);
  try {
    switch (r.below(10)) {
      case 0: { auto q = GET(url); check("GET", HTTP(dress(q)), expect("GET", "", "")); break; }
      case 1: { auto q = POST(url, body, type); check("POST", HTTP(dress(q)), expect("POST", type.empty() ? "text/plain" : type, body)); break; }
      case 2: { auto q = PUT(url, body, type); check("PUT", HTTP(dress(q)), expect("PUT", type.empty() ? "text/plain" : type, body)); break; }
      case 3: { auto q = PATCH(url, body, type); check("PATCH", HTTP(dress(q)), expect("PATCH", type.empty() ? "text/plain" : type, body)); break; }
      case 4: { auto q = DELETE(url); check("DELETE", HTTP(dress(q)), expect("DELETE", "", "")); break; }
      case 5: {
        ClientBody b;
        b.s = Token(r, 50);
        b.n.resize(r.below(20));
        auto q = POST(url, b, type);
        check("POST_JSON", HTTP(dress(q)), expect("POST", type.empty() ? "application/json; charset=utf-8" : type, JSON(b)));
        break;
      }
      case 6: {
        FILE* f = fopen(file.c_str(), "wb");
        fwrite(body.data(), 1, body.size(), f);
        fclose(f);
        const std::string t = type.empty() ? "a/b" : type;
        auto q = http::POSTFromFile(url, file, t);
        check("POST_FROM_FILE", HTTP(dress(q)), expect("POST", t, body));
        break;
      }
      case 7: {
        auto q = POST(url, body, type);
        const auto resp = HTTP(dress(q), http::SaveResponseToFile(file));
        http::HTTPResponseWithBuffer b;
        static_cast<http::HTTPResponse&>(b) = static_cast<const http::HTTPResponse&>(resp);
        FILE* f = fopen(file.c_str(), "rb");
        char buf[65536];
        size_t k;
        while ((k = fread(buf, 1, sizeof(buf), f)) > 0) b.body.append(buf, k);
        fclose(f);
        VH_CHECK(resp.body_file_name == file, "client:file-name", resp.body_file_name);
        check("TO_FILE", b, expect("POST", type.empty() ? "text/plain" : type, body));
        break;
      }
      case 8: {
        // Chunks. The server sends back the body in the pieces its parameter asks for.
        std::string got, lines, query;
        std::vector<size_t> sizes, cut;
        size_t at = 0;
        while (at < body.size() && cut.size() < 200) {
          const size_t n = std::min<size_t>(body.size() - at, 1 + r.below(r.chance(50) ? 20 : 5000));
          cut.push_back(n);
          query += (query.empty() ? "" : ",") + std::to_string(n);
          at += n;
        }
        const std::string sent = body.substr(0, at);
        int done = 0;
        std::map<std::string, std::string> headers;
        ChunkedPOST q(prefix + "/chunks?cut=" + query, sent, type.empty() ? "a/b" : type);
        if (r.chance(50)) q.OnDone([&]() { ++done; }); else ++done;
        q.OnHeader([&](const std::string& k, const std::string& v) { headers[k] = v; }).OnChunk([&](const std::string& c) {
          got += c;
          sizes.push_back(c.size());
        });
        bool by_lines = r.chance(50);
        if (by_lines) q.OnLine([&](const std::string& l) { lines += l + "\n"; });
        const auto code = HTTP(q);
        vh::Count("CHUNKS");
        VH_CHECK(static_cast<int>(code) == 200 && done == 1 && got == sent && sizes == cut, "client:chunks", query.substr(0, 200));
        VH_CHECK(headers["x-kind"] == "chunked", "client:chunks:headers", "");
        break;
      }
      default: {
        // Redirects: /r/<n>/<kind> to /r/<n-1>.
        const int n = static_cast<int>(r.below(6));
        const int kind = static_cast<int>(r.below(5));  // In the last one, to another host, and on from there by the path alone.
        const std::string from = prefix + "/r/" + std::to_string(n) + "/" + std::to_string(kind);
        vh::Count("REDIRECTS");
        const std::string elsewhere = "http://127.0.0.1" + prefix.substr(prefix.rfind(':'));
        bool refused = false, loop = false;
        std::string final_url, text;
        const bool allow = r.chance(80);
        try {
          const auto resp = HTTP(GET(from).AllowRedirects(allow));
          final_url = resp.url;
          text = resp.body;
        } catch (const net::HTTPRedirectNotAllowedException&) {
          refused = true;
        } catch (const net::HTTPRedirectLoopException&) {
          loop = true;
        }
        VH_CHECK(refused == (n > 0 && !allow), "client:redirect:refused", from);
        VH_CHECK(loop == (n > 0 && allow && kind == 3), "client:redirect:loop", from);
        if (!refused && !loop) {
          VH_CHECK(text == "arrived " + std::to_string(kind) && final_url == (kind == 4 && n > 1 ? elsewhere : prefix) + "/r/0/" + std::to_string(kind) + (kind == 2 && n ? "?a=b%20c" : ""), "client:redirect", final_url + " " + text);
        }
      }
    }
  } catch (const std::exception& e) {
    vh::Violation("client:exception", e.what());
  }
}

// Whatever the clients send, the next request is served.
static void HostileClientCase(vh::Rng& r, int port) {
  vh::Eval();
  std::string s;
  if (r.chance(80)) {
    Message m = MakeMessage(r, true);
    s = m.text;
    if (s.size() > 3000) s = s.substr(0, 3000);
  } else {
    s = AnyBytes(r, 1 + r.below(300));
  }
  static const char* words[] = {"-1", "ffffffff", "FFFFFFFFFFFFFFFF", "8000000", "\r\n", "\r\n\r\n", "Transfer-Encoding: chunked\r\n", "Content-Length: 99999999999999\r\n", "Content-Length: -1\r\n", "4294967297"};
  for (uint64_t i = r.below(4); i; --i) {
    const size_t at = r.below(s.size() + 1);
    switch (r.below(4)) {
      case 0: s.insert(at, words[r.below(10)]); break;
      case 1: s.erase(at, r.below(8)); break;
      case 2: {
        const size_t d = s.find("\r\n", at);
        if (d != std::string::npos) s.insert(d + 2, words[r.below(10)]);
        break;
      }
      default:
        if (at < s.size()) s[at] = static_cast<char>(r.below(256));
    }
  }
  const int fd = vh::Dial(port);
  if (r.chance(50)) {
    vh::SendAll(fd, s);
  } else {
    const size_t at = r.below(s.size() + 1);
    vh::SendAll(fd, s.substr(0, at));
    ::usleep(static_cast<useconds_t>(r.below(300)));
    vh::SendAll(fd, s.substr(at));
  }
  // Done sending: or else it is right to wait for more.
  if (r.chance(70)) {
    ::shutdown(fd, SHUT_WR);
    bool timed_out = false;
    const std::string resp = vh::RecvAll(fd, 20000, &timed_out);
    VH_CHECK(!timed_out, "hostile:stuck", s.substr(0, 500));
    VH_CHECK(resp.empty() || resp.compare(0, 9, "HTTP/1.1 ") == 0, "hostile:response", resp.substr(0, 100));
    vh::Count(resp.empty() ? "no_response" : "some_response");
  } else if (r.chance(50)) {
    struct linger l = {1, 0};
    ::setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof(l));  // RST.
  }
  ::close(fd);
  vh::Distinct(vh::hash_str(s));
  if (!Alive(port)) vh::Violation("hostile:server-is-gone", s.substr(0, 1000));
}

// Whatever the servers send, the client returns or throws.
static void HostileServerCase(vh::Rng& r, vh::Listener& listener) {
  vh::Eval();
  Message m = MakeMessage(r, false);
  std::string s = m.text.substr(0, 20000);
  if (r.chance(60)) {
    static const char* words[] = {"-1", "ffffffff", "FFFFFFFFFFFFFFFF", "Location: /x\r\n", "\r\n\r\n", "Transfer-Encoding: chunked\r\n", "Content-Length: 99999999999999\r\n", "Content-Length: -1\r\n", "X-HTTP-Method-Override: PUT\r\n"};
    for (uint64_t i = 1 + r.below(3); i; --i) {
      const size_t at = r.below(std::min<size_t>(s.size(), 300) + 1);
      const size_t d = s.find("\r\n", at);
      if (r.chance(50) && d != std::string::npos) s.insert(d + 2, words[r.below(9)]);
      else if (r.chance(50)) s.insert(at, words[r.below(9)]);
      else s.erase(at, r.below(5));
    }
  }
  if (r.chance(20)) s.resize(r.below(s.size() + 1));
  std::thread server([&, q = r.fork()]() mutable {
    const int fd = listener.Accept(20000);
    if (fd < 0) return;
    char buf[8192];
    std::string in;
    while (in.find("\r\n\r\n") == std::string::npos) {
      const ssize_t k = vh::RecvSome(fd, buf, sizeof(buf), 20000);
      if (k <= 0) break;
      in.append(buf, static_cast<size_t>(k));
    }
    size_t at = 0;
    while (at < s.size()) {
      const size_t n = q.chance(30) ? s.size() - at : std::min<size_t>(s.size() - at, 1 + q.below(500));
      if (!vh::SendAll(fd, s.data() + at, n)) break;
      at += n;
      if (q.chance(20)) ::usleep(50);
    }
    ::close(fd);
  });
  const std::string url = "http://localhost:" + std::to_string(listener.port) + "/x";
  try {
    if (r.chance(60)) {
      const auto resp = HTTP(GET(url));
      VH_CHECK(resp.body.size() <= s.size(), "hostile-server:body", "");
      if (s == m.text) VH_CHECK(resp.body == m.body && std::to_string(static_cast<int>(resp.code)) == m.target, "hostile-server:intact", Dump(resp.headers));
    } else {
      std::string got;
      HTTP(ChunkedGET(url, [](const std::string&, const std::string&) {}, [&](const std::string& c) { got += c; }, []() {}));
      if (s == m.text && m.chunked) VH_CHECK(got == m.body, "hostile-server:intact-chunks", "");
    }
    vh::Count("returned");
  } catch (const Exception&) {
    vh::Count("thrown");
    if (s == m.text) vh::Violation("hostile-server:intact-thrown", s.substr(0, 500));
  } catch (const std::exception& e) {
    vh::Violation("hostile-server:exception", std::string(e.what()) + " on " + s.substr(0, 500));
  }
  server.join();
  vh::Distinct(vh::hash_str(s));
}

// Directories of files.
static void StaticCase(vh::Rng& r, http::HTTPServerPOSIX& server, int port) {
  vh::Eval();
  const std::string dir = vh::opt().scratch + "/static." + std::to_string(vh::opt().shard);
  FileSystem::MkDir(dir, FileSystem::MkDirParameters::Silent);
  struct F {
    std::string content, type;
  };
  std::map<std::string, F> files;    // By the path in the directory, no leading slash.
  std::map<std::string, F> indexes;  // By directory.
  std::set<std::string> dirs;
  std::vector<std::string> made_files, made_dirs;
  bool unknown = false, two = false;
  static const std::pair<const char*, const char*> types[] = {{"js", "application/javascript"}, {"CSS", "text/css"}, {"html", "text/html"}, {"txt", "text/plain"}, {"png", "image/png"}, {"json", "application/json; charset=utf-8"}};
  for (uint64_t i = r.below(6); i; --i) {
    std::string d;
    bool hidden = false;
    for (uint64_t k = r.below(3); k; --k) {
      const bool h = r.chance(10);
      hidden |= h;
      const std::string c = std::string(h ? "." : "") + "abc"[r.below(3)];
      d += (d.empty() ? "" : "/") + c;
      if (dirs.insert(d).second) {
        FileSystem::MkDir(dir + "/" + d, FileSystem::MkDirParameters::Silent);
        made_dirs.push_back(dir + "/" + d);
      }
    }
    const auto& t = types[r.below(6)];
    const uint64_t kind = r.below(20);
    std::string name = kind < 5 ? (kind < 3 ? "index.html" : "index.htm") : std::string(1, "xyz"[r.below(3)]) + "." + t.first;
    std::string type = kind < 5 ? "text/html" : t.second;
    if (kind == 19) {
      name = "x.unknown";
      type = "";
    }
    const bool dot = kind == 18;
    if (dot) name = "." + name;
    const std::string path = (d.empty() ? "" : d + "/") + name;
    const F f{AnyBytes(r, r.below(200)), type};
    FileSystem::WriteStringToFile(f.content, (dir + "/" + path).c_str());
    made_files.push_back(dir + "/" + path);
    if (hidden || dot) {
      continue;
    }
    if (type.empty()) {
      unknown = true;
      continue;
    }
    files[path] = f;
  }
  for (const auto& f : files) {
    const size_t s = f.first.rfind('/');
    const std::string d = s == std::string::npos ? "" : f.first.substr(0, s), name = s == std::string::npos ? f.first : f.first.substr(s + 1);
    if (name == "index.html" || name == "index.htm") {
      if (indexes.count(d)) two = true;
      indexes[d] = f.second;
    }
  }
  const size_t before = server.PathHandlersCount();
  const std::string prefix = r.chance(50) ? "/static" : "/s/t";
  const std::string pub = r.chance(50) ? prefix : "/public" + std::string(r.chance(50) ? "/" : "");
  try {
    const auto scope = pub == prefix && r.chance(50) ? server.ServeStaticFilesFrom(dir, http::ServeStaticFilesFromOptions(prefix)) : server.ServeStaticFilesFrom(dir, http::ServeStaticFilesFromOptions(prefix, pub));
    VH_CHECK(!unknown && !two, "static:accepted", unknown ? "unknown type" : "two index files");
    VH_CHECK(server.PathHandlersCount() == before + files.size() + indexes.size(), "static:count", "");
    for (const auto& f : files) {
      const auto resp = vh::Fetch(port, "GET", prefix + "/" + f.first);
      VH_CHECK(resp.complete && resp.code == 200 && resp.body == f.second.content && resp.Header("content-type") == f.second.type, "static:file", f.first + " " + std::to_string(resp.code));
      VH_CHECK(vh::Fetch(port, "GET", prefix + "/" + f.first + "/").code == 404, "static:file-slash", f.first);
      VH_CHECK(vh::Fetch(port, "POST", prefix + "/" + f.first).code == 405, "static:method", f.first);
      vh::Count("static_files");
    }
    for (const auto& f : indexes) {
      const std::string url = prefix + (f.first.empty() ? "" : "/" + f.first);
      const auto resp = vh::Fetch(port, "GET", url + "/");
      VH_CHECK(resp.complete && resp.code == 200 && resp.body == f.second.content, "static:index", url);
      const auto redirect = vh::Fetch(port, "GET", url);
      std::string want = pub + (pub.back() == '/' ? "" : "/") + (f.first.empty() ? "" : f.first + "/");
      VH_CHECK(redirect.complete && redirect.code == 302 && redirect.Header("location") == want, "static:redirect", redirect.Header("location") + " must be " + want);
      vh::Count("static_indexes");
    }
    for (const char* no : {"/zzz", "/.x.txt", "/a/.x.txt", "/.a", "/../x", "/x.unknown"}) VH_CHECK(vh::Fetch(port, "GET", prefix + no).code == 404, "static:hidden", no);
    for (const auto& d : dirs) {
      if (!indexes.count(d)) VH_CHECK(vh::Fetch(port, "GET", prefix + "/" + d + "/").code == 404, "static:no-index", d);
    }
  } catch (const http::ServeStaticFilesFromCanNotServeStaticFilesOfUnknownMIMEType&) {
    VH_CHECK(unknown, "static:refused-type", "");
    vh::Count("static_refused");
  } catch (const http::ServeStaticFilesFromCannotServeMoreThanOneIndexFile&) {
    VH_CHECK(two, "static:refused-index", "");
    vh::Count("static_refused");
  }
  VH_CHECK(server.PathHandlersCount() == before, "static:left", "");
  for (const auto& f : made_files) ::unlink(f.c_str());
  for (auto it = made_dirs.rbegin(); it != made_dirs.rend(); ++it) ::rmdir(it->c_str());
  ::rmdir(dir.c_str());
}
#endif

#if PARTS & 4
// ---- URLs.
static std::string RefDecode(const std::string& s) {
  std::string d;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '+') {
      d += ' ';
    } else if (s[i] == '%' && i + 2 < s.size() && isxdigit(static_cast<unsigned char>(s[i + 1])) && isxdigit(static_cast<unsigned char>(s[i + 2]))) {
      const char h[3] = {s[i + 1], s[i + 2], 0};
      d += static_cast<char>(strtol(h, nullptr, 16));
      i += 2;
    } else {
      d += s[i];
    }
  }
  return d;
}
CURRENT_STRUCT(FillBase) {
  CURRENT_FIELD(base, int64_t, -7);
};
CURRENT_ENUM(FillEnum, uint16_t) { A = 1, B = 500 };
CURRENT_STRUCT(Fill, FillBase) {
  CURRENT_FIELD(i, int32_t, -1);
  CURRENT_FIELD(u, uint64_t, 5);
  CURRENT_FIELD(s, std::string, "none");
  CURRENT_FIELD(b, bool, false);
  CURRENT_FIELD(d, double, 0.5);
  CURRENT_FIELD(o, Optional<int32_t>);
  CURRENT_FIELD(os, Optional<std::string>);
  CURRENT_FIELD(v, std::vector<std::string>);
  CURRENT_FIELD(e, FillEnum, FillEnum::A);
};
static void FillCase(vh::Rng& r) {
  Fill want, x;
  const bool fresh = r.chance(50);
  if (!fresh) {
    // What is not in the query is to be left as it was.
    if (r.chance(50)) x.b = true;
    if (r.chance(50)) x.o = static_cast<int32_t>(r.next());
    if (r.chance(50)) x.os = Token(r, 5);
    if (r.chance(50)) x.v = {"was", Token(r, 3)};
    if (r.chance(50)) x.base = 5, x.i = 7, x.u = 9, x.s = "was", x.d = 2.5, x.e = FillEnum::B;
    want = x;
  }
  std::vector<std::pair<std::string, std::string>> q;
  bool all = true;
  auto put = [&](const char* k, const std::string& v) { q.emplace_back(k, v); };
  auto roll = [&]() {
    const bool yes = r.chance(70);
    all &= yes;
    return yes;
  };
  if (roll()) want.base = static_cast<int64_t>(r.next()), put("base", std::to_string(want.base));
  if (roll()) want.i = static_cast<int32_t>(r.next()), put("i", std::to_string(want.i));
  if (roll()) want.u = r.next(), put("u", std::to_string(want.u));
  if (roll()) want.s = AnyBytes(r, r.below(20)), put("s", want.s);
  bool b_given = false;
  if (r.chance(70)) want.b = r.chance(50), b_given = true, put("b", want.b ? (r.chance(30) ? "" : "true") : "false");
  static_cast<void>(b_given);
  if (roll()) want.d = static_cast<double>(r.range(-1000000, 1000000)) / 64, put("d", JSON(want.d));
  if (r.chance(50)) want.o = static_cast<int32_t>(r.next()), put("o", std::to_string(Value(want.o)));
  if (r.chance(50)) want.os = AnyBytes(r, r.below(10)), put("os", Value(want.os));
  if (roll()) {
    want.v.clear();
    for (uint64_t i = r.below(4); i; --i) want.v.push_back(Token(r, 5));
    put("v", JSON(want.v));
  }
  if (roll()) want.e = r.chance(50) ? FillEnum::B : FillEnum::A, put("e", std::to_string(static_cast<int>(want.e)));
  std::string bad;
  if (r.chance(20) && !q.empty()) {
    auto& p = q[r.below(q.size())];
    if (p.first != "s" && p.first != "os" && p.first != "b") {
      static const char* no[] = {"x", "", "[1]", "{}", "1 2", "\"1", "99999999999999999999999", "[\"a\",1]"};
      p.second = no[r.below(8)];
      if (p.first == "d" && p.second[0] == '9') p.second = "x";
      if (p.first == "u" || p.first != "v" || p.second[0] != '[') bad = p.first;
      if (p.first == "v") bad = "v";
    }
  }
  for (size_t i = q.size(); i > 1; --i) std::swap(q[i - 1], q[r.below(i)]);
  std::string url = "/x";
  for (size_t i = 0; i < q.size(); ++i) {
    url += (i ? "&" : "?") + Escaped(q[i].first, r);
    if (!q[i].second.empty() || r.chance(50)) url += "=" + Escaped(q[i].second, r);
  }
  if (r.chance(30)) url += std::string(q.empty() ? "?" : "&") + "other=1";
  const URL u(url);
  const bool strict = r.chance(40);
  vh::Eval();
  vh::Count("fills");
  try {
    if (strict) {
      u.query.FillObject<Fill, url::FillObjectMode::Strict>(x);
    } else if (!fresh || r.chance(50)) {
      u.query.FillObject(x);
    } else {
      x = u.query.FillObject<Fill>();
    }
    VH_CHECK(bad.empty() && (!strict || all), "url:fill:accepted", bad + " " + url);
    if (bad.empty()) VH_CHECK(JSON(x) == JSON(want) && x.s == want.s, "url:fill", JSON(x) + " must be " + JSON(want) + " of " + url);
  } catch (const url::URLParseObjectAsURLParameterException& e) {
    VH_CHECK(!bad.empty() || (strict && !all), "url:fill:refused", std::string(e.what()) + " of " + url);
  } catch (const std::exception& e) {
    vh::Violation("url:fill:exception", std::string(e.what()) + " of " + url);
  }
}
static void URLCase(vh::Rng& r) {
  vh::Eval();
  {
    const std::string s = AnyBytes(r, r.below(50)), e = URL::EncodeURIComponent(s);
    vh::Distinct(vh::hash_str(s));
    VH_CHECK(URL::DecodeURIComponent(e) == s, "url:component", e);
    bool clean = true;
    for (size_t i = 0; i < e.size(); ++i) {
      if (e[i] == '%') clean &= i + 2 < e.size() && isxdigit(static_cast<unsigned char>(e[i + 1])) && isxdigit(static_cast<unsigned char>(e[i + 2]));
      else clean &= e[i] > 32 && e[i] < 127 && !strchr("#?&=/+%;:@,$\"<>\\^`{|}[]", e[i]);
    }
    VH_CHECK(clean, "url:component:escaped", e);
    VH_CHECK(URL::DecodeURIComponent(s) == RefDecode(s), "url:decode", s);
  }
  // From the parts.
  const std::string scheme = r.chance(60) ? "http" : r.chance(50) ? "https" : Token(r, 3);
  for (char c : scheme) if (!isalpha(static_cast<unsigned char>(c)) && c != '-') return;
  static const char host_chars[] = "abcxyz019-.";
  std::string host, user, pass;
  for (uint64_t i = 1 + r.below(8); i; --i) host += host_chars[r.below(11)];
  if (r.chance(20)) {
    user = "u" + std::to_string(r.below(10));
    if (r.chance(70)) pass = r.chance(50) ? "p:w" : "pw";
  }
  static const uint16_t well_known[] = {80, 443, 8080, 21, 22};
  const uint16_t port = r.chance(50) ? 0 : r.chance(40) ? well_known[r.below(5)] : static_cast<uint16_t>(1 + r.below(65535));
  Message m;
  MakeTarget(r, m);
  if (r.chance(20) && m.path.size() > 1) m.path += r.chance(50) ? "/http://x:1/y" : "//";  // Not to look like `//host`.
  std::string tail;
  for (size_t i = 0; i < m.params.size(); ++i) {
    tail += (i ? "&" : "?") + Escaped(m.params[i].first, r) + "=" + Escaped(m.params[i].second, r);
    if (r.chance(8)) {  // What follows the first equality sign is the value, other equality signs included.
      const std::string more = r.chance(50) ? "=" : "==x=1";
      tail += more;
      m.params[i].second += more;
    }
  }
  if (!m.fragment.empty()) tail += "#" + m.fragment + (r.chance(20) ? "?/#:@//" : "");
  if (!m.fragment.empty() && tail.back() == '/') m.fragment += "?/#:@//";
  const int kind = static_cast<int>(r.below(4));  // Full, protocol-relative, no scheme, path only.
  const bool no_path = kind < 3 && r.chance(20);
  std::string s;
  if (kind == 0) s = scheme + "://";
  if (kind == 1) s = "//";
  if (kind < 3) s += (user.empty() ? "" : user + (pass.empty() ? "" : ":" + pass) + "@") + host + (port ? ":" + std::to_string(port) : "");
  s += (no_path ? "" : m.path) + tail;
  const std::string path = no_path ? "/" : m.path;
  auto check = [&](const URL& u, const char* what, bool has_scheme, bool has_host) {
    VH_CHECK(u.path == path && u.parameters_vector == m.params && u.fragment == m.fragment, std::string("url:") + what + ":path", u.path + " of " + s);
    VH_CHECK(!has_scheme || u.scheme == scheme, std::string("url:") + what + ":scheme", u.scheme + " of " + s);
    if (has_host) VH_CHECK(u.host == host && u.username == user && u.password == pass, std::string("url:") + what + ":host", u.host + " of " + s);
    std::map<std::string, std::string> first;
    for (const auto& p : m.params) first.insert(p);
    VH_CHECK(u.AllQueryParameters() == first, std::string("url:") + what + ":query", s);
    for (const auto& p : first) VH_CHECK(u.query[p.first] == p.second && u.query.has(p.first) && u.query.get(p.first, "?") == p.second, std::string("url:") + what + ":query", s);
    VH_CHECK(!u.query.has("no such") && u.query["no such"].empty() && u.query.get("no such", "?") == "?", std::string("url:") + what + ":query", s);
  };
  vh::Count("urls");
  try {
    const URL u(s);
    check(u, "parse", kind == 0, kind < 3);
    VH_CHECK(kind == 0 || u.scheme.empty(), "url:parse:scheme", u.scheme + " of " + s);
    VH_CHECK(kind < 3 ? u.port == port : u.port == 0 && u.host.empty(), "url:parse:port", s);
    if (kind == 3) check(URL(u.ComposeURL()), "compose", false, false);
    if (kind < 3) {
      const std::string c = u.ComposeURL();
      const URL v(c);
      check(v, "compose", kind == 0, true);
      VH_CHECK(v.ComposeURL() == c, "url:compose:twice", c + " " + v.ComposeURL());
      // The default port is as good as none.
      const int want = v.port ? v.port : URL::DefaultPortForScheme(v.scheme);
      const int got = port ? port : URL::DefaultPortForScheme(v.scheme);
      VH_CHECK(want == got, "url:compose:port", s + " " + c);
    }
    const URL d = URL::MakeURLWithDefaults(u);
    VH_CHECK(!d.scheme.empty() && !d.host.empty(), "url:defaults", s);
    check(d, "defaults", kind == 0, kind < 3);
    VH_CHECK(d.port == (kind < 3 && port ? port : URL::DefaultPortForScheme(d.scheme)), "url:defaults:port", s);
    // Redirects, from another one.
    const URL f = URL::MakeRedirectedURL(URL("https://from:81/x?y=z#t"), s);
    check(f, "redirected", kind == 0, kind < 3);
    if (kind != 0) VH_CHECK(f.scheme == "https", "url:redirected:scheme", s);
    if (kind == 3) VH_CHECK(f.host == "from" && f.port == 81, "url:redirected:host", s);
    if (kind < 3) VH_CHECK(f.port == (port ? port : URL::DefaultPortForScheme(f.scheme)), "url:redirected:port", s);
    // Forms.
    std::string q;
    for (size_t i = 0; i < m.params.size(); ++i) q += (i ? "&" : "") + Escaped(m.params[i].first, r) + "=" + Escaped(m.params[i].second, r);
    VH_CHECK(URL::ParseQueryString(q) == u.AllQueryParameters(), "url:form", q);
  } catch (const std::exception& e) {
    vh::Violation("url:exception", std::string(e.what()) + " on " + s);
  }
  // Anything at all.
  const std::string junk = AnyBytes(r, r.below(60));
  try {
    URL u(junk);
    u.ComposeURL();
  } catch (const url::EmptyURLException&) {
  } catch (const std::exception& e) {
    vh::Violation("url:junk", std::string(e.what()) + " on " + junk);
  }
  if (r.chance(30)) FillCase(r);
}

static void HeadersCase(vh::Rng& r) {
  vh::Eval();
  Headers h;
  RefHeaders m;
  std::string history;
  static const char* names[] = {"X-a", "x_A", "X_a", "Host", "hOST", "B", "b", "Z-Z-z", "z_z-Z", "cookie", "Set_Cookie", ""};
  for (uint64_t step = 0, n = 5 + r.below(40); step < n; ++step) {
    const std::string k = names[r.below(12)];
    const std::string v = r.chance(30) ? "" : Token(r, 4);
    const uint64_t what = r.below(14);
    history += std::to_string(what) + " " + k + "=" + v + "; ";
    bool cookie = false;
    try {
      switch (what) {
        case 0:
        case 1: h.Set(k, v); break;
        case 2: h.Remove(k); break;
        case 3: h[k] = v; break;
        case 4: VH_CHECK(h.Has(k) == !!m.Find(k), "headers:has", history); break;
        case 5: VH_CHECK(h.GetOrDefault(k, "?") == (m.Find(k) ? m.Find(k)->second : "?"), "headers:get-or-default", history); break;
        case 6:
        case 7: {
          std::string got = "?";
          try {
            const Headers& c = h;
            got = what == 6 ? h.Get(k) : c[k].value;
            if (what == 7 && m.Find(k)) VH_CHECK(c[k].header == m.Find(k)->first, "headers:spelling", history);
          } catch (const net::http::HeaderNotFoundException&) {
          }
          VH_CHECK(got == (m.Find(k) ? m.Find(k)->second : "?"), "headers:get", history);
          break;
        }
        case 8: {
          Headers x;
          if (r.chance(50)) {
            x.Set("old", "1").Set(k == "" || IsCookieName(k) ? "b" : k, "2");
            x.SetCookie("old", "3");
          }
          x = h;
          VH_CHECK(Dump(x) == Dump(m), "headers:assigned", history);
          if (r.chance(50)) h = x;
          const Headers& self = h;
          h = self;
          break;
        }
        case 9: {
          Headers x(h);
          x.Set("new", "1");
          Headers y(std::move(x));
          VH_CHECK(y.Has("NEW") && y.size() == m.list.size() + 1, "headers:moved", history);
          y.Remove("nEw");
          if (r.chance(50)) h = std::move(y);
          break;
        }
        case 10: {
          const std::string c = Token(r, 1);
          if (r.chance(50)) {
            h.SetCookie(c, v);
            m.cookies[c].first = v;
          } else {
            h.SetCookie(c, v, {{k, "1"}});
            m.cookies[c].first = v;
            m.cookies[c].second = {{k, "1"}};
          }
          break;
        }
        case 11:
          if (r.chance(50)) {
            h.SetCORSHeader();
            m.Set("Access-Control-Allow-Origin", "*");
          } else {
            h.RemoveCORSHeader();
            for (size_t i = 0; i < m.list.size(); ++i) {
              if (m.list[i].first == "Access-Control-Allow-Origin") m.list.erase(m.list.begin() + static_cast<long>(i--));
            }
          }
          break;
        case 12: h.push_back({k, v}); break;
        default: h.emplace_back(k, v);
      }
    } catch (const net::http::CookieIsNotYourRegularHeader&) {
      cookie = true;
    }
    const bool looks_at_key = what <= 7 || what >= 12;
    VH_CHECK(cookie == (looks_at_key && IsCookieName(k)), "headers:cookie", history);
    if (!cookie) {
      if (what <= 1 || what >= 12) m.Set(k, v);
      if (what == 2) {
        for (size_t i = 0; i < m.list.size(); ++i) {
          if (Canonical(m.list[i].first) == Canonical(k)) m.list.erase(m.list.begin() + static_cast<long>(i--));
        }
      }
      if (what == 3) {
        if (!m.Find(k)) m.list.emplace_back(k, "");
        m.Find(k)->second = v;
      }
    }
    VH_CHECK(Dump(h) == Dump(m), "headers:state", Dump(h) + " must be " + Dump(m) + " after " + history);
    VH_CHECK(h.size() == m.list.size() && h.empty() == m.list.empty(), "headers:size", history);
    std::map<std::string, std::string> as_map;
    for (const auto& e : m.list) as_map.insert(e);
    VH_CHECK(h.AsMap() == as_map, "headers:as-map", history);
    std::string cookies;
    for (const auto& c : m.cookies) cookies += (cookies.empty() ? "" : "; ") + c.first + "=" + c.second.first;
    VH_CHECK(h.CookiesAsString() == cookies, "headers:cookies", history);
    if (vh::TooMany()) return;
  }
  vh::Distinct(vh::hash_str(history));
}
#endif


int main(int argc, char** argv) {
  return vh::Main(argc, argv, [] {
    auto& o = vh::opt();
    vh::Rng seed(o.seed * 1000003 + o.shard * 7919 + vh::hash_str(o.mode));
    std::cerr.setstate(std::ios::failbit);
#if PARTS & 2
    auto reserved = net::ReserveLocalPort();
    const int port = reserved;
    auto& server = HTTP(std::move(reserved));
    http::HTTPServerPOSIX::HTTPRoutesScope scope;
    scope += server.Register("/alive", [](Request r) { r("yes"); });
    vh::Listener listener;
    if (o.mode == "client") {
      scope += server.Register("/echo", [](Request r) {
        Headers h({{"X-Echo", "a"}, {"x_echo", "b"}});
        h.SetCookie("c1", "v1");
        r(Echo(r.method, r.url, r.headers, r.body), HTTPResponseCode(203), h, "text/plain");
      });
      scope += server.Register("/chunks", [](Request r) {
        std::vector<std::string> cuts = strings::Split(r.url.query["cut"], ',');
        auto sender = r.SendChunkedResponse(HTTPResponseCode.OK, Headers("x-kind", "chunked"));
        size_t at = 0;
        for (size_t i = 0; i < cuts.size(); ++i) {
          const size_t n = FromString<size_t>(cuts[i]);
          sender.Send(r.body.substr(at, n), i % 3 ? net::ChunkFlush::Flush : net::ChunkFlush::NoFlush);
          at += n;
        }
      });
      scope += server.Register("/r", URLPathArgs::CountMask::Two, [port](Request r) {
        const int n = atoi(r.url_path_args[0].c_str()), kind = atoi(r.url_path_args[1].c_str());
        const std::string next = "/r/" + std::to_string(n - 1) + "/" + r.url_path_args[1];
        if (!n) {
          r("arrived " + r.url_path_args[1]);
        } else {
          std::string to = next;
          if (kind == 1) to = "http://localhost:" + std::to_string(port) + next;
          if (kind == 2) to = "//localhost:" + std::to_string(port) + next + "?a=b%20c";
          if (kind == 3) to = n > 1 ? next : "/r/1/3";
          if (kind == 4 && n % 2 == 0) to = "http://127.0.0.1:" + std::to_string(port) + next;
          static const int codes[] = {302, 301, 303, 307, 305, 300};
          r("", HTTPResponseCode(codes[(n * 3 + kind) % 6]), Headers({{"Location", to}}), "text/plain");
        }
      });
    }
#endif
    for (uint64_t c = 0; c < o.cases && !vh::TooMany(); ++c) {
      vh::Rng r(seed.next());
      if (c % 16 == 0) vh::Case("case " + std::to_string(c));
#if PARTS & 1
      if (o.mode == "parse") ParseCase(r);
      if (o.mode == "respond") RespondCase(r);
      if (o.mode == "hostile") HostileCase(r);
#endif
#if PARTS & 2
      if (o.mode == "routes") RoutesCase(r, server, port);
      if (o.mode == "routes-conc") RoutesConcurrentCase(r, server, port);
      if (o.mode == "client") ClientCase(r, port);
      if (o.mode == "hostile-client") HostileClientCase(r, port);
      if (o.mode == "hostile-server") HostileServerCase(r, listener);
      if (o.mode == "static") StaticCase(r, server, port);
#endif
#if PARTS & 4
      if (o.mode == "url") URLCase(r);
      if (o.mode == "headers") HeadersCase(r);
#endif
      vh::Count("cases");
    }
#if PARTS & 2
    VH_CHECK(Alive(port), "server-is-gone", "");
#endif
  });
}
