// Raw loopback sockets for harnesses: a client that controls every byte, and a re-chunking proxy.
#ifndef VH_NET_H
#define VH_NET_H
#include <arpa/inet.h>
#include <errno.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/socket.h>
#include <string>
#include "vh.h"

namespace vh {

inline int Dial(int port, int rcvbuf = 0) {
  int fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
  if (fd < 0) return -1;
  int one = 1;
  ::setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
  if (rcvbuf) ::setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof(rcvbuf));
  struct sockaddr_in a;
  memset(&a, 0, sizeof(a));
  a.sin_family = AF_INET;
  a.sin_port = htons(port);
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  if (::connect(fd, reinterpret_cast<struct sockaddr*>(&a), sizeof(a)) != 0) {
    ::close(fd);
    return -1;
  }
  return fd;
}

inline bool SendAll(int fd, const char* p, size_t n) {
  while (n) {
    ssize_t w = ::send(fd, p, n, MSG_NOSIGNAL);
    if (w <= 0) {
      if (w < 0 && errno == EINTR) continue;
      return false;
    }
    p += w;
    n -= w;
  }
  return true;
}
inline bool SendAll(int fd, const std::string& s) { return SendAll(fd, s.data(), s.size()); }

// Waits up to `ms`; >0 bytes, 0 on EOF, -1 on error, -2 on timeout.
inline ssize_t RecvSome(int fd, char* p, size_t n, int ms) {
  struct pollfd pf;
  pf.fd = fd;
  pf.events = POLLIN;
  int r;
  do {
    r = ::poll(&pf, 1, ms);
  } while (r < 0 && errno == EINTR);
  if (r == 0) return -2;
  if (r < 0) return -1;
  ssize_t k;
  do {
    k = ::recv(fd, p, n, 0);
  } while (k < 0 && errno == EINTR);
  return k;
}

// Everything until EOF/error/timeout.
inline std::string RecvAll(int fd, int ms, bool* timed_out = nullptr) {
  std::string s;
  char buf[65536];
  while (true) {
    ssize_t k = RecvSome(fd, buf, sizeof(buf), ms);
    if (k > 0) {
      s.append(buf, k);
      continue;
    }
    if (timed_out) *timed_out = (k == -2);
    return s;
  }
}

struct Listener {
  int fd = -1;
  int port = 0;
  explicit Listener(int want = 0) {
    fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    int one = 1;
    ::setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof(one));
    struct sockaddr_in a;
    memset(&a, 0, sizeof(a));
    a.sin_family = AF_INET;
    a.sin_port = htons(want);
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (::bind(fd, reinterpret_cast<struct sockaddr*>(&a), sizeof(a)) != 0 || ::listen(fd, 64) != 0) {
      ::close(fd);
      fd = -1;
      return;
    }
    socklen_t l = sizeof(a);
    ::getsockname(fd, reinterpret_cast<struct sockaddr*>(&a), &l);
    port = ntohs(a.sin_port);
  }
  ~Listener() { Close(); }
  int Accept(int ms) {
    struct pollfd pf;
    pf.fd = fd;
    pf.events = POLLIN;
    if (::poll(&pf, 1, ms) <= 0) return -1;
    return ::accept4(fd, nullptr, nullptr, SOCK_CLOEXEC);
  }
  void Close() {
    if (fd >= 0) ::close(fd);
    fd = -1;
  }
};

// Incremental parser of a raw HTTP response: status, headers, de-chunked (or Content-Length/EOF) body.
struct RespParser {
  std::string raw, head, body, lower_head;
  int code = 0;
  bool headers_done = false, chunked = false, complete = false, malformed = false;
  long content_length = -1;
  size_t pos = 0;
  std::vector<size_t> chunks;
  void Feed(const char* p, size_t n) {
    raw.append(p, n);
    Parse();
  }
  void Parse() {
    if (!headers_done) {
      auto e = raw.find("\r\n\r\n");
      if (e == std::string::npos) return;
      head = raw.substr(0, e + 2);
      pos = e + 4;
      headers_done = true;
      if (head.compare(0, 5, "HTTP/") != 0) malformed = true;
      auto sp = head.find(' ');
      if (sp != std::string::npos) code = atoi(head.c_str() + sp + 1);
      lower_head = head;
      for (auto& c : lower_head) c = tolower(c);
      chunked = lower_head.find("transfer-encoding: chunked") != std::string::npos;
      auto cl = lower_head.find("\r\ncontent-length:");
      if (cl != std::string::npos) content_length = atol(lower_head.c_str() + cl + 17);
    }
    if (complete || malformed) return;
    if (!chunked) {
      if (content_length >= 0) {
        body = raw.substr(pos, content_length);
        if (raw.size() - pos >= static_cast<size_t>(content_length)) complete = true;
      } else {
        body = raw.substr(pos);
      }
      return;
    }
    while (true) {
      auto e = raw.find("\r\n", pos);
      if (e == std::string::npos) return;
      const std::string hex = raw.substr(pos, e - pos);
      if (hex.empty() || hex.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos || hex.size() > 8) {
        malformed = true;
        return;
      }
      size_t n = strtoul(hex.c_str(), nullptr, 16);
      if (raw.size() < e + 2 + n + 2) return;
      if (raw.compare(e + 2 + n, 2, "\r\n") != 0) {
        malformed = true;
        return;
      }
      if (n == 0) {
        complete = true;
        return;
      }
      body += raw.substr(e + 2, n);
      chunks.push_back(n);
      pos = e + 2 + n + 2;
    }
  }
  std::string Header(const std::string& name) const {
    std::string l = name;
    for (auto& c : l) c = tolower(c);
    auto p = lower_head.find("\r\n" + l + ":");
    if (p == std::string::npos) return "";
    p += 2 + l.size() + 1;
    while (p < head.size() && head[p] == ' ') ++p;
    auto e = head.find("\r\n", p);
    return head.substr(p, e - p);
  }
};

// One request over a fresh connection; reads until the response is complete, EOF or timeout.
inline RespParser Fetch(int port, const std::string& method, const std::string& target, int ms = 15000,
                        const std::string& extra_headers = "", const std::string& body = "") {
  RespParser r;
  int fd = Dial(port);
  if (fd < 0) {
    r.malformed = true;
    return r;
  }
  std::string req = method + " " + target + " HTTP/1.1\r\nHost: localhost\r\n" + extra_headers;
  if (!body.empty() || method == "POST" || method == "PUT" || method == "PATCH") {
    req += "Content-Length: " + std::to_string(body.size()) + "\r\n";
  }
  req += "\r\n" + body;
  SendAll(fd, req);
  char buf[65536];
  while (!r.complete && !r.malformed && !(method == "HEAD" && r.headers_done)) {
    ssize_t k = RecvSome(fd, buf, sizeof(buf), ms);
    if (k <= 0) {
      if (k == 0 && !r.chunked && r.headers_done && r.content_length < 0) r.complete = true;
      break;
    }
    r.Feed(buf, k);
  }
  ::close(fd);
  return r;
}

}  // namespace vh
#endif
