// C33: TCP connections. stream: the bytes; ports: the reservations; moves: ownership of descriptors.
#include <dirent.h>
#include <signal.h>
#include <sys/ioctl.h>
#include <condition_variable>
#include <iostream>
#include <memory>
#include <optional>
#include "bricks/net/tcp/tcp.h"
#include "vh.h"
#include "vh_net.h"

using namespace current::net;

static char ByteAt(uint64_t key, uint64_t pos) {
  uint64_t z = key ^ (pos >> 3) * 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 31)) * 0xbf58476d1ce4e5b9ull;
  return static_cast<char>(z >> (8 * (pos & 7)));
}

static int OpenFDs() {
  int n = 0;
  DIR* d = ::opendir("/proc/self/fd");
  while (::readdir(d)) ++n;
  ::closedir(d);
  return n;
}

enum class End { Graceful, Reset, Hold };

struct Side {
  uint64_t key = 0, total = 0;
  std::string seg;
};

// Writes `total` bytes, in segments of any sizes and kinds.
static void Writer(Connection& c, uint64_t key, uint64_t total, vh::Rng r, std::string& failure, uint64_t& kinds) {
  try {
    uint64_t pos = 0;
    while (pos < total) {
      const uint64_t left = total - pos;
      uint64_t n = r.chance(70) ? 1 + r.below(20) : r.chance(80) ? 1 + r.below(5000) : r.chance(80) ? 1 + r.below(300000) : left;
      n = std::min(n, left);
      const bool more = n == left ? false : r.chance(50);
      const int kind = static_cast<int>(r.below(6));
      std::string s(n, 0);
      for (uint64_t i = 0; i < n; ++i) s[i] = ByteAt(key, pos + i);
      kinds |= 1 << kind;
      switch (kind) {
        case 0: c.BlockingWrite(s, more); break;
        case 1: c.BlockingWrite(static_cast<const void*>(s.data()), s.size(), more); break;
        case 2: c.BlockingWrite(std::vector<char>(s.begin(), s.end()), more); break;
        case 3: c.BlockingWrite(s.begin(), s.end(), more); break;
        case 4:
          if (n % 2 == 0) {
            std::vector<uint16_t> v(n / 2);
            memcpy(v.data(), s.data(), n);
            c.BlockingWrite(v, more);
          } else {
            c.BlockingWrite(std::string(), more);
            c.BlockingWrite(s, more);
          }
          break;
        default:
          // Zero-terminated pieces have to have no zeroes.
          if (s.find('\0') == std::string::npos) {
            c.BlockingWrite(s.c_str(), more);
          } else {
            std::vector<uint8_t> v(s.begin(), s.end());
            c.BlockingWrite(v.begin(), v.end(), more);
          }
      }
      pos += n;
      if (r.chance(3)) ::usleep(static_cast<useconds_t>(r.below(300)));
    }
  } catch (const current::Exception& e) {
    failure = e.what();
    if (failure.empty()) failure = "exception";
  }
}

struct ReaderResult {
  uint64_t got = 0;
  bool mismatch = false, overrun = false, zero = false, partial_fill = false;
  std::string exception;
  uint64_t h = 0;
};

// Reads until `until` bytes have been read (if `until` is not above what's going to be sent), or until an exception.
static void Reader(Connection& c, uint64_t key, uint64_t until, vh::Rng r, ReaderResult& o) {
  std::vector<char> buf;
  try {
    while (o.got < until) {
      uint64_t want = r.chance(60) ? 1 + r.below(40) : r.chance(80) ? 1 + r.below(6000) : r.chance(80) ? 1 + r.below(200000) : until - o.got;
      want = std::min(want, until - o.got);
      const bool fill = r.chance(50);
      // A guard after the buffer, in addition to the one by ASan.
      buf.assign(want + 16, 'G');
      size_t n;
      if (r.chance(50)) {
        n = c.BlockingRead(buf.data(), want, fill ? Connection::FillFullBuffer : Connection::ReturnASAP);
      } else {
        n = c.BlockingRead(reinterpret_cast<uint8_t*>(buf.data()), want, fill ? Connection::FillFullBuffer : Connection::ReturnASAP);
      }
      if (n > want) o.overrun = true;
      if (n == 0) o.zero = true;
      if (fill && n != want) o.partial_fill = true;
      for (int i = 0; i < 16; ++i)
        if (buf[want + i] != 'G') o.overrun = true;
      for (size_t i = 0; i < n && i < want; ++i)
        if (buf[i] != ByteAt(key, o.got + i)) o.mismatch = true;
      o.got += n;
      o.h = vh::hash_mix(o.h, n);
      if (o.mismatch || o.overrun || o.zero) return;
      if (r.chance(3)) ::usleep(static_cast<useconds_t>(r.below(300)));
    }
  } catch (const EmptyConnectionResetByPeer&) {
    o.exception = "EmptyReset";
  } catch (const EmptySocketReadException&) {
    o.exception = "EmptyEOF";
  } catch (const ConnectionResetByPeer&) {
    o.exception = "Reset";
  } catch (const SocketReadException&) {
    o.exception = "EOF";
  } catch (const current::Exception& e) {
    o.exception = std::string("other: ") + e.what();
  }
}

static std::atomic<uint64_t> g_signals{0};
static void OnSignal(int) { g_signals.fetch_add(1, std::memory_order_relaxed); }

static void StreamCase(vh::Rng& r) {
  vh::perturb_level() = static_cast<int>(r.below(4));
  const int pairs = static_cast<int>(1 + r.below(3));
  const int fds = OpenFDs();
  {
    Socket listener(r.chance(50) ? ReserveLocalPort() : ReserveLocalPort(NagleAlgorithm::Keep));
    sockaddr_in a;
    socklen_t al = sizeof(a);
    ::getsockname(listener.socket, reinterpret_cast<sockaddr*>(&a), &al);
    const int port = ntohs(a.sin_port);
    vh::Case("port " + std::to_string(port) + " pairs " + std::to_string(pairs));
    std::vector<std::thread> ts;
    std::mutex accept_mutex;
    for (int k = 0; k < pairs; ++k) {
      // Connect one by one, so that it is known who is who, then run all of the pairs at once.
      std::optional<Connection> server, client;
      std::thread acceptor([&]() { server.emplace(listener.Accept()); });
      client.emplace(ClientSocket(r.chance(50) ? "localhost" : "127.0.0.1", port));
      acceptor.join();
      VH_CHECK(client->LocalIPAndPort().port == server->RemoteIPAndPort().port && client->LocalIPAndPort().ip == server->RemoteIPAndPort().ip,
               "net:addr", client->LocalIPAndPort().ip + ":" + std::to_string(client->LocalIPAndPort().port) + " " + server->RemoteIPAndPort().ip + ":" + std::to_string(server->RemoteIPAndPort().port));
      VH_CHECK(client->RemoteIPAndPort().port == port && server->LocalIPAndPort().port == port && client->RemoteIPAndPort().ip == "127.0.0.1" &&
                   server->LocalIPAndPort().ip == "127.0.0.1",
               "net:addr2", "");
      auto s = std::make_shared<Connection>(std::move(*server));
      auto c = std::make_shared<Connection>(std::move(*client));
      try {
        char x;
        server->BlockingRead(&x, 1);
        vh::Violation("net:moved", "no exception from a moved away connection");
      } catch (const AttemptedToUseMovedAwayConnection&) {
      }
      vh::Rng tr = r.fork();
      ts.emplace_back([s, c, tr]() mutable {
        const uint64_t k1 = tr.next(), k2 = tr.next();
        const uint64_t n1 = tr.chance(10) ? tr.below(3000000) : tr.below(60000), n2 = tr.chance(40) ? 0 : tr.below(60000);
        const bool over1 = tr.chance(50);
        const End end = static_cast<End>(tr.below(3));
        std::string f1, f2;
        uint64_t kinds = 0, kinds2 = 0;
        ReaderResult r1, r2;
        std::atomic<bool> reading{true};
        vh::Rng ra = tr.fork(), rb = tr.fork(), rc = tr.fork(), rd = tr.fork();
        // c -> s of n1 bytes, s -> c of n2 bytes, at the same time.
        const uint64_t until1 = end == End::Graceful && over1 ? n1 + 1 + tr.below(3000) : n1;
        const bool signals = tr.chance(40);
        std::thread t1([&]() { Reader(*s, k1, until1, ra, r1); reading = false; });
        std::thread t2([&]() { Reader(*c, k2, n2, rb, r2); });
        std::thread t3([&]() { Writer(*s, k2, n2, rc, f2, kinds2); });
        std::thread t5([&]() {
          uint64_t n = 0;
          while (signals && reading && n++ < 2000) {
            ::pthread_kill(t1.native_handle(), SIGUSR1);
            ::usleep(50);
          }
        });
        Writer(*c, k1, n1, rd, f1, kinds);
        t2.join();
        t3.join();
        // Now the client has sent and received everything.
        if (end == End::Graceful) c = nullptr;
        t5.join();
        t1.join();
        VH_CHECK(f1.empty() && f2.empty(), "net:write-failed", f1 + " / " + f2);
        VH_CHECK(!r1.mismatch && !r2.mismatch, "net:bytes", "received what was not sent, at " + std::to_string(r1.got) + " / " + std::to_string(r2.got));
        VH_CHECK(!r1.overrun && !r2.overrun, "net:overrun", "read more than asked for");
        VH_CHECK(!r1.zero && !r2.zero, "net:zero", "read nothing");
        VH_CHECK(!r1.partial_fill && !r2.partial_fill, "net:fill", "FillFullBuffer returned less");
        VH_CHECK(r2.got == n2 && r2.exception.empty(), "net:lost", "got " + std::to_string(r2.got) + " of " + std::to_string(n2) + " " + r2.exception);
        if (until1 == n1) {
          VH_CHECK(r1.got == n1 && r1.exception.empty(), "net:lost", "got " + std::to_string(r1.got) + " of " + std::to_string(n1) + " " + r1.exception);
        } else {
          VH_CHECK(r1.got <= n1 && (r1.exception == "EOF" || r1.exception == "EmptyEOF"), "net:eof", "got " + std::to_string(r1.got) + " of " + std::to_string(n1) + " " + r1.exception);
          // If the last read was for as much as there was, nothing was lost; otherwise the tail is in the failed one.
          VH_CHECK(r1.exception != "EmptyEOF" || r1.got == n1, "net:eof-lost", "");
          VH_CHECK(r1.exception != "EOF" || r1.got < n1, "net:eof-kind", "");
          vh::Count("eof_" + r1.exception);
        }
        if (end == End::Reset) {
          // RST instead of FIN: reported as such, with nothing made up.
          struct linger l = {1, 0};
          // More than is to be received: an RST may be sent by close() with the data still unread.
          ::setsockopt(c->socket, SOL_SOCKET, SO_LINGER, &l, sizeof(l));
          const int fd = ::dup(c->socket);
          c = nullptr;  // Calls shutdown(), which sends FIN.
          ::close(fd);  // Sends RST.
          char x[8];
          std::string what;
          try {
            s->BlockingRead(x, 8, tr.chance(50) ? Connection::FillFullBuffer : Connection::ReturnASAP);
            what = "data";
          } catch (const EmptySocketException&) {
            what = "empty";
          } catch (const SocketException&) {
            what = "nonempty";
          }
          VH_CHECK(what == "empty", "net:reset", what);
          // Writing to the one which is gone is an exception, never a signal.
          std::string w;
          for (int i = 0; i < 20000 && w.empty(); ++i) {
            try {
              s->BlockingWrite("x", 1, i % 2 == 1);
              ::usleep(10);
            } catch (const SocketWriteException&) {
              w = "SocketWriteException";
            } catch (const current::Exception& e) {
              w = e.what();
            }
          }
          VH_CHECK(w == "SocketWriteException", "net:write-reset", w);
          vh::Count("resets");
        }
        vh::Eval(1);
        vh::Count("bytes", n1 + n2);
        vh::Distinct(vh::hash_mix(vh::hash_mix(r1.h, r2.h), kinds * 64 + kinds2));
        vh::Sample(std::to_string(n1) + " bytes one way, " + std::to_string(n2) + " another, " + r1.exception);
      });
    }
    for (auto& t : ts) t.join();
  }
  const int fds2 = OpenFDs();
  VH_CHECK(fds == fds2, "net:fd-leak", std::to_string(fds) + " -> " + std::to_string(fds2));
  vh::Count("signals", g_signals.exchange(0));
}

// The peer resets the connection while a read for more than it has sent is waiting: the exception tells whether anything was read,
// and writing afterwards is an exception, not a signal, with more data to follow or not.
static void ResetCase(vh::Rng& r) {
  Socket listener(ReserveLocalPort());
  sockaddr_in a;
  socklen_t al = sizeof(a);
  ::getsockname(listener.socket, reinterpret_cast<sockaddr*>(&a), &al);
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  const size_t sent = r.chance(30) ? 0 : 1 + r.below(r.chance(50) ? 10 : 20000);
  const bool fill = r.chance(70), more = r.chance(50), whole = sent && r.chance(20);
  const uint64_t key = r.next();
  vh::Case("reset after " + std::to_string(sent) + (fill ? " full" : " asap") + (whole ? " whole" : ""));
  const int fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
  VH_CHECK(::connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof(a)) == 0, "harness:connect", "");
  Connection s(listener.Accept());
  std::vector<char> buf(sent + 16, 'G');
  std::string what;
  size_t got = 0;
  std::thread t([&]() {
    try {
      // As soon as possible: all of what is sent first, and then the one which is to wait.
      if (!fill || whole) {
        while (got < sent) got += s.BlockingRead(buf.data() + got, sent - got, fill ? Connection::FillFullBuffer : Connection::ReturnASAP);
        s.BlockingRead(buf.data() + got, 8, fill ? Connection::FillFullBuffer : Connection::ReturnASAP);
      } else {
        s.BlockingRead(buf.data(), sent + 8, Connection::FillFullBuffer);
      }
      what = "data";
    } catch (const EmptyConnectionResetByPeer&) {
      what = "EmptyReset";
    } catch (const EmptySocketException&) {
      what = "Empty";
    } catch (const ConnectionResetByPeer&) {
      what = "Reset";
    } catch (const SocketReadException&) {
      what = "EOF";
    }
  });
  std::string data(sent, 0);
  for (size_t i = 0; i < sent; ++i) data[i] = ByteAt(key, i);
  for (size_t pos = 0; pos < sent;) {
    const ssize_t k = ::send(fd, data.data() + pos, std::min<size_t>(sent - pos, 1 + r.below(4000)), MSG_NOSIGNAL);
    if (k > 0) pos += static_cast<size_t>(k);
  }
  // All has been taken by the reader: nothing unacknowledged on this side, and nothing in the buffer of the other.
  for (int i = 0; i < 100000; ++i) {
    int out = 1, in = 1;
    ::ioctl(fd, TIOCOUTQ, &out);
    ::ioctl(s.socket, FIONREAD, &in);
    if (!out && !in) break;
    ::usleep(20);
  }
  ::usleep(static_cast<useconds_t>(r.below(300)));
  struct linger l = {1, 0};
  ::setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof(l));
  ::close(fd);
  t.join();
  const bool anything = fill && !whole && sent;
  VH_CHECK(what == (anything ? "Reset" : "EmptyReset"), "net:reset-kind", what + " after " + std::to_string(sent) + " fill " + std::to_string(fill) + " whole " + std::to_string(whole));
  for (size_t i = 0; i < sent; ++i) VH_CHECK(buf[i] == ByteAt(key, i), "net:reset-bytes", std::to_string(i));
  for (int i = 0; i < 3; ++i) {
    bool threw = false;
    try {
      if (i == 1) {
        s.BlockingWrite(std::string("bye"), more);
      } else {
        s.BlockingWrite("bye", 3, i ? !more : more);
      }
    } catch (const SocketWriteException&) {
      threw = true;
    }
    VH_CHECK(threw, "net:write-after-reset", "");
  }
  vh::Eval(1);
  vh::Count("hard_resets");
  vh::Distinct(vh::hash_mix(sent, fill * 4 + more * 2 + whole));
}

// Reserved ports: distinct, held, and free afterwards.
static bool PortIsFree(int port) {
  const int fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
  int one = 1;
  ::setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof(one));
  sockaddr_in a;
  memset(&a, 0, sizeof(a));
  a.sin_family = AF_INET;
  a.sin_port = htons(static_cast<uint16_t>(port));
  a.sin_addr.s_addr = INADDR_ANY;
  const bool ok = ::bind(fd, reinterpret_cast<sockaddr*>(&a), sizeof(a)) == 0 && ::listen(fd, 1) == 0;
  ::close(fd);
  return ok;
}

static void PortsCase(vh::Rng& r) {
  vh::perturb_level() = static_cast<int>(r.below(6));
  const int T = static_cast<int>(2 + r.below(4)), N = static_cast<int>(10 + r.below(60));
  std::mutex m;
  std::set<int> held;
  const int fds = OpenFDs();
  std::vector<std::thread> ts;
  std::atomic<uint64_t> h{0};
  for (int t = 0; t < T; ++t) {
    vh::Rng tr = r.fork();
    ts.emplace_back([&, tr]() mutable {
      struct Mine {
        std::unique_ptr<ReservedLocalPort> p;
        std::unique_ptr<Socket> s;
        int port;
      };
      std::vector<Mine> mine;
      auto release = [&](size_t i) {
        {
          std::lock_guard<std::mutex> l(m);
          held.erase(mine[i].port);
        }
        mine.erase(mine.begin() + i);
      };
      for (int i = 0; i < N; ++i) {
        if (mine.size() < 8 && tr.chance(60)) {
          Mine x;
          int hint = 0;
          if (tr.chance(30)) {
            // Possibly one which is being held.
            std::lock_guard<std::mutex> l(m);
            if (!held.empty() && tr.chance(70)) hint = *held.begin();
            else hint = static_cast<int>(tr.range(25000, 29000));
          }
          x.p = hint ? std::make_unique<ReservedLocalPort>(ReserveLocalPort(static_cast<uint16_t>(hint))) : std::make_unique<ReservedLocalPort>(ReserveLocalPort());
          x.port = static_cast<uint16_t>(*x.p);
          if (tr.chance(30)) {
            // Moving keeps it.
            x.p = std::make_unique<ReservedLocalPort>(std::move(*x.p));
            VH_CHECK(static_cast<int>(*x.p) == x.port, "ports:moved", "");
          }
          {
            std::lock_guard<std::mutex> l(m);
            VH_CHECK(held.insert(x.port).second, "ports:twice", "port " + std::to_string(x.port) + " is reserved twice");
          }
          h += static_cast<uint64_t>(x.port);
          if (tr.chance(50)) VH_CHECK(!PortIsFree(x.port), "ports:free", "port " + std::to_string(x.port) + " is not held");
          mine.push_back(std::move(x));
          vh::Eval(1);
        } else if (!mine.empty()) {
          const size_t i2 = tr.below(mine.size());
          Mine& x = mine[i2];
          if (!x.s && tr.chance(50)) {
            x.s = std::make_unique<Socket>(std::move(*x.p));
            x.p = nullptr;
            VH_CHECK(!PortIsFree(x.port), "ports:free-socket", "port " + std::to_string(x.port) + " is not held by its socket");
            try {
              std::thread client([&]() {
                try {
                  auto c = ClientSocket("127.0.0.1", x.port);
                  c.BlockingWrite("hello", 5, false);
                } catch (const current::Exception& e) {
                  vh::Violation("ports:connect", e.what());
                }
              });
              {
                auto c = x.s->Accept();
                char b[5];
                VH_CHECK(c.BlockingRead(b, 5, Connection::FillFullBuffer) == 5 && !memcmp(b, "hello", 5), "ports:accept", "");
                client.join();
              }
            } catch (const current::Exception& e) {
              vh::Violation("ports:accept-throws", e.what());
            }
            vh::Count("served");
          } else {
            release(i2);
          }
        }
      }
      while (!mine.empty()) release(mine.size() - 1);
    });
  }
  for (auto& t : ts) t.join();
  VH_CHECK(fds == OpenFDs(), "ports:fd-leak", std::to_string(fds) + " -> " + std::to_string(OpenFDs()));
  vh::Distinct(h);
}

// Ownership: each descriptor is closed exactly once, when its last owner is gone.
static void MovesCase(vh::Rng& r) {
  vh::perturb_level() = 0;
  const int fds = OpenFDs();
  {
    std::vector<std::unique_ptr<Socket>> v;   // Null, moved away, or owning.
    std::vector<int> port;                    // Zero if does not own.
    std::string log;
    auto fresh = [&]() {
      auto p = ReserveLocalPort();
      const int n = static_cast<int>(p);
      v.push_back(std::make_unique<Socket>(std::move(p)));
      port.push_back(n);
    };
    const int ops = static_cast<int>(5 + r.below(40));
    std::set<int> gone;
    for (int i = 0; i < ops; ++i) {
      const int k = static_cast<int>(r.below(6));
      if (v.empty() || (k == 0 && v.size() < 10)) {
        fresh();
        log += "+";
      } else if (k == 1) {
        const size_t a = r.below(v.size());
        v.push_back(std::make_unique<Socket>(std::move(*v[a])));
        port.push_back(port[a]);
        port[a] = 0;
        log += "m";
      } else if (k == 2 || k == 3) {
        const size_t a = r.below(v.size()), b = r.below(v.size());
        if (a == b) continue;
        if (port[b]) {
          *v[a] = std::move(*v[b]);
          if (port[a]) gone.insert(port[a]);
          port[a] = port[b];
          port[b] = 0;
          log += "=";
        }
      } else if (k == 4) {
        const size_t a = r.below(v.size());
        if (port[a]) gone.insert(port[a]);
        v.erase(v.begin() + a);
        port.erase(port.begin() + a);
        log += "-";
      } else {
        const size_t a = r.below(v.size());
        bool threw = false;
        try {
          const SOCKET s = v[a]->socket;
          sockaddr_in ad;
          socklen_t al = sizeof(ad);
          ::getsockname(s, reinterpret_cast<sockaddr*>(&ad), &al);
          VH_CHECK(ntohs(ad.sin_port) == port[a], "moves:other", log);
        } catch (const AttemptedToUseMovedAwayConnection&) {
          threw = true;
        }
        VH_CHECK(threw == (port[a] == 0), "moves:access", log);
      }
      int own = 0;
      for (int p : port) own += p != 0;
      VH_CHECK(OpenFDs() == fds + own, "moves:fds", log + ": " + std::to_string(OpenFDs() - fds) + " descriptors open by " + std::to_string(own) + " owners");
      if (vh::TooMany()) break;
    }
    for (int p : port) {
      if (p) VH_CHECK(!PortIsFree(p), "moves:held", log);
      gone.erase(p);
    }
    vh::Distinct(vh::hash_str(log));
    vh::Eval(ops);
    vh::Sample(log);
  }
  VH_CHECK(OpenFDs() == fds, "moves:leak", "");
}

int main(int argc, char** argv) {
  struct sigaction sa;
  memset(&sa, 0, sizeof(sa));
  sa.sa_handler = OnSignal;  // With no SA_RESTART.
  ::sigaction(SIGUSR1, &sa, nullptr);
  return vh::Main(argc, argv, [] {
    vh::Rng r(vh::opt().seed);
    for (uint64_t i = 0; i < vh::opt().cases && !vh::TooMany(); ++i) {
      vh::Rng c = r.fork();
      if (vh::opt().mode == "stream") StreamCase(c);
      if (vh::opt().mode == "ports") PortsCase(c);
      if (vh::opt().mode == "moves") MovesCase(c);
      if (vh::opt().mode == "resets") ResetCase(c);
    }
  });
}
