// C40: Karl and Claire: what Karl says of the fleet is what the keepalives he received make it.
// PARTS&1: mock time, model-based.  PARTS&2: real time, threads.
#ifndef PARTS
#define PARTS 1
#endif
#if PARTS & 1
#define CURRENT_MOCK_TIME
#endif
#include "vh.h"
#include "vh_net.h"
#include <fstream>
#include <sstream>
#include "port.h"
#include "typesystem/struct.h"
#include "typesystem/optional.h"

// What `make` would generate.
#define CURRENT_BUILD_H
namespace current {
namespace build {
CURRENT_STRUCT(BuildInfo) {
  CURRENT_FIELD(build_time, std::string, "Jan 01 2020, 00:00:00");
  CURRENT_FIELD(build_dir, std::string, "/here");
  CURRENT_FIELD(build_user, std::string, "me");
  CURRENT_FIELD(build_time_epoch_microseconds, std::chrono::microseconds, std::chrono::microseconds(1577836800000000ll));
  CURRENT_FIELD(os, std::string, "os");
  CURRENT_FIELD(git_commit_hash, Optional<std::string>, std::string("c0ffee"));
  CURRENT_FIELD(git_dirty_files, Optional<std::vector<std::string>>, std::vector<std::string>());
  CURRENT_FIELD(git_branch, Optional<std::string>, std::string("branch"));
  CURRENT_FIELD(compiler, Optional<std::string>, std::string("cc"));
  CURRENT_FIELD(compiler_flags, Optional<std::string>, std::string("-O"));
  CURRENT_FIELD(linker_flags, Optional<std::string>, std::string("-l"));
  CURRENT_FIELD(compiler_info, Optional<std::string>, std::string("i"));
  auto AsTuple() const {
    return std::make_tuple(build_time, build_dir, build_user, build_time_epoch_microseconds, os, git_commit_hash,
                           git_dirty_files, git_branch, compiler, compiler_flags, linker_flags, compiler_info);
  }
  bool operator==(const BuildInfo& rhs) const { return AsTuple() == rhs.AsTuple(); }
  bool operator!=(const BuildInfo& rhs) const { return !operator==(rhs); }
};
}  // namespace build
}  // namespace current

#include "karl/karl.h"
#include "karl/claire.h"

using namespace current::karl;
using std::chrono::microseconds;

namespace own {
CURRENT_STRUCT(counter) {
  CURRENT_FIELD(n, int64_t, 0);
  CURRENT_FIELD(words, std::vector<std::string>);
  void Render(std::ostream& os, microseconds) const { os << n; }
};
}  // namespace own

using karl_t = GenericKarl<UseOwnStorage, default_user_status::status, own::counter>;
using runtime_t = karl_t::runtime_status_variant_t;
using claire_status_t = karl_t::claire_status_t;
using karl_status_t = karl_t::karl_status_t;

inline uint16_t NewPort() {
  auto reserved = current::net::ReserveLocalPort();
  const uint16_t port = reserved;
  HTTP(std::move(reserved));
  return port;
}

// A request from the loopback address 127.0.0.`ip`.
inline vh::RespParser Ask(int ip, int port, const std::string& method, const std::string& target, const std::string& body = "") {
  vh::RespParser r;
  int fd = -1;
  for (int attempt = 0; attempt < 20 && fd < 0; ++attempt) {
    fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    struct sockaddr_in a;
    memset(&a, 0, sizeof(a));
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(0x7f000000u + ip);
    ::bind(fd, reinterpret_cast<struct sockaddr*>(&a), sizeof(a));
    a.sin_port = htons(port);
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (::connect(fd, reinterpret_cast<struct sockaddr*>(&a), sizeof(a)) != 0) {
      ::close(fd);
      fd = -1;
      ::usleep(20000);
    }
  }
  if (fd < 0) {
    r.malformed = true;
    return r;
  }
  std::string req = method + " " + target + " HTTP/1.1\r\nHost: localhost\r\n";
  if (!body.empty() || method == "POST") req += "Content-Length: " + std::to_string(body.size()) + "\r\n";
  vh::SendAll(fd, req + "\r\n" + body);
  char buf[65536];
  while (!r.complete && !r.malformed) {
    ssize_t k = vh::RecvSome(fd, buf, sizeof(buf), 60000);
    if (k <= 0) {
      if (k == 0 && !r.chunked && r.headers_done && r.content_length < 0) r.complete = true;
      break;
    }
    r.Feed(buf, k);
  }
  ::close(fd);
  return r;
}
inline std::string Ip(int k) { return "127.0.0." + std::to_string(k); }
inline ClaireServiceKey Key(int ip, uint16_t port) {
  ClaireServiceKey k;
  k.ip = Ip(ip);
  k.port = port;
  k.prefix = "/";
  return k;
}
template <typename F>
bool Eventually(F&& f, int ms = 30000) {
  for (int i = 0;; ++i) {
    if (f()) return true;
    if (i > ms / 2) return false;
    ::usleep(2000);
  }
}

struct Event {
  char kind;  // 'K', 'D', 'T'.
  std::string codename;
  std::string what;
  int64_t us;
  std::chrono::steady_clock::time_point when;
};
struct Notifiable : IKarlNotifiable<runtime_t> {
  std::mutex m;
  std::vector<Event> events;
  static std::string Info(const current::ImmutableOptional<ClaireInfo>& i) {
    return Exists(i) ? JSON(Value(i)) : std::string("none");
  }
  void Add(char k, const std::string& c, const std::string& w, microseconds us) {
    std::lock_guard<std::mutex> l(m);
    events.push_back({k, c, w, us.count(), std::chrono::steady_clock::now()});
  }
  void OnKeepalive(microseconds now, const ClaireServiceKey& l, const std::string& c, const claire_status_t& s) override {
    Add('K', c, JSON(l) + JSON(s), now);
  }
  void OnDeregistered(microseconds now, const std::string& c, const current::ImmutableOptional<ClaireInfo>& i) override {
    Add('D', c, Info(i), now);
  }
  void OnTimedOut(microseconds now, const std::string& c, const current::ImmutableOptional<ClaireInfo>& i) override {
    Add('T', c, Info(i), now);
  }
};

inline KarlParameters Params(uint16_t a, uint16_t b, const std::string& stream, const std::string& storage) {
  KarlParameters p;
  p.keepalives_port = a;
  p.fleet_view_port = b;
  p.stream_persistence_file = stream;
  p.storage_persistence_file = storage;
  return p;
}

inline std::string Word(vh::Rng& r) {
  static const char* kWords[] = {"", "OK", "a\"b", "back\\slash", "\xd0\x96", "tab\t", "nl\n", "zzz", "{}", "null"};
  return kWords[r.below(10)];
}
inline void RandomRuntime(vh::Rng& r, claire_status_t& s) {
  switch (r.below(3)) {
    case 0: break;
    case 1: {
      default_user_status::status x;
      x.message = Word(r);
      for (uint64_t i = r.below(3); i; --i) x.details["k" + std::to_string(r.below(5))] = Word(r);
      s.runtime = runtime_t(x);
      break;
    }
    case 2: {
      own::counter x;
      x.n = static_cast<int64_t>(r.below(1000));
      for (uint64_t i = r.below(3); i; --i) x.words.push_back(Word(r));
      s.runtime = runtime_t(x);
      break;
    }
  }
}

#if PARTS & 1
// ---------------------------------------------------------------------------------------------------------------
constexpr int64_t kSec = 1000000;
constexpr int64_t kSlack = 20000;  // How far `Now()` can get by itself between the steps.

struct Sent {
  int64_t at;  // The keepalive's timestamp is in [at, at + kSlack).
  int ip;
  uint16_t port;
  claire_status_t status;
};
struct MClaire {
  std::string service;
  bool located = false;
  int ip = 0;
  uint16_t port = 0;
  int64_t reported = 0;
  ClaireRegisteredState state = ClaireRegisteredState::Active;
};
struct MServer {
  bool name = false, group = false;
  std::string name_v, group_v;
  int64_t skew = 0;
};

struct FleetCase {
  vh::Rng& r;
  int64_t t;  // Mock time, a multiple of a second.
  uint16_t karl_port, view_port, callback_port;
  std::string stream_file, storage_file;
  int files = 0;
  Notifiable notifiable;
  std::unique_ptr<karl_t> karl;
  bool with_notifiable;
  microseconds timeout{45 * kSec};

  std::vector<Sent> log;
  std::map<std::string, MClaire> claires;
  std::map<std::string, std::string> builds;  // codename -> JSON.
  std::map<std::string, current::build::BuildInfo> builds_v;
  std::map<int, MServer> servers;
  std::map<std::string, int64_t> cache;
  std::vector<std::pair<bool, int64_t>> ups;  // (up, number of keepalives).
  std::vector<std::string> expected_events;
  size_t events_seen = 0;
  std::string trace;
  std::string callback_body;
  std::mutex callback_mutex;
  int callbacks = 0;

  explicit FleetCase(vh::Rng& r) : r(r) {}

  void Fail(const std::string& key, const std::string& d) { vh::Violation("karl:" + key, d + " | after:" + trace.substr(trace.size() > 900 ? trace.size() - 900 : 0)); }

  void SetTime(int64_t us) {
    try {
      current::time::SetNow(microseconds(us), microseconds(us + 1000 * kSec));
    } catch (const current::time::InconsistentSetNowException&) {
      // It is this second already, and a few calls to `Now()` later.
    }
  }

  void Start() {
    auto p = Params(karl_port, view_port, stream_file, storage_file);
    p.service_timeout_interval = timeout;
    with_notifiable = r.chance(80);
    karl = with_notifiable ? std::make_unique<karl_t>(p, static_cast<karl_t::karl_notifiable_t&>(notifiable)) : std::make_unique<karl_t>(p);
    ups.push_back({true, static_cast<int64_t>(log.size())});
    cache.clear();
    for (const auto& c : claires) {
      if (c.second.state == ClaireRegisteredState::Active) cache[c.first] = t;
    }
  }
  void Stop(bool graceful) {
    if (!graceful) {
      // As if the process ended here: the next one gets what was on the disk.
      const std::string s2 = stream_file + std::to_string(++files), d2 = storage_file + std::to_string(files);
      auto copy = [](const std::string& a, const std::string& b) {
        std::ifstream i(a, std::ios::binary);
        std::ofstream o(b, std::ios::binary);
        o << i.rdbuf();
      };
      copy(stream_file, s2);
      copy(storage_file, d2);
      karl = nullptr;
      ::unlink(stream_file.c_str());
      ::unlink(storage_file.c_str());
      stream_file = s2;
      storage_file = d2;
    } else {
      karl = nullptr;
      ups.push_back({false, -1});
    }
  }
  std::string Cn() { return std::string(1, 'A' + r.below(6)) + "NAME"; }

  void Keepalive() {
    const std::string codename = Cn();
    claire_status_t s;
    const int which = codename[0] - 'A';
    s.codename = codename;
    s.service = which % 2 ? "odd" : "even" + std::to_string(which);
    // The location is mostly the same, and of two services rarely.
    int ip = 1 + which % 3;
    uint16_t port = 5000 + which;
    if (r.chance(8)) ip = 1 + r.below(4);
    if (r.chance(5)) port = 5000 + r.below(6);
    bool confirm = r.chance(15);
    const bool bad_callback = confirm && r.chance(20);
    if (confirm) port = bad_callback ? 1 : callback_port;
    s.local_port = port;
    if (r.chance(20)) s.cloud_instance_name = "inst" + std::to_string(r.below(3));
    if (r.chance(20)) s.cloud_availability_group = "group" + std::to_string(r.below(3));
    for (uint64_t i = r.below(4); i; --i) {
      s.dependencies.push_back(Key(1 + r.below(4), r.chance(20) ? 99 : 5000 + r.below(6)));
    }
    s.reporting_to = Word(r);
    const int64_t skew = (static_cast<int64_t>(r.below(9)) - 4) * (r.chance(50) ? 40000 : kSec);
    s.now = microseconds(t - skew);
    s.start_time_epoch_microseconds = microseconds(t - 7 * kSec * (1 + which));
    s.uptime = "up" + std::to_string(r.below(100));
    bool has_ping = r.chance(50);
    const int64_t ping = 2 * static_cast<int64_t>(r.below(5)) * 10000;
    if (has_ping) s.last_successful_keepalive_ping_us = microseconds(ping);
    if (r.chance(40)) {
      current::build::BuildInfo b;
      b.build_user = "user" + std::to_string(r.below(3));
      if (r.chance(20)) b.git_commit_hash = nullptr;
      if (r.chance(20)) b.git_dirty_files = nullptr;
      else if (r.chance(30)) b.git_dirty_files = std::vector<std::string>{"f.cc"};
      s.build = b;
    }
    RandomRuntime(r, s);

    std::string json = JSON(s);
    int kind = r.below(100);
    int want = 200;
    std::string q;
    if (r.chance(80)) q += "codename=" + codename;
    if (r.chance(80) || confirm) q += (q.empty() ? "port=" : "&port=") + std::to_string(port);
    std::string shape = "full";
    if (kind < 12) {
      json = JSON<JSONFormat::Minimalistic>(s);
      shape = "minimalistic";
    } else if (kind < 20) {
      s.runtime = nullptr;
      json = JSON(s);
      const auto p = json.rfind("\"runtime\":null");
      if (p == std::string::npos) {
        Fail("no-runtime-field", json);
        return;
      }
      json = json.substr(0, p) + (r.chance(50) ? "\"runtime\":{\"Unheard\":{\"x\":1},\"\":\"T9200000000000000000\"}}" : "\"runtime\":42}");
      shape = "unknown-runtime";
    } else if (kind < 25) {
      q = "codename=WRONG" + (confirm ? "&port=" + std::to_string(port) : std::string());
      want = 400;
      shape = "wrong-codename";
    } else if (kind < 29 && !confirm) {
      q = "codename=" + codename + "&port=" + std::to_string(port + 1);
      want = 400;
      shape = "wrong-port";
    } else if (kind < 34) {
      const char* bad[] = {"", "{", "null", "42", "[]", "{\"service\":1}", "{\"service\":\"x\"}"};
      json = r.chance(40) ? json.substr(0, r.below(json.size())) : bad[r.below(7)];
      want = 400;
      shape = "garbage";
    }
    if (confirm) {
      std::lock_guard<std::mutex> l(callback_mutex);
      callback_body = json;
      q += "&confirm";
      shape += bad_callback ? "+bad-callback" : "+confirm";
      if (bad_callback) want = 400;
    }
    const int callbacks_before = callbacks;
    trace += " " + codename + "@" + std::to_string(ip) + ":" + std::to_string(port) + "(" + shape + ")";
    SetTime(t + kSec / 5);
    const int64_t at = t + kSec / 5;
    auto resp = Ask(ip, karl_port, confirm && r.chance(50) ? "GET" : "POST", "/?" + q, confirm ? (r.chance(50) ? std::string("ignored") : std::string()) : json);
    vh::Eval();
    vh::Count("keepalives " + shape);
    if (resp.code != want || (want == 200 && resp.body != "OK\n")) {
      Fail("keepalive-answer", shape + ": " + std::to_string(resp.code) + " instead of " + std::to_string(want) + ": " + resp.body + " for " + q + " " + json);
      return;
    }
    if (confirm && !bad_callback) {
      std::lock_guard<std::mutex> l(callback_mutex);
      if (callbacks != callbacks_before + 1) Fail("callback", "called back " + std::to_string(callbacks - callbacks_before) + " times");
    }
    if (want != 200) return;
    log.push_back({at, ip, port, s});
    auto& c = claires[codename];
    if (!c.located || c.state != ClaireRegisteredState::Active || c.ip != ip || c.port != port) c.reported = at;
    c.located = true;
    c.service = s.service;
    c.ip = ip;
    c.port = port;
    c.state = ClaireRegisteredState::Active;
    if (Exists(s.build)) {
      builds[codename] = JSON(Value(s.build));
      builds_v[codename] = Value(s.build);
    }
    if (Exists(s.cloud_instance_name)) {
      servers[ip].name = true;
      servers[ip].name_v = Value(s.cloud_instance_name);
    }
    if (Exists(s.cloud_availability_group)) {
      servers[ip].group = true;
      servers[ip].group_v = Value(s.cloud_availability_group);
    }
    if (has_ping) servers[ip].skew = at - s.now.count() - ping / 2;
    cache[codename] = at;
    expected_events.push_back("K" + codename + JSON(Key(ip, port)) + JSON(s));
  }

  std::string InfoJSON(const std::string& codename, int64_t reported) {
    auto& m = claires[codename];
    ClaireInfo i;
    i.codename = codename;
    if (m.located) {
      i.service = m.service;
      i.location = Key(m.ip, m.port);
      i.reported_timestamp = microseconds(reported);
      i.url_status_page_direct = "http://" + Ip(m.ip) + ":" + std::to_string(m.port) + "/.current";
    }
    i.registered_state = m.state;
    return JSON(i);
  }
  // The timestamp in what Karl says can be up to `kSlack` later than in the model.
  std::string Approx(const std::string& json, int64_t from, int64_t* was = nullptr) {
    const std::string k = "\"reported_timestamp\":";
    auto p = json.find(k);
    if (p == std::string::npos) return json;
    const int64_t v = atoll(json.c_str() + p + k.size());
    if (v < from || v >= from + kSlack) return json;
    auto e = p + k.size();
    while (e < json.size() && isdigit(json[e])) ++e;
    return json.substr(0, p + k.size()) + std::to_string(from) + json.substr(e);
  }

  void Deregister() {
    const bool without = r.chance(8);
    const std::string codename = Cn();
    trace += without ? " D()" : " D(" + codename + ")";
    SetTime(t + kSec / 5);
    auto resp = Ask(1 + r.below(3), karl_port, "DELETE", without ? "/" : "/?codename=" + codename);
    vh::Eval();
    vh::Count("deregistrations");
    if (resp.code != 200 || resp.body != (without ? "NOP\n" : "OK\n")) Fail("deregister-answer", std::to_string(resp.code) + resp.body);
    if (without) return;
    expected_events.push_back("D" + codename + (claires.count(codename) ? InfoJSON(codename, claires[codename].reported) : "none"));
    claires[codename].state = ClaireRegisteredState::Deregistered;
    cache.erase(codename);
  }
  void OtherMethod() {
    const char* m[] = {"PUT", "PATCH", "HEAD"};
    auto resp = Ask(1, karl_port, m[r.below(2)], "/?codename=" + Cn(), "x");
    if (resp.code != 405) Fail("method-answer", std::to_string(resp.code));
  }

  // Lets the time pass, and expects the services which are silent for long enough to be timed out.
  void Pass() {
    static const int64_t kSteps[] = {1, 1, 2, 3, 5, 10, 20, 44, 46, 100, 400};
    const int64_t step = kSteps[r.below(11)];
    t += step * kSec;
    trace += " +" + std::to_string(step) + "s";
    SetTime(t + 3 * kSec / 5);
    std::vector<std::string> timed_out;
    for (auto& c : cache) {
      if (t + 3 * kSec / 5 - c.second > timeout.count()) timed_out.push_back(c.first);
    }
    std::vector<std::string> ev;
    for (auto& c : timed_out) {
      ev.push_back("T" + c + InfoJSON(c, claires[c].reported));
      claires[c].state = ClaireRegisteredState::DisconnectedByTimeout;
      cache.erase(c);
      vh::Count("timeouts");
    }
    if (!timed_out.empty()) {
      // The state thread looks at the clock every 50 milliseconds.
      const bool ok = Eventually([&] {
        bool all = true;
        karl->BorrowStorage()->ReadOnlyTransaction([&](current::storage::ImmutableFields<karl_t::storage_t> f) {
          for (auto& c : timed_out) {
            auto x = f.claires[c];
            if (!Exists(x) || Value(x).registered_state != ClaireRegisteredState::DisconnectedByTimeout) all = false;
          }
        }).Wait();
        return all;
      });
      if (!ok) Fail("not-timed-out", "among " + std::to_string(timed_out.size()) + ": " + timed_out[0]);
      std::sort(ev.begin(), ev.end());
      if (with_notifiable) {
        std::lock_guard<std::mutex> l(notifiable.m);
        // Of those timed out at once the order is not specified.
        const size_t at = events_seen + expected_events.size();
        if (notifiable.events.size() >= at + ev.size()) {
          std::sort(notifiable.events.begin() + at, notifiable.events.begin() + at + ev.size(),
                    [](const Event& a, const Event& b) { return a.codename < b.codename; });
        }
      }
      for (auto& e : ev) expected_events.push_back(e);
    }
    t += kSec;
  }

  void CheckEvents() {
    if (with_notifiable) {
      std::lock_guard<std::mutex> l(notifiable.m);
      for (size_t i = 0; i < expected_events.size(); ++i) {
        if (events_seen + i >= notifiable.events.size()) {
          Fail("event-missing", expected_events[i]);
          break;
        }
        auto& e = notifiable.events[events_seen + i];
        std::string got = std::string(1, e.kind) + e.codename + e.what;
        const std::string k = "\"reported_timestamp\":";
        auto p = expected_events[i].find(k);
        if (e.kind != 'K' && p != std::string::npos) got = Approx(got, atoll(expected_events[i].c_str() + p + k.size()));
        if (got != expected_events[i]) {
          Fail("event", "expected " + expected_events[i] + ", got " + got);
          break;
        }
        vh::Count("callbacks");
      }
      if (notifiable.events.size() > events_seen + expected_events.size()) {
        auto& e = notifiable.events[events_seen + expected_events.size()];
        Fail("event-extra", std::string(1, e.kind) + e.codename + e.what);
      }
      events_seen = notifiable.events.size();
    }
    expected_events.clear();
  }

  void CheckStorage() {
    if (!Eventually([&] { return karl->ActiveServicesCount() == cache.size(); })) {
      Fail("active-count", std::to_string(karl->ActiveServicesCount()) + " instead of " + std::to_string(cache.size()));
    }
    karl->BorrowStorage()->ReadOnlyTransaction([&](current::storage::ImmutableFields<karl_t::storage_t> f) {
      if (f.claires.Size() != claires.size()) Fail("claires-size", std::to_string(f.claires.Size()) + " vs " + std::to_string(claires.size()));
      for (auto& c : claires) {
        auto x = f.claires[c.first];
        if (!Exists(x)) {
          Fail("claire-missing", c.first);
          continue;
        }
        ClaireInfo i = Value(x);
        const std::string want = InfoJSON(c.first, c.second.reported), got = Approx(JSON(i), c.second.reported);
        if (want != got) Fail("claire-info", "expected " + want + ", got " + got);
      }
      if (f.builds.Size() != builds.size()) Fail("builds-size", std::to_string(f.builds.Size()) + " vs " + std::to_string(builds.size()));
      for (auto& b : builds) {
        auto x = f.builds[b.first];
        if (!Exists(x) || JSON(Value(x).build) != b.second) Fail("build", b.first);
      }
      for (auto& s : servers) {
        auto x = f.servers[Ip(s.first)];
        if (!Exists(x)) {
          if (s.second.name || s.second.group || std::abs(s.second.skew) >= 50000) Fail("server-missing", Ip(s.first));
          continue;
        }
        const ServerInfo i = Value(x);
        if (Exists(i.cloud_instance_name) != s.second.name || (s.second.name && Value(i.cloud_instance_name) != s.second.name_v) ||
            Exists(i.cloud_availability_group) != s.second.group || (s.second.group && Value(i.cloud_availability_group) != s.second.group_v)) {
          Fail("server-info", JSON(i));
        }
        if (std::abs(i.behind_this_by.count() - s.second.skew) >= 50000 + kSlack) {
          Fail("server-skew", JSON(i) + " vs " + std::to_string(s.second.skew));
        }
      }
      std::vector<std::pair<bool, int64_t>> got;
      for (const auto& k : f.karl) {
        got.push_back({k.up, k.up ? (Exists(k.persisted_keepalives_info) ? static_cast<int64_t>(Value(k.persisted_keepalives_info).index) + 1 : 0) : -1});
      }
      if (got != ups) Fail("karl-launches", std::to_string(got.size()) + " vs " + std::to_string(ups.size()));
    }).Wait();
    vh::Eval();
  }

  void CheckView() {
    const int64_t now = t + 3 * kSec / 5;
    SetTime(now);
    std::string q = "?full";
    int64_t from = now - 300 * kSec, to = now + kSlack;
    switch (r.below(7)) {
      case 0: break;
      case 1: from = 0; q += "&from=0"; break;
      case 2: {
        from = now - static_cast<int64_t>(r.below(200)) * kSec;
        q += "&from=" + std::to_string(from);
        break;
      }
      case 3: {
        const int m = 1 + r.below(9);
        from = now - m * 60 * kSec;
        q += "&m=" + std::to_string(m);
        break;
      }
      case 4: from = now - 3600 * kSec / 2; q += "&h=0.5"; break;
      case 5: from = now - 86400 * kSec; q += "&d=1"; break;
      case 6: from = now - 600 * kSec; q += "&from=" + std::to_string(from); break;
    }
    const bool explicit_from = q.find("from=") != std::string::npos;
    if (r.chance(40)) {
      const int64_t len = static_cast<int64_t>(r.below((now - from) / kSec + 1)) * kSec;
      to = from + len;
      if (explicit_from && r.chance(50)) {
        q += "&to=" + std::to_string(to);
      } else {
        q += "&interval_us=" + std::to_string(len);
      }
    }
    const bool active_only = r.chance(40);
    if (active_only) q += "&active_only";
    trace += " V(" + q + ")";
    auto resp = Ask(1, view_port, "GET", "/" + q);
    karl_status_t got;
    try {
      got = ParseJSON<karl_status_t>(resp.body);
    } catch (const current::Exception& e) {
      Fail("view", std::to_string(resp.code) + ": " + resp.body.substr(0, 300));
      return;
    }
    vh::Eval();
    vh::Count("views");
    if (got.now.count() < now || got.now.count() >= now + kSlack) Fail("view-now", JSON(got));
    // The model's version.
    std::map<std::string, const Sent*> latest;
    std::map<ClaireServiceKey, std::string> by_location;
    for (const auto& s : log) {
      if (s.at >= from && s.at < to) {
        latest[s.status.codename] = &s;
        by_location[Key(s.ip, s.port)] = s.status.codename;
      }
    }
    std::map<std::string, std::map<std::string, const Sent*>> machines;
    for (auto& l : latest) {
      auto& c = claires[l.first];
      if (active_only && c.state != ClaireRegisteredState::Active) continue;
      machines[Ip(c.ip)][l.first] = l.second;
    }
    std::string sig = q;
    if (machines.size() != got.machines.size()) Fail("view-machines", std::to_string(got.machines.size()) + " instead of " + std::to_string(machines.size()));
    for (auto& m : machines) {
      auto gm = got.machines.find(m.first);
      if (gm == got.machines.end()) {
        Fail("view-no-machine", m.first);
        continue;
      }
      auto& ms = servers[atoi(m.first.c_str() + 8)];
      const auto& g = gm->second;
      if (Exists(g.cloud_instance_name) != ms.name || (ms.name && Value(g.cloud_instance_name) != ms.name_v) ||
          Exists(g.cloud_availability_group) != ms.group || (ms.group && Value(g.cloud_availability_group) != ms.group_v)) {
        Fail("view-server", JSON(g));
      }
      if (g.services.size() != m.second.size()) Fail("view-services", m.first + ": " + std::to_string(g.services.size()) + " instead of " + std::to_string(m.second.size()));
      for (auto& s : m.second) {
        sig += s.first + std::to_string(now - s.second->at) + ",";
        auto gs = g.services.find(s.first);
        if (gs == g.services.end()) {
          Fail("view-no-service", s.first);
          continue;
        }
        const auto& b = gs->second;
        auto bad = [&](const std::string& what) { Fail("view-" + what, s.first + ": " + JSON(b) + " for " + JSON(s.second->status)); };
        if (b.service != s.second->status.service || b.codename != s.first) bad("names");
        const bool up = now - s.second->at < timeout.count();
        int64_t seen = 0;
        microseconds started(0);
        std::string ago, uptime;
        if (Exists<current_service_state::up>(b.currently) != up) {
          bad("up-down");
          continue;
        }
        if (up) {
          const auto& u = Value<current_service_state::up>(b.currently);
          seen = u.last_keepalive_received_epoch_microseconds.count();
          started = u.start_time_epoch_microseconds;
          ago = u.last_keepalive_received;
          uptime = u.uptime;
        } else {
          const auto& d = Value<current_service_state::down>(b.currently);
          seen = d.last_keepalive_received_epoch_microseconds.count();
          started = d.start_time_epoch_microseconds;
          ago = d.last_keepalive_received;
          uptime = d.last_confirmed_uptime;
        }
        if (seen < s.second->at || seen >= s.second->at + kSlack) bad("last-keepalive");
        if (started != s.second->status.start_time_epoch_microseconds) bad("started");
        auto human = [](int64_t us) {
          const int64_t sec = us / kSec;
          char buf[100];
          if (sec < 60) snprintf(buf, 100, "%ds", int(sec));
          else if (sec < 3600) snprintf(buf, 100, "%dm %ds", int(sec / 60), int(sec % 60));
          else if (sec < 86400) snprintf(buf, 100, "%dh %dm %ds", int(sec / 3600), int(sec / 60 % 60), int(sec % 60));
          else snprintf(buf, 100, "%dd %dh %dm %ds", int(sec / 86400), int(sec / 3600 % 24), int(sec / 60 % 60), int(sec % 60));
          return std::string(buf);
        };
        if (ago != human(got.now.count() - seen) + " ago") bad("ago");
        const auto& st = s.second->status;
        const int64_t projected = (st.now - st.start_time_epoch_microseconds).count() + got.now.count() - seen;
        if (up ? (projected >= 0 && uptime != human(projected)) : uptime != st.uptime) bad("uptime");
        auto& c = claires[s.first];
        if (b.location != Key(c.ip, c.port)) bad("location");
        if (b.url_status_page_direct != "http://" + Ip(c.ip) + ":" + std::to_string(c.port) + "/.current") bad("url");
        std::vector<std::string> deps, unresolved;
        for (auto& d : st.dependencies) {
          auto i = by_location.find(d);
          if (i != by_location.end()) deps.push_back(i->second);
          else unresolved.push_back("http://" + d.ip + ":" + std::to_string(d.port) + "/.current");
        }
        if (b.dependencies != deps || b.unresolved_dependencies != unresolved) bad("dependencies");
        if (JSON(b.runtime) != JSON(st.runtime)) bad("runtime");
        auto bi = builds_v.find(s.first);
        if (bi == builds_v.end()) {
          if (!b.build_time.empty() || Exists(b.git_commit) || Exists(b.git_branch)) bad("no-build");
        } else {
          const auto& x = bi->second;
          if (b.build_time != x.build_time || b.build_time_epoch_microseconds != x.build_time_epoch_microseconds ||
              JSON(b.git_commit) != JSON(x.git_commit_hash) || JSON(b.git_branch) != JSON(x.git_branch) || !Exists(b.git_dirty) ||
              Value(b.git_dirty) != (Exists(x.git_dirty_files) && !Value(x.git_dirty_files).empty())) {
            bad("build");
          }
        }
        vh::Count("services viewed");
      }
    }
    vh::Distinct(vh::hash_str(sig));
  }

  void CheckByName() {
    const int64_t now = t + 3 * kSec / 5;
    SetTime(now);
    const std::string codename = r.chance(10) ? "NOBODY" : Cn();
    {
      auto resp = Ask(2, view_port, "GET", "/build/" + codename);
      if (builds.count(codename)) {
        ClaireBuildInfo b;
        b.codename = codename;
        b.build = builds_v[codename];
        if (resp.code != 200 || resp.body.find(builds[codename]) == std::string::npos || resp.body.find("\"" + codename + "\"") == std::string::npos) {
          Fail("build-answer", resp.body);
        }
      } else if (resp.code != 404) {
        Fail("build-answer", std::to_string(resp.code) + resp.body);
      }
    }
    {
      const bool nobuild = r.chance(50);
      trace += " S(" + codename + ")";
      auto resp = Ask(2, view_port, "GET", "/snapshot/" + codename + (nobuild ? "?nobuild" : ""));
      const Sent* last = nullptr;
      for (auto& s : log) {
        if (s.status.codename == codename) last = &s;
      }
      vh::Count(last ? "snapshots" : "snapshots of nothing");
      if (!last) {
        if (resp.code != 404) Fail("snapshot-of-nothing", std::to_string(resp.code) + resp.body);
      } else {
        auto x = last->status;
        if (nobuild) x.build = nullptr;
        const std::string want = JSON<JSONFormat::Minimalistic>(SnapshotOfKeepalive<runtime_t>(microseconds(last->at + kSec / 100 - now), x));
        if (resp.code != 200 || resp.body != want) Fail("snapshot", "expected " + want + ", got " + std::to_string(resp.code) + " " + resp.body);
      }
      vh::Eval();
    }
    if (r.chance(10)) {
      auto resp = Ask(2, view_port, "GET", "/status");
      if (resp.code != 200 || resp.body != "{\"up\":true}\n") Fail("status", resp.body);
    }
  }

  void Run(uint16_t a, uint16_t b, uint16_t c) {
    karl_port = a;
    view_port = b;
    callback_port = c;
    current::time::ResetToZero();
    t = 1600000000ll * kSec;
    SetTime(t);
    stream_file = vh::opt().scratch + "/stream";
    storage_file = vh::opt().scratch + "/storage";
    auto scope = HTTP(current::net::BarePort(callback_port)).Register("/.current", std::function<void(Request)>([this](Request q) {
      std::string body;
      {
        std::lock_guard<std::mutex> l(callback_mutex);
        body = callback_body;
        if (q.url.query.has("all")) ++callbacks;
      }
      q(body);
    }));
    Start();
    const int steps = 20 + r.below(50);
    for (int i = 0; i < steps && !vh::TooMany(); ++i) {
      const int what = r.below(100);
      if (what < 50) Keepalive();
      else if (what < 57) Deregister();
      else if (what < 58) OtherMethod();
      else if (what < 70) Pass();
      else if (what < 82) CheckView();
      else if (what < 92) CheckByName();
      else if (what < 97) CheckStorage();
      else {
        CheckEvents();
        const bool graceful = r.chance(60);
        CheckStorage();
        t += kSec;
        trace += graceful ? " restart" : " crash";
        SetTime(t + 3 * kSec / 5);
        Stop(graceful);
        SetTime(t + 7 * kSec / 10);
        Start();
        for (auto& x : cache) x.second = t + 7 * kSec / 10;
        {
          std::lock_guard<std::mutex> l(notifiable.m);
          events_seen = notifiable.events.size();
        }
        vh::Count(graceful ? "restarts" : "restarts from the files as they were");
      }
      t += kSec;
      // No timeouts unless expected: the time has moved by a second.
      SetTime(t);
      {
        bool due = false;
        for (auto& x : cache) {
          if (t + kSec - x.second > timeout.count()) due = true;
        }
        if (due) Pass();
      }
      CheckEvents();
    }
    CheckStorage();
    CheckView();
    CheckByName();
    Stop(true);
    ::unlink(stream_file.c_str());
    ::unlink(storage_file.c_str());
    vh::Sample(trace);
  }
};
#endif  // PARTS & 1

#if PARTS & 2
#include "h_karl_live.inc"
#endif

int main(int argc, char** argv) {
  return vh::Main(argc, argv, [] {
    auto& o = vh::opt();
    vh::Rng seed(o.seed * 1000003 + o.shard * 7919 + vh::hash_str(o.mode));
    const uint16_t a = NewPort(), b = NewPort(), c = NewPort();
#if PARTS & 2
    live::Init();
#endif
    for (uint64_t i = 0; i < o.cases && !vh::TooMany(); ++i) {
      vh::Rng r(seed.next());
      vh::CaseDurable("case " + std::to_string(i));
#if PARTS & 1
      if (o.mode == "fleet") FleetCase(r).Run(a, b, c);
#endif
#if PARTS & 2
      if (o.mode == "live") live::Case(r, a, b);
      if (o.mode == "late") live::Late(r, a, b);
#endif
      vh::Count("cases");
    }
  });
}
