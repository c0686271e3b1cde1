// Included from h_karl.cc: Karl and Claires in real time, used from several threads.
namespace live {
using claire_t = GenericClaire<runtime_t>;
std::vector<uint16_t> ports;
uint16_t karl2_a, karl2_b, dead_port;
void Init() {
  for (int i = 0; i < 4; ++i) ports.push_back(NewPort());
  karl2_a = NewPort();
  karl2_b = NewPort();
  dead_port = NewPort();
}
struct Files {
  std::string a, b;
  explicit Files(const std::string& name) : a(vh::opt().scratch + "/" + name + "_stream"), b(vh::opt().scratch + "/" + name + "_storage") { Rm(); }
  ~Files() { Rm(); }
  void Rm() {
    ::unlink(a.c_str());
    ::unlink(b.c_str());
  }
};
inline std::string Body(const std::string& codename, uint16_t port, int64_t n) {
  claire_status_t s;
  s.service = "service" + codename;
  s.codename = codename;
  s.local_port = port;
  s.now = current::time::Now();
  s.start_time_epoch_microseconds = s.now;
  own::counter c;
  c.n = n;
  s.runtime = runtime_t(c);
  return JSON(s);
}
inline bool State(karl_t& k, const std::string& codename, ClaireRegisteredState* out, ClaireInfo* info = nullptr) {
  bool found = false;
  k.BorrowStorage()->ReadOnlyTransaction([&](current::storage::ImmutableFields<karl_t::storage_t> f) {
    auto x = f.claires[codename];
    if (Exists(x)) {
      found = true;
      *out = Value(x).registered_state;
      if (info) *info = Value(x);
    }
  }).Wait();
  return found;
}
inline int64_t SnapshotN(const std::string& body) {
  auto p = body.find("\"n\":");
  return p == std::string::npos ? -1 : atoll(body.c_str() + p + 4);
}

// A silent service is timed out when its time comes, not before that, and not because of others much later.
inline void Late(vh::Rng& r, uint16_t a, uint16_t b) {
  using clk = std::chrono::steady_clock;
  Files f("late");
  const int timeout_ms = 700 + r.below(500);
  const bool restarted = r.chance(40);
  auto params = Params(a, b, f.a, f.b);
  params.service_timeout_interval = microseconds(timeout_ms * 1000);
  int64_t best = 1000000;
  int attempts = 0;
  for (; attempts < 6; ++attempts) {
    Notifiable n;
    clk::time_point since, not_before;
    auto karl = std::make_unique<karl_t>(params, static_cast<karl_t::karl_notifiable_t&>(n));
    const int before = r.below(timeout_ms / 3);
    if (!restarted) {
      Ask(1, a, "POST", "/?codename=LOUD&port=7001", Body("LOUD", 7001, 1));
      ::usleep(before * 1000);
    }
    not_before = clk::now();
    Ask(1, a, "POST", "/?codename=SILENT&port=7002", Body("SILENT", 7002, 1));
    since = clk::now();
    if (restarted) {
      karl = nullptr;
      not_before = clk::now();
      karl = std::make_unique<karl_t>(params, static_cast<karl_t::karl_notifiable_t&>(n));
      since = clk::now();
    } else {
      ::usleep((timeout_ms - before / 2) * 1000 - 60000);
      if (r.chance(70)) Ask(1, a, "POST", "/?codename=NEW&port=7003", Body("NEW", 7003, 1));
      Ask(1, a, "POST", "/?codename=LOUD&port=7001", Body("LOUD", 7001, 2));
    }
    clk::time_point when;
    const bool ok = Eventually([&] {
      std::lock_guard<std::mutex> l(n.m);
      for (auto& e : n.events) {
        if (e.kind == 'T' && e.codename == "SILENT") {
          when = e.when;
          return true;
        }
      }
      return false;
    });
    vh::Eval();
    if (!ok) {
      vh::Violation("karl:live-never-timed-out", restarted ? "after a restart" : "");
      return;
    }
    const int64_t ms = std::chrono::duration_cast<std::chrono::milliseconds>(when - since).count();
    if (when - not_before < std::chrono::milliseconds(timeout_ms - 30)) {
      vh::Violation("karl:live-timed-out-early", std::to_string(ms) + " of " + std::to_string(timeout_ms));
    }
    best = std::min(best, ms - timeout_ms);
    ClaireRegisteredState s;
    if (!Eventually([&] { return State(*karl, "SILENT", &s) && s == ClaireRegisteredState::DisconnectedByTimeout; })) {
      vh::Violation("karl:live-timeout-state", "");
    }
    {
      std::lock_guard<std::mutex> l(n.m);
      int times = 0;
      for (auto& e : n.events) times += e.kind == 'T' && e.codename == "SILENT";
      if (times != 1) vh::Violation("karl:live-timeout-times", std::to_string(times));
    }
    vh::Distinct(vh::hash_mix(vh::hash_mix(before, timeout_ms), ms));
    if (best < timeout_ms / 2) break;
  }
  vh::Count("timeouts timed");
  if (best >= timeout_ms / 2) {
    vh::Violation("karl:live-timed-out-late", "the timeout is " + std::to_string(timeout_ms) + " ms, and the best of " + std::to_string(attempts) + " is " + std::to_string(best) + " ms late");
  }
}

inline void Raw(vh::Rng& r, uint16_t a, uint16_t b) {
  Files f("raw");
  Notifiable n;
  auto params = Params(a, b, f.a, f.b);
  karl_t karl(params, static_cast<karl_t::karl_notifiable_t&>(n));
  const int services = 2 + r.below(3), each = 8 + r.below(20);
  std::vector<std::unique_ptr<std::atomic<int64_t>>> sent, acked;
  for (int i = 0; i < services; ++i) {
    sent.push_back(std::make_unique<std::atomic<int64_t>>(0));
    acked.push_back(std::make_unique<std::atomic<int64_t>>(0));
  }
  std::vector<ClaireRegisteredState> last(services, ClaireRegisteredState::Active);
  std::atomic<int> keepalives{0}, deregistrations{0}, running{services};
  std::vector<std::thread> threads;
  for (int i = 0; i < services; ++i) {
    threads.emplace_back([&, i, rr = r.fork()]() mutable {
      const std::string codename = "S" + std::to_string(i);
      for (int64_t k = 1; k <= each; ++k) {
        *sent[i] = k;
        auto x = Ask(1 + i, a, "POST", "/?codename=" + codename, Body(codename, 6000 + i, k));
        if (x.code != 200) vh::Violation("karl:live-keepalive", std::to_string(x.code) + x.body);
        *acked[i] = k;
        ++keepalives;
        last[i] = ClaireRegisteredState::Active;
        if (rr.chance(10)) {
          x = Ask(1 + i, a, "DELETE", "/?codename=" + codename);
          if (x.code != 200) vh::Violation("karl:live-deregister", std::to_string(x.code) + x.body);
          ++deregistrations;
          last[i] = ClaireRegisteredState::Deregistered;
        }
      }
      --running;
    });
  }
  for (int v = 0; v < 2; ++v) {
    threads.emplace_back([&, rr = r.fork()]() mutable {
      while (running) {
        const int i = rr.below(services + 1);
        const std::string codename = "S" + std::to_string(i);
        if (rr.chance(60)) {
          const int64_t lo = i < services ? acked[i]->load() : 0;
          auto x = Ask(1, b, "GET", "/snapshot/" + codename);
          const int64_t hi = i < services ? sent[i]->load() : 0;
          const int64_t got = x.code == 404 ? 0 : SnapshotN(x.body);
          if (got < lo || got > hi || (got && x.body.find("\"" + codename + "\"") == std::string::npos)) {
            vh::Violation("karl:live-snapshot", codename + ": " + std::to_string(got) + " not within " + std::to_string(lo) + ".." + std::to_string(hi) + ": " + x.body);
          }
          vh::Count("snapshots");
        } else {
          std::vector<int64_t> lo;
          for (auto& q : acked) lo.push_back(*q);
          auto x = Ask(1, b, "GET", "/?full");
          karl_status_t s;
          try {
            s = ParseJSON<karl_status_t>(x.body);
          } catch (const current::Exception&) {
            vh::Violation("karl:live-view", x.body);
            continue;
          }
          for (int j = 0; j < services; ++j) {
            const int64_t hi = *sent[j];
            auto m = s.machines.find(Ip(1 + j));
            int64_t got = 0;
            if (m != s.machines.end()) {
              auto y = m->second.services.find("S" + std::to_string(j));
              if (y != m->second.services.end() && Exists(y->second.runtime)) got = Value<own::counter>(Value(y->second.runtime)).n;
            }
            // The very first keepalive can be in the stream of keepalives, and not yet in the storage.
            if ((got < lo[j] || got > hi) && !(got == 0 && lo[j] == 0)) {
              vh::Violation("karl:live-view-stale", std::to_string(got) + " not within " + std::to_string(lo[j]) + ".." + std::to_string(hi));
            }
          }
          vh::Count("views");
        }
        karl.ActiveServicesCount();
        karl.LocalIPs();
        vh::Eval();
      }
    });
  }
  for (auto& t : threads) t.join();
  size_t active = 0;
  for (int i = 0; i < services; ++i) {
    ClaireRegisteredState s;
    if (!State(karl, "S" + std::to_string(i), &s) || s != last[i]) vh::Violation("karl:live-state", "");
    active += last[i] == ClaireRegisteredState::Active;
  }
  if (!Eventually([&] { return karl.ActiveServicesCount() == active; })) vh::Violation("karl:live-active", std::to_string(karl.ActiveServicesCount()));
  std::lock_guard<std::mutex> l(n.m);
  int k = 0, d = 0, t = 0;
  uint64_t h = 0;
  std::map<std::string, int64_t> seq;
  for (auto& e : n.events) {
    (e.kind == 'K' ? k : e.kind == 'D' ? d : t)++;
    h = vh::hash_str(e.codename + e.kind, h);
    if (e.kind == 'K') {
      const int64_t x = SnapshotN(e.what);
      if (x != seq[e.codename] + 1) vh::Violation("karl:live-callback-order", e.codename);
      seq[e.codename] = x;
    }
  }
  if (k != keepalives || d != deregistrations || t) {
    vh::Violation("karl:live-callbacks", std::to_string(k) + "/" + std::to_string(keepalives) + " " + std::to_string(d) + "/" + std::to_string(deregistrations) + " " + std::to_string(t));
  }
  vh::Distinct(h);
}

struct ClaireNote : IClaireNotifiable {
  std::mutex m;
  std::vector<std::string> to;
  void OnKarlLocatorChanged(const Locator& l) override {
    std::lock_guard<std::mutex> lock(m);
    to.push_back(l.address_port_route);
  }
};

inline void Claires(vh::Rng& r, uint16_t a, uint16_t b) {
  Files f1("one"), f2("two");
  Notifiable n1, n2;
  karl_t karl1(Params(a, b, f1.a, f1.b), static_cast<karl_t::karl_notifiable_t&>(n1));
  karl_t karl2(Params(karl2_a, karl2_b, f2.a, f2.b), static_cast<karl_t::karl_notifiable_t&>(n2));
  const std::string url[2] = {"http://127.0.0.1:" + std::to_string(a) + "/", "http://127.0.0.1:" + std::to_string(karl2_a) + "/"};
  karl_t* karls[2] = {&karl1, &karl2};
  const uint16_t views[2] = {b, karl2_b};
  std::vector<std::thread> threads;
  const int count = 1 + r.below(3);
  for (int i = 0; i < count; ++i) {
    threads.emplace_back([&, i, rr = r.fork()]() mutable {
      const uint16_t port = ports[i];
      ClaireNote note;
      int at = rr.below(2);
      std::set<ClaireServiceKey> deps;
      std::atomic<int64_t> ticks{0};
      std::string codename, trace;
      bool registered = false, started = false;
      size_t moves = 0;
      std::atomic<bool> stop{false};
      std::vector<std::thread> readers;
      {
        const std::string dead = "http://127.0.0.1:" + std::to_string(dead_port) + "/nobody";
        const bool begin_dead = rr.chance(20);
        claire_t claire(Locator(begin_dead ? dead : url[at]), "claire" + std::to_string(i), port, note);
        codename = claire.Codename();
        auto status = [&ticks]() -> runtime_t {
          own::counter c;
          c.n = ++ticks;
          return runtime_t(c);
        };
        if (begin_dead) {
          bool threw = false;
          try {
            claire.Register(status, true);
          } catch (const ClaireRegistrationException&) {
            threw = true;
          }
          if (!threw) vh::Violation("claire:confirmed-by-nobody", "");
          if (rr.chance(50)) {
            claire.SetKarlLocator(Locator(url[at]), rr.chance(50) ? ForceSendKeepaliveWaitRequest::Wait : ForceSendKeepaliveWaitRequest::DoNotWait);
            started = true;
            ++moves;
          } else {
            claire.SetKarlLocator(Locator(url[at]));
            started = true;
            ++moves;
          }
          vh::Count("registrations which fail");
        } else if (rr.chance(20)) {
          claire.ForceSendKeepalive(rr.chance(50) ? ForceSendKeepaliveWaitRequest::Wait : ForceSendKeepaliveWaitRequest::DoNotWait);
          started = true;
        }
        for (int k = 0; k < 2; ++k) {
          readers.emplace_back([&, rrr = rr.fork()]() mutable {
            while (!stop) {
              const char* kQ[] = {"", "?all", "?build", "?runtime", "?a", "?r"};
              const int which = rrr.below(6);
              auto x = Ask(1, port, "GET", std::string("/.current") + kQ[which]);
              if (which == 2) {
                if (x.body.find("build_user") == std::string::npos) vh::Violation("claire:build", x.body);
              } else if (which == 3 || which == 5) {
                if (x.code != 503 && SnapshotN(x.body) <= 0) vh::Violation("claire:runtime", x.body);
              } else {
                try {
                  const auto s = ParseJSON<claire_status_t>(x.body);
                  if (s.codename != codename || s.local_port != port || Exists(s.build) != (which == 1 || which == 4)) vh::Violation("claire:status", x.body);
                } catch (const current::Exception&) {
                  vh::Violation("claire:status", x.body);
                }
              }
              vh::Count("requests to claires");
              ::usleep(rrr.below(3000));
            }
          });
        }
        const int steps = 3 + rr.below(10);
        for (int step = 0; step < steps; ++step) {
          switch (rr.below(9)) {
            case 0: {
              ClaireServiceKey k = Key(1 + rr.below(3), 5000 + rr.below(4));
              claire.AddDependency(k);
              deps.insert(k);
              trace += " +";
              break;
            }
            case 1: {
              ClaireServiceKey k = Key(1 + rr.below(3), 5000 + rr.below(4));
              if (!deps.empty() && rr.chance(60)) k = *deps.begin();
              if (rr.chance(50)) claire.RemoveDependency(k);
              else claire.RemoveDependency("http://" + k.ip + ":" + std::to_string(k.port) + "/");
              deps.erase(k);
              trace += " -";
              break;
            }
            case 2: {
              std::vector<std::string> v;
              deps.clear();
              for (uint64_t j = rr.below(3); j; --j) {
                const int ip = 1 + rr.below(3), p = 5000 + rr.below(4);
                v.push_back("http://" + Ip(ip) + ":" + std::to_string(p) + "/");
                deps.insert(Key(ip, p));
              }
              claire.SetDependencies(v);
              trace += " =";
              break;
            }
            case 3:
              if (!registered) {
                const bool confirm = rr.chance(60);
                try {
                  claire.Register(status, confirm);
                  registered = started = true;
                } catch (const ClaireRegistrationException& e) {
                  vh::Violation("claire:not-confirmed", e.DetailedDescription());
                }
                if (confirm) {
                  ClaireRegisteredState s;
                  ClaireInfo info;
                  if (!State(*karls[at], codename, &s, &info) || s != ClaireRegisteredState::Active || info.location != Key(1, port)) {
                    vh::Violation("claire:confirmed-yet-unknown", JSON(info));
                  }
                }
                vh::Count(confirm ? "confirmed registrations" : "registrations");
                trace += " R";
              } else {
                claire.Register(nullptr, false);  // Does nothing.
                trace += " r";
              }
              break;
            case 4: {
              if (rr.chance(50)) at = 1 - at;
              const bool wait = rr.chance(50);
              if (rr.chance(50)) {
                claire.SetKarlLocator(Locator(url[at]), wait ? ForceSendKeepaliveWaitRequest::Wait : ForceSendKeepaliveWaitRequest::DoNotWait);
              } else {
                auto x = Ask(1, port, "POST", "/.current?report_to=" + url[at]);
                if (x.code != 200) vh::Violation("claire:report-to", std::to_string(x.code) + x.body);
              }
              ++moves;
              started = true;
              if (claire.GetKarlLocator().address_port_route != url[at]) vh::Violation("claire:locator", claire.GetKarlLocator().address_port_route);
              trace += " to" + std::to_string(at);
              break;
            }
            case 5: {
              auto x = Ask(1, port, "POST", std::string("/.current?initiate_keepalive") + (rr.chance(50) ? "=wait" : ""));
              if (x.code != 200) vh::Violation("claire:initiate", std::to_string(x.code));
              started = true;
              trace += " i";
              break;
            }
            default: {
              const int64_t before = ticks;
              claire.ForceSendKeepalive(ForceSendKeepaliveWaitRequest::Wait);
              started = true;
              // What Karl knows by now can not be older than this call.
              auto x = Ask(1, views[at], "GET", "/snapshot/" + codename);
              if (x.code != 200) {
                vh::Violation("claire:sent-yet-unknown", std::to_string(x.code) + x.body + trace);
                break;
              }
              if (registered && SnapshotN(x.body) <= before) {
                vh::Violation("claire:sent-stale", std::to_string(SnapshotN(x.body)) + " <= " + std::to_string(before) + trace);
              }
              std::string want = JSON(std::vector<ClaireServiceKey>(deps.begin(), deps.end()));
              if (x.body.find("\"dependencies\":" + want) == std::string::npos) vh::Violation("claire:dependencies", want + " vs " + x.body + trace);
              if (x.body.find("\"reporting_to\":\"" + url[at] + "\"") == std::string::npos) vh::Violation("claire:reporting-to", x.body);
              vh::Count("keepalives waited for");
              trace += " w";
              break;
            }
          }
          vh::Eval();
        }
        stop = true;
        for (auto& t : readers) t.join();
        std::lock_guard<std::mutex> l(note.m);
        if (note.to.size() != moves) vh::Violation("claire:locator-callbacks", std::to_string(note.to.size()) + " vs " + std::to_string(moves));
      }
      if (started) {
        ClaireRegisteredState s = ClaireRegisteredState::Active;
        if (!State(*karls[at], codename, &s) || s != ClaireRegisteredState::Deregistered) {
          vh::Violation("claire:not-deregistered", std::to_string(static_cast<int>(s)) + trace);
        }
        vh::Count("claires gone");
      }
      vh::Distinct(vh::hash_str(trace));
      vh::Sample(trace);
    });
  }
  for (auto& t : threads) t.join();
  for (auto n : {&n1, &n2}) {
    std::lock_guard<std::mutex> l(n->m);
    for (auto& e : n->events) {
      if (e.kind == 'T') vh::Violation("claire:timed-out", e.codename);
    }
  }
}

inline void Case(vh::Rng& r, uint16_t a, uint16_t b) {
  if (r.chance(40)) {
    vh::perturb_level() = r.chance(50) ? r.below(10) : 0;
    Raw(r, a, b);
  } else {
    vh::perturb_level() = r.chance(50) ? r.below(10) : 0;
    Claires(r, a, b);
  }
  vh::perturb_level() = 0;
}
}  // namespace live
