// HTTP pubsub (C06), disconnecting clients and shutdown (C38). Included from h_stream.cc.
namespace h {

struct Query {
  bool nowait = false, checked = false, entries_only = false, array = false;
  int64_t i = -1, n = -1, tail = -1, since = -1, recent = -1, period = -1, stop_bytes = -1;
  std::string json;
  std::string Url() const {
    std::string q;
    auto add = [&q](const std::string& kv) { q += (q.empty() ? "?" : "&") + kv; };
    if (i >= 0) add("i=" + std::to_string(i));
    if (n >= 0) add("n=" + std::to_string(n));
    if (tail >= 0) add("tail=" + std::to_string(tail));
    if (since >= 0) add("since=" + std::to_string(since));
    if (recent >= 0) add("recent=" + std::to_string(recent));
    if (period >= 0) add("period=" + std::to_string(period));
    if (stop_bytes >= 0) add("stop_after_bytes=" + std::to_string(stop_bytes));
    if (nowait) add("nowait");
    if (checked) add("checked");
    if (entries_only) add("entries_only");
    if (array) add("array");
    if (!json.empty()) add("json=" + json);
    return "/s" + q;
  }
};

struct Item {
  E entry;
  us_t us;
};

template <class F>
std::string RenderAs(const Item& e, uint64_t idx, bool bare) {
  return bare ? JSON<F>(e.entry) + '\n' : JSON<F>(idxts_t(idx, e.us)) + '\t' + JSON<F>(e.entry) + '\n';
}
std::string Render(const Query& q, const Item& e, uint64_t idx) {
  const bool bare = q.entries_only || q.array;
  if (!q.checked || q.json.empty()) return RenderAs<JSONFormat::Current>(e, idx, bare);
  if (q.json == "js") return RenderAs<JSONFormat::JavaScript>(e, idx, bare);
  if (q.json == "fs") return RenderAs<JSONFormat::NewtonsoftFSharp>(e, idx, bare);
  return RenderAs<JSONFormat::Minimalistic>(e, idx, bare);
}

// The entries a query must return from a log, as [first, end) plus whether the limit was hit by the log's end.
struct Expected {
  uint64_t first = 0;
  std::vector<std::string> records;
};
Expected Model(const Query& q, const std::vector<Item>& log, int64_t recent_threshold) {
  Expected x;
  uint64_t first = 0;
  if (q.i > 0) first = q.i;
  if (q.tail >= 0) {
    const uint64_t t = q.tail ? q.tail : 0;
    const uint64_t f = t < log.size() ? log.size() - t : 0;
    first = std::max(first, f);
  }
  const int64_t from = q.recent > 0 ? recent_threshold : q.since > 0 ? q.since : 0;
  while (first < log.size() && log[first].us.count() < from) ++first;
  x.first = first;
  size_t bytes = 0;
  for (uint64_t k = first; k < log.size(); ++k) {
    if (q.period > 0 && log[k].us.count() > log[first].us.count() + q.period) break;
    x.records.push_back(Render(q, log[k], k));
    bytes += x.records.back().size();
    if (q.stop_bytes > 0 && bytes >= static_cast<size_t>(q.stop_bytes)) break;
    if (q.n > 0 && x.records.size() == static_cast<size_t>(q.n)) break;
  }
  return x;
}
std::string JoinBody(const Query& q, const std::vector<std::string>& rec) {
  std::string s;
  if (!q.array) {
    for (auto& r : rec) s += r;
    return s;
  }
  if (rec.empty()) return "[]\n";
  for (size_t i = 0; i < rec.size(); ++i) s += (i ? ",\n" : "[\n") + rec[i];
  return s + "]\n";
}

template <typename STREAM>
struct Served {
  current::Owned<STREAM> s;
  int port;
  HTTPRoutesScope scope;
  template <typename... A>
  static int Reserve(int& port, HTTPRoutesScope& scope, STREAM& s) {
    auto rp = current::net::ReserveLocalPort();
    port = rp;
    auto& srv = HTTP(std::move(rp));
    scope = srv.Register("/s", URLPathArgs::CountMask::None | URLPathArgs::CountMask::One, s);
    return port;
  }
  template <typename... A>
  explicit Served(A&&... a) : s(STREAM::CreateStream(std::forward<A>(a)...)) {
    Reserve(port, scope, *s);
  }
};

template <typename STREAM, typename... A>
void HttpCase(vh::Rng& r, const std::string& what, A&&... args) {
  Served<STREAM> sv(std::forward<A>(args)...);
  std::vector<Item> log;
  const int n = static_cast<int>(r.below(r.chance(10) ? 200 : 25));
  const int64_t now = current::time::Now().count();
  int64_t t = now - 3600ll * 1000000 * 5;
  const bool coarse = r.chance(50);  // Coarse: entries are at least 20 s apart, so that `recent` is unambiguous.
  for (int i = 0; i < n; ++i) {
    t += coarse ? r.range(20000000, 60000000) : (r.chance(30) ? 1 : r.range(1, 1000));
    if (r.chance(10)) {
      sv.s->Publisher()->UpdateHead(us_t(t));
      t += coarse ? 20000000 : r.range(1, 3);
    }
    Item e{MakeEntry(r, i), us_t(t)};
    sv.s->Publisher()->Publish(e.entry, e.us);
    log.push_back(e);
  }
  if (r.chance(40)) sv.s->Publisher()->UpdateHead(us_t(t + r.range(1, 1000)));
  const int64_t N = n;
  for (int k = 0; k < 25; ++k) {
    Query q;
    q.nowait = true;
    q.checked = r.chance(50);
    q.entries_only = r.chance(25);
    q.array = r.chance(20);
    if (r.chance(40)) q.i = r.chance(20) ? N - 1 + r.below(4) : r.below(N + 2);
    if (q.i < -1) q.i = 0;
    if (r.chance(35)) q.n = r.chance(40) ? 1 : r.below(N + 3);
    if (r.chance(25)) q.tail = 1 + r.below(N + 3);
    auto pick_us = [&]() -> int64_t {
      if (log.empty() || r.chance(5)) return r.chance(50) ? 1 : now + 100000000;
      return log[r.below(log.size())].us.count() + r.range(-1, 1);
    };
    int64_t threshold = 0;
    if (r.chance(35)) {
      if (coarse && r.chance(50)) {
        // Threshold 10 s before some entry; requests are served within seconds.
        const int64_t anchor = log.empty() ? now - 50000000 : log[r.below(log.size())].us.count();
        threshold = anchor - 10000000;
        q.recent = current::time::Now().count() - threshold;
      } else {
        q.since = std::max<int64_t>(1, pick_us());
      }
    }
    if (r.chance(25)) {
      q.period = 1 + (coarse ? r.below(200000000) : r.below(2000));
      if (log.size() >= 2 && r.chance(50)) {
        const uint64_t a = r.below(log.size()), b = r.below(log.size());
        q.period = std::max<int64_t>(1, std::abs(log[a].us.count() - log[b].us.count()) + r.range(-1, 1));
      }
    }
    if (r.chance(15)) q.stop_bytes = 1 + r.below(600);
    if (r.chance(20)) q.json = r.chance(34) ? "js" : r.chance(50) ? "fs" : "minimalistic";
    const std::string url = q.Url();
    vh::Case(what + " n=" + std::to_string(n) + " " + url);
    const auto resp = vh::Fetch(sv.port, "GET", url);
    const Expected x = Model(q, log, threshold);
    vh::Eval();
    const std::string desc = what + " N=" + std::to_string(N) + " " + url + " -> " + std::to_string(resp.code) + " body=" + resp.body.substr(0, 600);
    if (!resp.complete) {
      vh::Violation("http:incomplete-response", desc);
      continue;
    }
    if (x.records.empty() && resp.code == 204) {
      if (!resp.body.empty()) vh::Violation("http:204-with-body", desc);
      if (x.first < log.size()) vh::Violation("http:204-despite-entries", desc);
      vh::Count("no_content");
      continue;
    }
    if (resp.code != 200) {
      vh::Violation("http:code", desc);
      continue;
    }
    const std::string expect = JoinBody(q, x.records);
    // An empty array may as well be rendered as an empty body: the documentation does not say.
    if (resp.body != expect && !(x.records.empty() && resp.body.empty())) {
      vh::Violation("http:slice", desc + " EXPECTED " + expect.substr(0, 600));
    }
    if (resp.Header("X-Current-Stream-Size") != std::to_string(N)) vh::Violation("http:size-header", desc);
    if (resp.Header("X-Current-Stream-Subscription-Id").empty()) vh::Violation("http:no-subscription-id", desc);
    vh::Count("records", x.records.size());
    uint64_t hs = vh::hash_mix(x.first, x.records.size());
    hs = vh::hash_mix(hs, (q.checked << 3) | (q.array << 2) | (q.entries_only << 1) | (q.n > 0));
    hs = vh::hash_mix(hs, ((q.since > 0) << 3) | ((q.recent > 0) << 2) | ((q.period > 0) << 1) | (q.tail > 0));
    hs = vh::hash_mix(hs, N);
    if (!x.records.empty()) vh::Distinct(hs);
    if (x.records.size() > 2 && x.records.size() < 9) vh::Sample(url + " of " + std::to_string(N) + " entries -> [" + std::to_string(x.first) + "," + std::to_string(x.first + x.records.size()) + ")");
  }
  // Size queries.
  {
    const auto a = vh::Fetch(sv.port, "GET", "/s?sizeonly");
    if (a.code != 200 || a.body != std::to_string(N) + "\n" || a.Header("X-Current-Stream-Size") != std::to_string(N)) vh::Violation("http:sizeonly", what + " " + a.raw);
    const auto b = vh::Fetch(sv.port, "HEAD", "/s");
    if (b.code != 200 || b.Header("X-Current-Stream-Size") != std::to_string(N)) vh::Violation("http:head", what + " " + b.raw);
    const auto c = vh::Fetch(sv.port, "POST", "/s", 15000, "", "x");
    if (c.code != 405) vh::Violation("http:method", what + " " + c.raw);
    const auto d = vh::Fetch(sv.port, "GET", "/s?terminate=nosuch");
    if (d.code != 404) vh::Violation("http:terminate-unknown", what + " " + d.raw);
    const auto e = vh::Fetch(sv.port, "GET", "/s/schema.simple");
    if (e.code != 200 || e.body.find("TopLevelTransaction") == std::string::npos) vh::Violation("http:schema", what + " " + e.raw);
    if (N && r.chance(50)) {
      // `tail=$(sizeonly)` returns everything.
      const auto f = vh::Fetch(sv.port, "GET", "/s?nowait&tail=" + std::to_string(N));
      Query q;
      if (f.body != JoinBody(q, Model(q, log, 0).records)) vh::Violation("http:tail-size", what + " " + f.raw.substr(0, 900));
    }
    vh::Eval(5);
  }
}

#if PARTS & 2
void Mode_http() {
  vh::Rng r(vh::opt().seed);
  for (uint64_t c = 0; c < vh::opt().cases && !vh::TooMany(); ++c) {
    if (r.chance(50)) {
      HttpCase<MemStream>(r, "mem");
    } else {
      const std::string fn = vh::opt().scratch + "/h" + std::to_string(c);
      HttpCase<FileStream>(r, "file", fn);
      ::unlink(fn.c_str());
    }
  }
}
#endif

// ---- live subscriptions: publishes happen while clients read; some clients vanish.

struct LiveClient {
  Query q;
  uint64_t size_before = 0, size_after = 0;
  bool want_all = false;     // Reads until everything expected has arrived.
  bool vanish = false;       // Disconnects abruptly at a random time.
  bool terminate = false;    // Ends the subscription via `?terminate=`.
  int delay = 0, life = 0;
  vh::RespParser resp;
  bool timed_out = false;
  bool eof = false;
};

template <typename STREAM, typename... A>
void LiveCase(vh::Rng& r, bool with_destroy, const std::string& what, A&&... args) {
  auto sv = std::make_unique<Served<STREAM>>(std::forward<A>(args)...);
  const int port = sv->port;
  std::vector<int64_t> heads;
  int key = 0;
  const int prefill = static_cast<int>(r.below(15));
  std::atomic<uint64_t> published{0};
  auto publish = [&](vh::Rng& rr) {
    if (rr.chance(20)) {
      const int64_t h = current::time::Now().count();
      sv->s->Publisher()->UpdateHead(us_t(h));
      heads.push_back(h);
    }
    sv->s->Publisher()->Publish(MakeEntry(rr, key++));
    published++;
  };
  for (int i = 0; i < prefill; ++i) publish(r);
  const int total = static_cast<int>(r.range(5, 60));
  const int nclients = static_cast<int>(r.range(1, 5));
  std::vector<LiveClient> cl(nclients);
  std::string desc0 = what + " prefill=" + std::to_string(prefill) + " total=" + std::to_string(total);
  for (auto& c : cl) {
    c.q.checked = r.chance(50);
    c.q.entries_only = r.chance(25);
    c.q.array = r.chance(20);
    if (r.chance(50)) c.q.i = r.below(prefill + 10);
    if (r.chance(25)) c.q.n = 1 + r.below(20);
    if (r.chance(25)) c.q.tail = r.below(prefill + 3);
    if (r.chance(20) && c.q.tail < 0) {
      // Since some existing entry, or since the future.
      if (sv->s->Data()->Size() && r.chance(70)) {
        const uint64_t k = r.below(sv->s->Data()->Size());
        for (const auto& e : sv->s->Data()->Iterate(k, k + 1)) c.q.since = e.idx_ts.us.count() + r.range(-1, 1);
      } else {
        c.q.since = current::time::Now().count() + r.range(0, 3000);
      }
    }
    if (r.chance(25)) c.q.period = 200 + r.below(6000);
    c.vanish = r.chance(30);
    c.terminate = !c.vanish && r.chance(30);
    c.want_all = !c.vanish && !c.terminate;
    c.delay = static_cast<int>(r.below(4000));
    c.life = r.chance(40) ? static_cast<int>(r.below(300)) : static_cast<int>(r.below(8000));
  }
  std::atomic<bool> publishing_done{false};
  std::atomic<bool> stop_reading{false};
  std::vector<Item> log;  // Complete once `stop_reading` is set.
  std::thread pub([&, rr = r.fork()]() mutable {
    for (int i = 0; i < total; ++i) {
      publish(rr);
      if (rr.chance(60)) ::usleep(rr.below(400));
    }
    if (rr.chance(70)) {
      // Only head updates remain for whoever is still connected, including those who have vanished.
      for (int i = 0; i < 6; ++i) {
        ::usleep(rr.below(400));
        const int64_t h = current::time::Now().count();
        sv->s->Publisher()->UpdateHead(us_t(h));
        heads.push_back(h);
      }
    }
    publishing_done = true;
  });
  std::vector<std::thread> th;
  for (auto& c : cl) {
    th.emplace_back([&, rr = r.fork()]() mutable {
      ::usleep(c.delay);
      int fd = vh::Dial(port);
      if (fd < 0) {
        if (!with_destroy) vh::Violation("live:cannot-connect", desc0);
        return;
      }
      c.size_before = with_destroy ? 0 : sv->s->Data()->Size();
      vh::SendAll(fd, "GET " + c.q.Url() + " HTTP/1.1\r\nHost: x\r\n\r\n");
      const auto t0 = std::chrono::steady_clock::now();
      char buf[4096];
      bool got_size_after = false;
      bool terminate_sent = false;
      int idle = 0;
      while (true) {
        ssize_t k = vh::RecvSome(fd, buf, rr.chance(30) ? 1 + rr.below(20) : sizeof(buf), 1);
        if (k > 0) {
          c.resp.Feed(buf, k);
          idle = 0;
        } else if (k == 0 || k == -1) {
          c.eof = true;
          break;
        }
        if (!got_size_after && c.resp.headers_done) {
          c.size_after = with_destroy ? 1000000 : sv->s->Data()->Size();
          got_size_after = true;
        }
        if (c.resp.complete || c.resp.malformed) break;
        const auto el = std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t0).count();
        if (c.vanish && el > c.life) {
          struct linger lg = {1, 0};
          if (rr.chance(60)) ::setsockopt(fd, SOL_SOCKET, SO_LINGER, &lg, sizeof(lg));
          break;
        }
        if (c.terminate && c.resp.headers_done && !terminate_sent && (c.life < 300 || el > c.life)) {
          terminate_sent = true;
          const std::string id = c.resp.Header("X-Current-Stream-Subscription-Id");
          const auto t = vh::Fetch(port, "GET", "/s?terminate=" + id);
          if (t.code != 200 && !with_destroy) vh::Violation("live:terminate-code", desc0 + " " + c.q.Url() + " code " + std::to_string(t.code));
        }
        if (terminate_sent && el > 30000000) {
          vh::Violation("live:terminate-ignored", desc0 + " " + c.q.Url());
          break;
        }
        // A live reader is satisfied once everything published has been delivered.
        if (c.want_all && stop_reading && (c.resp.headers_done || el > 20000000)) {
          if (k == -2 && ++idle > 10000) break;
          // Enough was received: decided by the checker below, which needs no waiting if it is so.
          if (!c.resp.complete && k == -2 && idle > 30) {
            size_t recs = 0;
            const auto& b = c.resp.body;
            for (size_t at = 0; at < b.size();) {
              const size_t e = b.find('\n', at);
              if (e == std::string::npos) break;
              recs += b[at] == '{' && b.compare(at, 6, "{\"us\":") != 0;
              at = e + 1;
            }
            uint64_t hi = c.q.i > 0 ? c.q.i : 0;
            if (c.q.tail >= 0) hi = std::max<uint64_t>(hi, static_cast<uint64_t>(c.q.tail) < c.size_after ? c.size_after - c.q.tail : 0);
            if (c.q.since > 0) while (hi < log.size() && log[hi].us.count() < c.q.since) ++hi;
            const uint64_t avail = hi < log.size() ? log.size() - hi : 0;
            if (c.q.period > 0) {
              const int64_t last = std::max(log.back().us.count(), heads.empty() ? 0 : heads.back());
              if (!avail || last <= log[hi].us.count() + c.q.period) {
                if (idle > 100) break;
              }
            } else if (c.q.n <= 0 || avail < static_cast<uint64_t>(c.q.n)) {
              if (recs >= avail) break;
            }
          }
        }
      }
      ::close(fd);
    });
  }
  pub.join();
  for (const auto& e : sv->s->Data()->Iterate()) log.push_back({e.entry, e.idx_ts.us});
  stop_reading = true;
  if (with_destroy) {
    // Unregister the endpoint and destroy the stream while live clients are still reading: C38.
    ::usleep(r.below(3000));
  }
  if (!with_destroy) {
    for (auto& t : th) t.join();
  }
  // The server is still fine after clients vanished.
  {
    const auto a = vh::Fetch(port, "GET", "/s?nowait&checked&entries_only");
    Query q;
    q.checked = q.entries_only = true;
    if (!log.empty() && a.body != JoinBody(q, Model(q, log, 0).records)) vh::Violation("live:after", desc0 + " " + a.raw.substr(0, 500));
  }
  if (with_destroy) {
    sv->scope = HTTPRoutesScope();
    // Requests being dispatched may still refer to the stream: the property is about established subscriptions.
    ::usleep(20000);
    sv = nullptr;
    for (auto& t : th) t.join();
    vh::Count("destroyed_with_live_clients");
  } else {
    sv->scope = HTTPRoutesScope();
    ::usleep(2000);
    sv = nullptr;
  }
  std::sort(heads.begin(), heads.end());
  for (auto& c : cl) {
    const std::string desc = desc0 + " " + c.q.Url() + (c.vanish ? " vanish" : c.terminate ? " terminate" : "") +
                             " before=" + std::to_string(c.size_before) + " after=" + std::to_string(c.size_after) + " body=" + c.resp.body.substr(0, 700);
    vh::Eval();
    if (!c.resp.headers_done) {
      if (!c.vanish && !with_destroy) vh::Violation("live:no-headers", desc);
      continue;
    }
    if (c.resp.malformed) {
      vh::Violation("live:malformed-chunks", desc + " RAW " + c.resp.raw.substr(0, 500));
      continue;
    }
    if (c.resp.code != 200) {
      if (!(with_destroy && (c.resp.code == 404 || c.resp.code == 503))) vh::Violation("live:code", desc + " " + c.resp.head);
      continue;
    }
    // Split the body into records. The last one may be incomplete only if the client went away.
    std::string body = c.resp.body;
    std::vector<std::string> lines;
    size_t p = 0;
    while (true) {
      auto e = body.find('\n', p);
      if (e == std::string::npos) break;
      lines.push_back(body.substr(p, e - p + 1));
      p = e + 1;
    }
    if (p != body.size() && !c.vanish && !with_destroy) vh::Violation("live:partial-line", desc);
    bool ended_by_message = false;
    if (c.q.array && c.want_all && c.resp.complete && !with_destroy) {
      const bool some = body.compare(0, 2, "[\n") == 0;
      if (some ? body.size() < 4 || body.compare(body.size() - 2, 2, "]\n") : body != "[]\n") vh::Violation("live:array-not-closed", desc);
      vh::Count("live_arrays_closed");
    }
    if (c.q.array) {
      std::vector<std::string> l2;
      for (auto& l : lines) {
        if (l == "[\n" || l == ",\n" || l == "]\n" || l == "[]\n") continue;
        l2.push_back(l);
      }
      lines = l2;
    }
    // The first index served depends on the size at the time of the request: anything in between is fine.
    const std::string kTermMsg = "{\"error\":\"The subscriber has terminated.\"}\n";
    uint64_t lo = c.q.i > 0 ? c.q.i : 0, hi = lo;
    if (c.q.tail >= 0) {
      auto f = [&](uint64_t size) { return static_cast<uint64_t>(c.q.tail) < size ? size - c.q.tail : 0; };
      hi = std::max<uint64_t>(lo, f(c.size_after));
      lo = std::max<uint64_t>(lo, f(c.size_before));
    }
    if (c.q.since > 0) {
      while (lo < log.size() && log[lo].us.count() < c.q.since) ++lo;
      while (hi < log.size() && log[hi].us.count() < c.q.since) ++hi;
    }
    std::vector<std::string> rec;
    int64_t first_idx = -1;
    std::vector<std::pair<size_t, int64_t>> head_lines;
    bool bad = false;
    for (auto& l : lines) {
      if (ended_by_message) {
        vh::Violation("live:data-after-end", desc);
        bad = true;
        break;
      }
      if (l == kTermMsg) {
        ended_by_message = true;
        continue;
      }
      if (l.compare(0, 6, "{\"us\":") == 0 && l.find('\t') == std::string::npos) {
        head_lines.push_back({rec.size(), atoll(l.c_str() + 6)});
        continue;
      }
      rec.push_back(l);
    }
    if (bad) continue;
    if (ended_by_message && !c.terminate && !with_destroy) vh::Violation("live:unexpected-termination", desc);
    if (!rec.empty()) {
      bool ok = false;
      for (uint64_t s = lo; s <= hi && s < log.size(); ++s) {
        if (s + rec.size() > log.size()) break;
        bool same = true;
        for (size_t k = 0; k < rec.size() && same; ++k) same = rec[k] == Render(c.q, log[s + k], s + k);
        if (same) {
          ok = true;
          first_idx = s;
          break;
        }
      }
      if (!ok) {
        vh::Violation("live:slice", desc + " allowed first in [" + std::to_string(lo) + "," + std::to_string(hi) + "] of " + std::to_string(log.size()));
        continue;
      }
      if (c.q.n > 0 && rec.size() > static_cast<size_t>(c.q.n)) vh::Violation("live:too-many", desc);
      if (c.q.period > 0) {
        // The period is counted from the first thing served, be it the first record or a head update prior to it.
        const int64_t until = log[first_idx].us.count() + c.q.period;
        if (log[first_idx + rec.size() - 1].us.count() > until) vh::Violation("live:period", desc + " first at " + std::to_string(log[first_idx].us.count()) + ", last at " + std::to_string(log[first_idx + rec.size() - 1].us.count()));
        for (auto& h : head_lines) if (h.second > until) vh::Violation("live:period", desc + " head " + std::to_string(h.second));
        const bool beyond = log.back().us.count() > until || (!heads.empty() && heads.back() > until);
        if (beyond && c.want_all && !with_destroy && !c.resp.complete) vh::Violation("live:period-not-closed", desc);
        vh::Count("live_periods");
      }
      int64_t prev_head = -1;
      for (auto& h : head_lines) {
        if (h.second <= prev_head) vh::Violation("live:head-order", desc);
        prev_head = h.second;
        if (h.first > 0 && h.second <= log[first_idx + h.first - 1].us.count()) vh::Violation("live:head-behind-entry", desc);
        if (first_idx + h.first < log.size() && h.first < rec.size() && h.second >= log[first_idx + h.first].us.count()) vh::Violation("live:head-ahead-of-entry", desc);
        if (h.first == rec.size() && first_idx + rec.size() < log.size() && c.want_all && h.second >= log[first_idx + rec.size()].us.count() && c.q.n < 0) vh::Violation("live:head-ahead-of-missing-entry", desc);
      }
    }
    vh::Count("live_records", rec.size());
    vh::Count("live_heads", head_lines.size());
    if (c.want_all && !with_destroy) {
      const uint64_t avail = lo < log.size() ? log.size() - lo : 0;
      const uint64_t avail_min = hi < log.size() ? log.size() - hi : 0;
      if (c.q.period > 0) {
        // Checked above.
      } else if (c.q.n > 0 && avail_min >= static_cast<uint64_t>(c.q.n)) {
        if (rec.size() != static_cast<size_t>(c.q.n)) vh::Violation("live:n-not-served", desc + " got " + std::to_string(rec.size()));
        if (!c.resp.complete) vh::Violation("live:n-not-closed", desc);
      } else if (rec.size() < avail_min || rec.size() > avail) {
        vh::Violation("live:missing", desc + " got " + std::to_string(rec.size()) + " of [" + std::to_string(avail_min) + "," + std::to_string(avail) + "]");
      }
    }
    if (with_destroy && !c.vanish && !c.resp.complete && !(c.want_all && !c.eof)) {
      // Its connection must have been brought to an end, with the last chunk.
      vh::Violation("shutdown:not-closed", desc);
    }
    uint64_t hs = vh::hash_mix(rec.size(), first_idx);
    for (auto& h : head_lines) hs = vh::hash_mix(hs, h.first);
    if (!rec.empty()) vh::Distinct(hs);
    if (rec.size() > 3) vh::Sample(desc.substr(0, 200));
  }
}

#if PARTS & 4
void Mode_live(bool with_destroy) {
  vh::Rng r(vh::opt().seed);
  for (uint64_t c = 0; c < vh::opt().cases && !vh::TooMany(); ++c) {
    vh::Case("case=" + std::to_string(c));
    vh::perturb_level() = r.chance(30) ? 60 : static_cast<int>(r.below(4) * 3);
    if (r.chance(60)) {
      LiveCase<MemStream>(r, with_destroy, "mem");
    } else {
      const std::string fn = vh::opt().scratch + "/l" + std::to_string(c);
      LiveCase<FileStream>(r, with_destroy, "file", fn);
      ::unlink(fn.c_str());
    }
  }
}
#endif

void HttpModes(const std::string& m) {
#if PARTS & 2
  if (m == "http") Mode_http();
#endif
#if PARTS & 4
  if (m == "live") Mode_live(false);
  if (m == "shutdown") Mode_live(true);
#endif
}
}  // namespace h
