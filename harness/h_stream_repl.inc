// Replication (C07) and master flip (C08). Included from h_stream.cc.
namespace h {

// A TCP proxy in front of the source's HTTP server. Re-chunks chunked responses at arbitrary byte positions, stalls,
// cuts connections, and (optionally) drops or repeats whole lines.
struct Proxy {
  vh::Listener l;
  int upstream;
  std::atomic<bool> stop{false};
  std::atomic<bool> benign{false};  // No more faults, so that the replica can catch up.
  std::thread th;
  std::mutex m;
  std::vector<std::thread> conns;
  vh::Rng rng;
  int cut_pct, corrupt_pct, stall_pct;
  std::atomic<int> cuts{0}, corruptions{0}, connections{0}, rechunks{0};
  Proxy(int upstream, vh::Rng r, int cut_pct, int corrupt_pct, int stall_pct)
      : upstream(upstream), rng(r), cut_pct(cut_pct), corrupt_pct(corrupt_pct), stall_pct(stall_pct) {
    th = std::thread([this]() { Loop(); });
  }
  ~Proxy() {
    stop = true;
    th.join();
    for (auto& t : conns) t.join();
  }
  void Loop() {
    while (!stop) {
      int fd = l.Accept(20);
      if (fd < 0) continue;
      connections++;
      conns.emplace_back([this, fd, r = rng.fork()]() mutable { Serve(fd, r); });
    }
  }
  void SendChunk(int fd, const std::string& s, bool& ok) {
    char b[32];
    snprintf(b, sizeof(b), "%zx\r\n", s.size());
    ok = ok && vh::SendAll(fd, b + s + "\r\n");
    rechunks++;
  }
  void Serve(int fd, vh::Rng r) {
    std::string req;
    char buf[8192];
    while (req.find("\r\n\r\n") == std::string::npos) {
      ssize_t k = vh::RecvSome(fd, buf, sizeof(buf), 5000);
      if (k <= 0) {
        ::close(fd);
        return;
      }
      req.append(buf, k);
    }
    int up = vh::Dial(upstream);
    if (up < 0) {
      ::close(fd);
      return;
    }
    vh::SendAll(up, req);
    vh::RespParser p;
    bool head_sent = false, ok = true;
    size_t sent = 0;
    const bool will_cut = r.chance(cut_pct);
    const size_t cut_at = r.chance(20) ? 0 : r.below(r.chance(50) ? 200 : 4000);
    const bool will_corrupt = r.chance(corrupt_pct);
    bool corrupted = false;
    std::string pending;
    while (ok && !stop) {
      // If the very last line was dropped, there is no way to notice it, unless the connection breaks.
      if (corrupted && benign) break;
      ssize_t k = vh::RecvSome(up, buf, sizeof(buf), 20);
      if (k == -2) {
        // Has the client gone?
        char c;
        ssize_t z = ::recv(fd, &c, 1, MSG_DONTWAIT | MSG_PEEK);
        if (z == 0) break;
        if (!head_sent) continue;
      }
      if (k > 0) p.Feed(buf, k);
      if (p.headers_done && !head_sent) {
        head_sent = true;
        ok = ok && vh::SendAll(fd, p.head + "\r\n");
        if (!p.chunked) {
          // Pass on as is.
          const size_t body_at = p.pos;
          ok = ok && vh::SendAll(fd, p.raw.substr(body_at));
          while (ok && !(p.content_length >= 0 && p.raw.size() >= body_at + p.content_length)) {
            ssize_t z = vh::RecvSome(up, buf, sizeof(buf), 10000);
            if (z <= 0) break;
            p.raw.append(buf, z);
            ok = ok && vh::SendAll(fd, std::string(buf, z));
          }
          break;
        }
      }
      if (head_sent && p.body.size() > sent) {
        pending += p.body.substr(sent);
        sent = p.body.size();
        if (will_corrupt && !benign && r.chance(30)) {
          // Drop or repeat one complete line of what is pending.
          auto a = pending.find('\n');
          auto b = a == std::string::npos ? a : pending.find('\n', a + 1);
          if (b != std::string::npos) {
            const std::string line = pending.substr(a + 1, b - a);
            if (r.chance(50)) {
              pending.erase(a + 1, line.size());
            } else {
              pending.insert(b + 1, line);
            }
            corrupted = true;
            corruptions++;
          }
        }
        while (ok && !pending.empty()) {
          size_t n = r.chance(30) ? 1 + r.below(3) : 1 + r.below(r.chance(50) ? 60 : 800);
          n = std::min(n, pending.size());
          SendChunk(fd, pending.substr(0, n), ok);
          pending.erase(0, n);
          if (will_cut && !benign && sent - pending.size() >= cut_at) {
            cuts++;
            ok = false;
            if (r.chance(50)) {
              struct linger lg = {1, 0};
              ::setsockopt(fd, SOL_SOCKET, SO_LINGER, &lg, sizeof(lg));
            }
          }
          if (!benign && r.chance(stall_pct)) ::usleep(r.below(500));
        }
      }
      if (p.complete) {
        ok = ok && vh::SendAll(fd, "0\r\n\r\n");
        break;
      }
      if (k == 0 || k == -1) break;
    }
    ::close(up);
    ::close(fd);
  }
};

struct Server {
  int port;
  current::http::HTTPServerPOSIX* srv;
  Server() {
    auto rp = current::net::ReserveLocalPort();
    port = rp;
    srv = &HTTP(std::move(rp));
  }
};
inline Server& TheServer() {
  static Server s;
  return s;
}

std::vector<std::string> DumpLines(const std::vector<LogEntry>& log) {
  std::vector<std::string> r;
  for (size_t i = 0; i < log.size(); ++i) r.push_back(JSON(idxts_t(i, log[i].us)) + '\t' + log[i].json);
  return r;
}

template <typename STREAM>
bool PrefixOf(STREAM&& replica, const std::vector<LogEntry>& src, const std::string& desc, bool must_equal) {
  const auto rep = Dump(replica);
  if (rep.size() > src.size()) {
    vh::Violation("repl:longer", desc + " " + std::to_string(rep.size()) + " > " + std::to_string(src.size()));
    return false;
  }
  for (size_t i = 0; i < rep.size(); ++i) {
    if (rep[i].us != src[i].us || rep[i].json != src[i].json) {
      vh::Violation("repl:diverged", desc + " at " + std::to_string(i) + ": " + rep[i].json + "@" + std::to_string(rep[i].us.count()) + " vs " + src[i].json + "@" + std::to_string(src[i].us.count()));
      return false;
    }
  }
  // The raw lines as well.
  uint64_t i = 0;
  for (const auto& e : replica->Data()->IterateUnsafe()) {
    if (i >= rep.size()) break;
    if (e != JSON(idxts_t(i, src[i].us)) + '\t' + src[i].json) {
      vh::Violation("repl:raw-diverged", desc + " at " + std::to_string(i) + ": " + e);
      return false;
    }
    ++i;
  }
  if (must_equal && rep.size() != src.size()) {
    vh::Violation("repl:missing", desc + " " + std::to_string(rep.size()) + " of " + std::to_string(src.size()));
    return false;
  }
  return true;
}

template <typename SRC, typename DST>
void ReplCase(vh::Rng& r, current::Owned<SRC> s, current::Owned<DST> d, uint64_t c, const std::string& what) {
  const std::string route = "/r" + std::to_string(c);
  auto scope = TheServer().srv->Register(route, URLPathArgs::CountMask::None | URLPathArgs::CountMask::One, *s);
  const bool use_proxy = r.chance(80);
  const int cut_pct = r.chance(60) ? static_cast<int>(r.below(90)) : 0;
  const int corrupt_pct = r.chance(30) ? static_cast<int>(r.below(50)) : 0;
  const int stall_pct = r.chance(40) ? static_cast<int>(r.below(20)) : 0;
  const bool rm_checked = r.chance(50);
  const bool sub_checked = r.chance(50);
  std::string desc = what + (use_proxy ? " proxy cut=" + std::to_string(cut_pct) + "% corrupt=" + std::to_string(corrupt_pct) + "%" : "") +
                     (rm_checked ? " RM:checked" : " RM:unchecked") + (sub_checked ? " SM:checked" : " SM:unchecked");
  vh::Case(desc);
  std::unique_ptr<Proxy> proxy;
  if (use_proxy) proxy = std::make_unique<Proxy>(TheServer().port, r.fork(), cut_pct, corrupt_pct, stall_pct);
  const std::string url = "http://localhost:" + std::to_string(use_proxy ? proxy->l.port : TheServer().port) + route;
  uint64_t key = 0;
  auto publish_some = [&](vh::Rng& rr, int n, bool pauses) {
    for (int i = 0; i < n; ++i) {
      if (rr.chance(15)) s->Publisher()->UpdateHead();
      s->Publisher()->Publish(MakeEntry(rr, key++));
      if (pauses && rr.chance(50)) ::usleep(rr.below(500));
    }
    if (rr.chance(50)) s->Publisher()->UpdateHead();
  };
  publish_some(r, static_cast<int>(r.below(30)), false);
  std::thread pub([&, rr = r.fork()]() mutable { publish_some(rr, static_cast<int>(rr.below(60)), true); });
  int restarts = 0;
  {
    using replicator_t = current::stream::StreamReplicator<DST>;
    using remote_t = current::stream::SubscribableRemoteStream<E>;
    std::unique_ptr<remote_t> remote;
    for (int attempt = 0; !remote && attempt < 200; ++attempt) {
      try {
        remote = std::make_unique<remote_t>(url);
      } catch (const current::Exception&) {
        ::usleep(1000);
      }
    }
    if (!remote) {
      vh::Violation("repl:cannot-connect", desc);
      pub.join();
      return;
    }
    replicator_t replicator(d);
    const auto mode = sub_checked ? current::stream::SubscriptionMode::Checked : current::stream::SubscriptionMode::Unchecked;
    const int rounds = static_cast<int>(r.range(1, 4));
    // Perhaps resumed once more with everything there already, so that it is nothing but the head that is new.
    const bool idle = r.chance(40);
    for (int k = 0; k < rounds + idle; ++k) {
      const bool last = k + 1 >= rounds;
      const uint64_t start = d->Data()->Size();
      const us_t from = r.chance(50) ? d->Data()->CurrentHead() + us_t(1) : us_t(0);
      std::atomic<int> done{0};
      std::unique_ptr<current::stream::SubscriberScope> sc;
      if (rm_checked) {
        sc = std::make_unique<current::stream::SubscriberScope>(remote->Subscribe(replicator, start, from, mode, [&done]() { done++; }));
      } else {
        sc = std::make_unique<current::stream::SubscriberScope>(remote->SubscribeUnchecked(replicator, start, from, mode, [&done]() { done++; }));
      }
      if (!last) {
        ::usleep(r.chance(30) ? 0 : r.below(8000));
        ++restarts;
      } else {
        if (pub.joinable()) pub.join();
        if (proxy) proxy->benign = true;
        if (k == rounds) {
          ::usleep(r.below(8000));
          s->Publisher()->UpdateHead();
          vh::Count("idle_heads");
        }
        const uint64_t n = s->Data()->Size();
        const us_t head = s->Data()->CurrentHead();
        int t = 0;
        for (; t < 60000 && (d->Data()->Size() < n || d->Data()->CurrentHead() < head); ++t) ::usleep(500);
        if (d->Data()->Size() < n) {
          vh::Violation("repl:stalled", desc + " at " + std::to_string(d->Data()->Size()) + " of " + std::to_string(n));
        } else if (d->Data()->CurrentHead() != head) {
          vh::Violation("repl:head", desc + " " + std::to_string(d->Data()->CurrentHead().count()) + " vs " + std::to_string(head.count()));
        }
      }
      sc = nullptr;
      if (done != 1) vh::Violation("repl:done-callback", desc + " n=" + std::to_string(done.load()));
    }
  }
  PrefixOf(d, Dump(s), desc, true);
  vh::Eval();
  vh::Count("restarts", restarts);
  vh::Count("replicated_entries", d->Data()->Size());
  uint64_t hs = vh::hash_mix(d->Data()->Size(), s->Data()->Size());
  if (proxy) {
    vh::Count("cuts", proxy->cuts);
    vh::Count("line_corruptions", proxy->corruptions);
    vh::Count("chunks_delivered", proxy->rechunks);
    hs = vh::hash_mix(hs, proxy->cuts * 1000 + proxy->rechunks);
  }
  vh::Distinct(hs);
  vh::Sample(desc + " entries=" + std::to_string(d->Data()->Size()) + (proxy ? " cuts=" + std::to_string(proxy->cuts) + " chunks=" + std::to_string(proxy->rechunks) : ""));
  // The follower, once it becomes a master, goes on from where the source was.
  d->BecomeMasterStream();
  const auto it = d->Publisher()->Publish(MakeEntry(r, key++));
  if (it.index != s->Data()->Size()) vh::Violation("repl:continue", desc);
  scope = HTTPRoutesScope();
  ::usleep(1000);
}

#if PARTS & 8
void Mode_repl() {
  vh::Rng r(vh::opt().seed);
  for (uint64_t c = 0; c < vh::opt().cases && !vh::TooMany(); ++c) {
    vh::perturb_level() = r.chance(20) ? 40 : static_cast<int>(r.below(4) * 3);
    const std::string f1 = vh::opt().scratch + "/ra" + std::to_string(c), f2 = vh::opt().scratch + "/rb" + std::to_string(c);
    switch (r.below(4)) {
      case 0: ReplCase(r, MemStream::CreateStream(), MemStream::CreateStream(), c, "mem->mem"); break;
      case 1: ReplCase(r, MemStream::CreateStream(), FileStream::CreateStream(f2), c, "mem->file"); break;
      case 2: ReplCase(r, FileStream::CreateStream(f1), MemStream::CreateStream(), c, "file->mem"); break;
      default: ReplCase(r, FileStream::CreateStream(f1), FileStream::CreateStream(f2), c, "file->file"); break;
    }
    ::unlink(f1.c_str());
    ::unlink(f2.c_str());
  }
}
#endif

// The chunk reassembly alone: every split position of generated streams of lines.
struct SinkImpl {
  std::vector<std::string> got;
  EntryResponse operator()(E&& e, idxts_t c, idxts_t) {
    got.push_back(JSON(c) + '\t' + JSON(e));
    return EntryResponse::More;
  }
  EntryResponse operator()(const E& e, idxts_t c, idxts_t) {
    got.push_back(JSON(c) + '\t' + JSON(e));
    return EntryResponse::More;
  }
  EntryResponse operator()(const std::string& raw, uint64_t idx, idxts_t) {
    got.push_back(raw);
    return EntryResponse::More;
  }
  EntryResponse operator()(us_t us) {
    got.push_back("H" + std::to_string(us.count()));
    return EntryResponse::More;
  }
  EntryResponse EntryResponseIfNoMorePassTypeFilter() const { return EntryResponse::More; }
  TerminationResponse Terminate() { return TerminationResponse::Terminate; }
};
using Sink = current::ss::StreamSubscriber<SinkImpl, E>;

// A one-shot HTTP server that sends scripted chunks.
#if PARTS & 8
void Mode_chunks() {
  vh::Rng r(vh::opt().seed);
  for (uint64_t c = 0; c < vh::opt().cases && !vh::TooMany(); ++c) {
    std::vector<std::string> expect;
    std::string body;
    const int n = static_cast<int>(r.range(1, 6));
    int64_t us = 1000;
    for (int i = 0; i < n; ++i) {
      us += r.range(1, 50);
      const std::string line = JSON(idxts_t(i, us_t(us))) + '\t' + JSON(MakeEntry(r, i));
      expect.push_back(line);
      body += line + (r.chance(80) ? "\n" : r.chance(50) ? "\r\n" : "\n\n");
      if (r.chance(30)) {
        us += r.range(1, 50);
        body += "{\"us\":" + std::to_string(us) + "}\n";
        expect.push_back("H" + std::to_string(us));
      }
    }
    const bool checked = r.chance(50);
    const std::string schema = []() {
      const auto type_id = Value<current::reflection::ReflectedTypeBase>(current::reflection::Reflector().ReflectType<E>()).type_id;
      return JSON(current::stream::SubscribableStreamSchema(type_id, "TopLevelTransaction", "StreamSchema"));
    }();
    // All single split positions, plus random multi-splits.
    std::vector<std::vector<size_t>> splits;
    for (size_t p = 1; p < body.size(); ++p) splits.push_back({p});
    for (int k = 0; k < 10; ++k) {
      std::vector<size_t> v;
      for (size_t p = 1; p < body.size(); ++p) {
        if (r.chance(k == 0 ? 100 : 15)) v.push_back(p);
      }
      splits.push_back(v);
    }
    current::stream::SubscribableRemoteStream<E>* dummy = nullptr;
    (void)dummy;
    using remote_t = current::stream::SubscribableRemoteStream<E>;
    static std::unique_ptr<vh::Listener> lst;
    static std::thread server;
    static std::atomic<bool> quit{false};
    static std::string schema_response;
    if (!lst) {
      lst = std::make_unique<vh::Listener>();
      schema_response = "HTTP/1.1 200 OK\r\nContent-Length: " + std::to_string(schema.size()) + "\r\nConnection: close\r\n\r\n" + schema;
      server = std::thread([]() {
        while (!quit) {
          int fd = lst->Accept(20);
          if (fd < 0) continue;
          char b[4096];
          vh::RecvSome(fd, b, sizeof(b), 1000);
          vh::SendAll(fd, schema_response);
          ::close(fd);
        }
      });
      server.detach();
    }
    static std::unique_ptr<current::Owned<typename remote_t::RemoteStream>> rs;
    if (!rs) {
      rs = std::make_unique<current::Owned<typename remote_t::RemoteStream>>(current::MakeOwned<typename remote_t::RemoteStream>(
          "http://localhost:" + std::to_string(lst->port) + "/x", "TopLevelTransaction", "StreamSchema"));
    }
    for (const auto& sp : splits) {
      Sink sink;
      auto feed = [&](auto& sub) {
        size_t prev = 0;
        for (size_t p : sp) {
          sub.PassChunkToSubscriber(body.substr(prev, p - prev));
          prev = p;
        }
        sub.PassChunkToSubscriber(body.substr(prev));
      };
      std::string err;
      try {
        if (checked) {
          remote_t::RemoteStreamSubscriber<Sink, E, current::stream::ReplicationMode::Checked> sub(*rs, sink, 0, us_t(0), []() {});
          feed(sub);
        } else {
          remote_t::RemoteStreamSubscriber<Sink, E, current::stream::ReplicationMode::Unchecked> sub(*rs, sink, 0, us_t(0), []() {});
          feed(sub);
        }
      } catch (const current::Exception& e) {
        err = e.what();
      }
      vh::Eval();
      if (!err.empty() || sink.got != expect) {
        std::string g;
        for (auto& x : sink.got) g += x + "|";
        vh::Violation("chunks:reassembly", (checked ? "checked " : "unchecked ") + err + " splits[0]=" + std::to_string(sp.empty() ? 0 : sp[0]) + " of " + std::to_string(sp.size()) + " body=" + body + " got=" + g);
        break;
      }
    }
    vh::Distinct(vh::hash_str(body));
    vh::Count("split_positions", splits.size());
    vh::Sample("body of " + std::to_string(body.size()) + " bytes, " + std::to_string(splits.size()) + " ways to split it");
  }
}
#endif

// ---------------------------------------------------------------- C08

struct FlipPorts {
  int port[3];
  FlipPorts() {
    for (int i = 0; i < 3; ++i) {
      auto rp = current::net::ReserveLocalPort();
      port[i] = rp;
      static_cast<void>(HTTP(std::move(rp)));
    }
  }
};
inline FlipPorts& Ports() {
  static FlipPorts p;
  return p;
}

template <typename C>
bool WaitCaughtUp(C& from, C& to, const std::string& desc) {
  const uint64_t n = from->Data()->Size();
  const us_t head = from->Data()->CurrentHead();
  for (int t = 0; t < 60000 && (to->Data()->Size() < n || to->Data()->CurrentHead() < head); ++t) ::usleep(500);
  if (to->Data()->Size() < n || to->Data()->CurrentHead() < head) {
    vh::Violation("flip:follower-stalled", desc + " " + std::to_string(to->Data()->Size()) + " of " + std::to_string(n));
    return false;
  }
  return true;
}

template <typename STREAM, current::stream::ReplicationMode RM>
void FlipCase(vh::Rng& r, uint64_t c, const std::string& what) {
  using ctl_t = current::stream::MasterFlipController<STREAM, current::stream::StreamReplicator<STREAM>, RM>;
  const int n_nodes = r.chance(60) ? 2 : 3;
  std::vector<std::unique_ptr<ctl_t>> node;
  std::vector<std::string> files, routes, urls;
  std::vector<uint64_t> keys(n_nodes, 0);
  std::string desc = what + (n_nodes == 3 ? " chain of 3" : " pair");
  vh::Case(desc);
  for (int i = 0; i < n_nodes; ++i) {
    files.push_back(vh::opt().scratch + "/fl" + std::to_string(c) + "_" + std::to_string(i));
    if constexpr (std::is_same_v<STREAM, FileStream>) {
      node.push_back(std::make_unique<ctl_t>(STREAM::CreateStream(files[i])));
    } else {
      node.push_back(std::make_unique<ctl_t>(STREAM::CreateStream()));
    }
    routes.push_back("/f" + std::to_string(c) + "_" + std::to_string(i));
    urls.push_back("http://localhost:" + std::to_string(Ports().port[i]) + routes[i]);
  }
  auto mode = [&r]() { return r.chance(50) ? current::stream::SubscriptionMode::Checked : current::stream::SubscriptionMode::Unchecked; };
  std::vector<LogEntry> acked;  // The one history, across all masters.
  std::mutex acked_m;
  uint64_t key = 0;
  auto& a = *node[0];
  for (int i = static_cast<int>(r.below(20)); i > 0; --i) {
    auto e = MakeEntry(r, key++);
    const auto it = a->Publisher()->Publish(e);
    acked.push_back({J(e), it.us, Exists<SA>(e)});
    if (r.chance(10)) a->Publisher()->UpdateHead();
  }
  // Topology: a chain or a star, rooted at the master.
  int master = 0;
  std::vector<int> follows(n_nodes, -1);
  keys[0] = a.ExposeViaHTTP(Ports().port[0], routes[0]);
  for (int i = 1; i < n_nodes; ++i) {
    const int to = r.chance(50) ? 0 : i - 1;
    try {
      node[i]->FollowRemoteStream(urls[to], mode());
    } catch (const current::Exception& e) {
      vh::Violation("flip:cannot-follow", desc + std::string(" ") + e.OriginalDescription());
      return;
    }
    follows[i] = to;
    keys[i] = node[i]->ExposeViaHTTP(Ports().port[i], routes[i]);
  }
  const int rounds = static_cast<int>(r.range(1, 4));
  bool ok = true;
  std::string history;
  for (int k = 0; ok && k < rounds; ++k) {
    // Some follower of the current master, directly or via another follower, takes over.
    int heir = master;
    while (heir == master) heir = static_cast<int>(r.below(n_nodes));
    history += " " + std::to_string(master) + "->" + std::to_string(heir);
    std::atomic<bool> refused{false};
    std::atomic<uint64_t> published{0};
    const bool concurrent = r.chance(70);
    std::thread pub;
    if (concurrent) {
      pub = std::thread([&, m = master, rr = r.fork()]() mutable {
        for (int i = 0; i < 4000; ++i) {
          auto e = MakeEntry(rr, key);
          try {
            auto publisher = (*node[m])->BorrowPublisher();
            if (rr.chance(10)) publisher->UpdateHead();
            const auto it = publisher->Publish(e);
            ++key;
            ++published;
            std::lock_guard<std::mutex> l(acked_m);
            acked.push_back({J(e), it.us, Exists<SA>(e)});
          } catch (const current::Exception&) {
            refused = true;
            return;
          }
          if (rr.chance(30)) ::usleep(rr.below(300));
        }
      });
      ::usleep(r.below(3000));
    }
    if (r.chance(30)) WaitCaughtUp(*node[master], *node[heir], desc);
    try {
      node[heir]->FlipToMaster(keys[master]);
    } catch (const current::Exception& e) {
      vh::Violation("flip:refused", desc + history + " " + e.OriginalDescription());
      ok = false;
    }
    if (pub.joinable()) pub.join();
    if (!ok) break;
    int masters = 0;
    for (int i = 0; i < n_nodes; ++i) masters += node[i]->IsMasterStream() ? 1 : 0;
    if (masters != 1 || !node[heir]->IsMasterStream()) {
      vh::Violation("flip:not-exactly-one-master", desc + history + " masters=" + std::to_string(masters));
      ok = false;
      break;
    }
    bool threw = false;
    try {
      (*node[master])->Publisher()->Publish(MakeEntry(r, 999999));
    } catch (const current::Exception&) {
      threw = true;
    }
    if (!threw) vh::Violation("flip:old-master-publishes", desc + history);
    // Nothing acknowledged may be lost, nothing may be invented.
    ok = PrefixOf(*node[heir], acked, desc + history, true);
    ok = ok && PrefixOf(*node[master], acked, desc + history + " old master", true);
    if ((*node[heir])->Data()->CurrentHead() != (*node[master])->Data()->CurrentHead()) {
      vh::Violation("flip:head", desc + history);
    }
    vh::Count("flips");
    vh::Count(concurrent && published && refused ? "flips_under_publishing" : "flips_at_rest");
    vh::Distinct(vh::hash_mix(vh::hash_mix(c, k), published));
    if (!ok) break;
    // The new master goes on.
    for (int i = static_cast<int>(r.below(10)); i > 0; --i) {
      auto e = MakeEntry(r, key++);
      const auto it = (*node[heir])->Publisher()->Publish(e);
      if (it.index != acked.size()) vh::Violation("flip:index-after", desc + history);
      acked.push_back({J(e), it.us, Exists<SA>(e)});
    }
    // The intermediate nodes between the heir and the old master have handed over to the heir one by one; all those
    // left behind now follow the heir. A failed attempt to follow leaves the node a follower.
    for (int i = 0; i < n_nodes; ++i) {
      if (i == heir) continue;
      try {
        node[i]->FollowRemoteStream(urls[heir], mode());
        follows[i] = heir;
      } catch (const current::stream::StreamIsAlreadyFollowingException&) {
        // Keeps following whom it followed.
      } catch (const current::Exception& e) {
        vh::Violation("flip:cannot-follow-new-master", desc + history + " node " + std::to_string(i) + " " + e.OriginalDescription());
        ok = false;
      }
    }
    follows[heir] = -1;
    if (ok && n_nodes == 2) {
      ok = WaitCaughtUp(*node[heir], *node[master], desc + history);
      ok = ok && PrefixOf(*node[master], acked, desc + history + " re-following", true);
    } else if (ok) {
      for (int i = 0; ok && i < n_nodes; ++i) {
        if (i != heir) {
          ok = WaitCaughtUp(*node[heir], *node[i], desc + history + " node " + std::to_string(i));
          ok = ok && PrefixOf(*node[i], acked, desc + history + " following", true);
        }
      }
    }
    // The next heir can only be asked via the node it follows, with the key of the master at the root.
    master = heir;
  }
  vh::Eval();
  vh::Sample(desc + history + " entries=" + std::to_string(acked.size()));
  // Followers first: a follower needs the other side to be there in order to end its subscription.
  while (std::count(node.begin(), node.end(), nullptr) < n_nodes) {
    for (int i = 0; i < n_nodes; ++i) {
      if (node[i] && std::none_of(follows.begin(), follows.end(), [i](int x) { return x == i; })) {
        follows[i] = -1;
        node[i] = nullptr;
      }
    }
  }
  for (auto& f : files) ::unlink(f.c_str());
}

// Two followers of one master race for the mastership: exactly one wins, the other one keeps following.
template <typename STREAM>
void FlipRaceCase(vh::Rng& r, uint64_t c, const std::string& what) {
  using ctl_t = current::stream::MasterFlipController<STREAM>;
  std::vector<std::unique_ptr<ctl_t>> node;
  std::vector<std::string> files, routes, urls;
  const std::string desc = what + " race";
  vh::Case(desc);
  for (int i = 0; i < 3; ++i) {
    files.push_back(vh::opt().scratch + "/fr" + std::to_string(c) + "_" + std::to_string(i));
    if constexpr (std::is_same_v<STREAM, FileStream>) {
      node.push_back(std::make_unique<ctl_t>(STREAM::CreateStream(files[i])));
    } else {
      node.push_back(std::make_unique<ctl_t>(STREAM::CreateStream()));
    }
    routes.push_back("/fr" + std::to_string(c) + "_" + std::to_string(i));
    urls.push_back("http://localhost:" + std::to_string(Ports().port[i]) + routes[i]);
  }
  auto& a = *node[0];
  std::vector<LogEntry> acked;
  for (int i = static_cast<int>(r.below(20)); i > 0; --i) {
    auto e = MakeEntry(r, i);
    const auto it = a->Publisher()->Publish(e);
    acked.push_back({J(e), it.us, Exists<SA>(e)});
  }
  const uint64_t key = a.ExposeViaHTTP(Ports().port[0], routes[0]);
  for (int i = 1; i < 3; ++i) node[i]->FollowRemoteStream(urls[0]);
  std::atomic<int> won{0}, lost{0};
  std::thread t[2];
  for (int i = 0; i < 2; ++i) {
    t[i] = std::thread([&, i, delay = r.below(300)]() {
      ::usleep(delay);
      try {
        node[i + 1]->FlipToMaster(key);
        won++;
      } catch (const current::Exception&) {
        lost++;
      }
    });
  }
  for (auto& x : t) x.join();
  int masters = 0;
  for (auto& n : node) masters += n->IsMasterStream() ? 1 : 0;
  if (won != 1 || lost != 1 || masters != 1 || a.IsMasterStream()) {
    vh::Violation("flip:race-not-exactly-one-master", desc + " won=" + std::to_string(won.load()) + " masters=" + std::to_string(masters));
  } else {
    const int w = node[1]->IsMasterStream() ? 1 : 2;
    PrefixOf(*node[w], acked, desc, true);
    auto e = MakeEntry(r, 777);
    const auto it = (*node[w])->Publisher()->Publish(e);
    acked.push_back({J(e), it.us, Exists<SA>(e)});
    // The old master follows the winner, hence so does the loser.
    static_cast<void>(node[w]->ExposeViaHTTP(Ports().port[w], routes[w]));
    a.FollowRemoteStream(urls[w]);
    if (WaitCaughtUp(*node[w], *node[3 - w], desc + " loser")) PrefixOf(*node[3 - w], acked, desc + " loser", true);
    vh::Count("races");
  }
  vh::Eval();
  const int winner = node[1]->IsMasterStream() ? 1 : 2;
  node[3 - winner] = nullptr;
  node[0] = nullptr;
  node[winner] = nullptr;
  for (auto& f : files) ::unlink(f.c_str());
}

// Handcrafted flip requests against an exact model of when they are to be accepted and what they are to return.
template <typename STREAM>
void FlipReqCase(vh::Rng& r, uint64_t c, const std::string& what) {
  using ctl_t = current::stream::MasterFlipController<STREAM>;
  const std::string file = vh::opt().scratch + "/fq" + std::to_string(c);
  const std::string route = "/fq" + std::to_string(c);
  std::unique_ptr<ctl_t> ctl;
  if constexpr (std::is_same_v<STREAM, FileStream>) {
    ctl = std::make_unique<ctl_t>(STREAM::CreateStream(file));
  } else {
    ctl = std::make_unique<ctl_t>(STREAM::CreateStream());
  }
  auto& s = *ctl;
  std::vector<LogEntry> log;
  int64_t us = 1000, head = -1;
  auto publish = [&]() {
    us = std::max(us, head) + r.range(1, 30);
    auto e = MakeEntry(r, log.size());
    s->Publisher()->Publish(e, us_t(us));
    log.push_back({J(e), us_t(us), Exists<SA>(e)});
    head = us;
  };
  auto update_head = [&]() {
    head = std::max(us, head) + r.range(1, 30);
    s->Publisher()->UpdateHead(us_t(head));
  };
  for (int i = static_cast<int>(r.below(8)); i > 0; --i) {
    publish();
    if (r.chance(30)) update_head();
  }
  if (r.chance(10) && log.empty()) update_head();
  current::stream::MasterFlipRestrictions rs;
  uint64_t max_idx = 0, max_size = 0;
  int64_t max_head = 0;
  if (r.chance(40)) rs.SetMaxIndexDifference(max_idx = r.range(1, 6));
  if (r.chance(40)) rs.SetMaxHeadDifference(us_t(max_head = r.range(1, 150)));
  if (r.chance(40)) rs.SetMaxDiffSize(max_size = r.range(1, 600));
  const bool clock = r.chance(30);
  if (clock) rs.SetMaxClockDifference(std::chrono::seconds(3600));
  std::atomic<int> started{0}, finished{0}, canceled{0};
  const uint64_t key = ctl->ExposeViaHTTP(Ports().port[0], route, rs, [&]() { started++; }, [&]() { finished++; }, [&]() { canceled++; });
  const std::string base = "http://localhost:" + std::to_string(Ports().port[0]) + route + "/control/flip_to_master";
  const int attempts = static_cast<int>(r.range(1, 25));
  bool flipped = false;
  for (int k = 0; k < attempts; ++k) {
    if (!flipped && r.chance(20)) publish();
    if (!flipped && r.chance(10)) update_head();
    const uint64_t n = log.size();
    const bool has_i = r.chance(n ? 85 : 20);
    const uint64_t i = has_i ? (r.chance(85) && n ? r.below(n) : r.below(n + 3)) : 0;
    int64_t h;
    if (has_i && i < n && r.chance(80)) {
      h = log[i].us.count() + (r.chance(50) ? 0 : r.range(-2, 12));
    } else {
      h = r.chance(50) ? r.range(0, head + 5) : head + r.range(-1, 1);
    }
    if (h < 0) h = 0;
    const bool checked = r.chance(50);
    const int clk = clock ? static_cast<int>(r.below(4)) : 1;  // 0: none, 1,2: now, 3: off.
    const bool wrong_key = k + 1 == attempts && !flipped && r.chance(25);
    std::string url = base + "?head=" + std::to_string(h) + "&key=" + std::to_string(wrong_key ? key + 1 : key);
    if (has_i) url += "&i=" + std::to_string(i);
    if (checked) url += "&checked";
    if (clk) url += "&clock=" + std::to_string(current::time::Now().count() + (clk == 3 ? (r.chance(50) ? 1 : -1) * 7200000000ll : 0));
    const std::string d = what + " " + url.substr(base.size()) + " n=" + std::to_string(n) + " head=" + std::to_string(head);
    vh::Case(d);
    // The model.
    const uint64_t next = has_i ? i + 1 : 0;
    bool accept = !flipped, early = false;
    if (h > head) accept = false, early = true;
    if (has_i && i >= n) accept = false, early = true;
    if (n) {
      uint64_t by_ts = 0;
      while (by_ts < n && log[by_ts].us.count() <= h) ++by_ts;
      if (by_ts != next) accept = false, early = true;
    }
    if (clock && (clk == 0 || clk == 3)) accept = false, early = true;
    const bool key_matters = accept;
    if (wrong_key) accept = false, early = true;
    std::string diff;
    if (accept) {
      for (uint64_t x = next; x < n; ++x) diff += JSON(idxts_t(x, log[x].us)) + '\t' + log[x].json + '\n';
      if (max_idx && next && n - 1 >= next + max_idx) accept = false;
      if (max_idx && !next && n > max_idx) {
        // What an empty follower is to get is not specified.
        continue;
      }
      if (max_head && head > h + max_head) accept = false;
      if (max_size && diff.size() > max_size) accept = false;
      if (head > h && (!n || head > log.back().us.count())) diff += "{\"us\":" + std::to_string(head) + "}\n";
    }
    const int c0 = canceled, s0 = started;
    const auto resp = HTTP(GET(url));
    const bool accepted = resp.code == HTTPResponseCode.OK;
    vh::Eval();
    vh::Count(accepted ? "flip_requests_accepted" : "flip_requests_refused");
    if (accepted != accept) {
      vh::Violation(accept ? "flip:req-refused" : "flip:req-accepted", d + " response " + resp.body.substr(0, 300));
      break;
    }
    if (accepted && resp.body != diff) vh::Violation("flip:req-diff", d + " got " + resp.body + " expected " + diff);
    if (accepted) {
      flipped = true;
      if (ctl->IsMasterStream()) vh::Violation("flip:req-still-master", d);
      for (int t = 0; t < 20000 && !finished; ++t) ::usleep(500);
      if (finished != 1) vh::Violation("flip:req-finished-callback", d);
    } else if (!flipped) {
      // The response may arrive before the state is restored.
      for (int t = 0; t < 20000 && (!ctl->IsMasterStream() || started - s0 != canceled - c0); ++t) ::usleep(500);
      if (!ctl->IsMasterStream()) vh::Violation("flip:req-refused-but-not-master", d);
      if (started - s0 != canceled - c0) vh::Violation("flip:req-canceled-callback", d);
      if (early && started != s0) vh::Violation("flip:req-started-callback", d);
      publish();
      if (s->Data()->Size() != log.size()) vh::Violation("flip:req-refused-but-cannot-publish", d);
      if (wrong_key && key_matters && !log.empty()) {
        // The right one, too soon.
        const auto resp2 = HTTP(GET(base + "?head=" + std::to_string(log.back().us.count()) + "&i=" + std::to_string(log.size() - 1) + "&key=" + std::to_string(key) + "&clock=" + std::to_string(current::time::Now().count())));
        if (resp2.code == HTTPResponseCode.OK || !ctl->IsMasterStream()) vh::Violation("flip:req-no-delay-after-wrong-key", d);
        vh::Count("wrong_keys");
      }
    }
    vh::Distinct(vh::hash_str(url.substr(base.size(), 30), n * 100 + accepted));
  }
  // Nothing but what was published is in the stream, whatever was requested.
  PrefixOf(s, log, what + " after flip requests", true);
  vh::Sample(what + " flip requests " + std::to_string(attempts) + (flipped ? " flipped" : " not flipped"));
  ctl = nullptr;
  ::unlink(file.c_str());
}

#if PARTS & 16
void Mode_flip() {
  vh::Rng r(vh::opt().seed);
  for (uint64_t c = 0; c < vh::opt().cases && !vh::TooMany(); ++c) {
    vh::perturb_level() = r.chance(20) ? 30 : static_cast<int>(r.below(4) * 3);
    using RMode = current::stream::ReplicationMode;
    switch (r.below(8)) {
      case 0: FlipCase<MemStream, RMode::Checked>(r, c, "mem RM:checked"); break;
      case 1: FlipCase<FileStream, RMode::Checked>(r, c, "file RM:checked"); break;
      case 2: FlipCase<MemStream, RMode::Unchecked>(r, c, "mem RM:unchecked"); break;
      case 3: FlipCase<FileStream, RMode::Unchecked>(r, c, "file RM:unchecked"); break;
      case 4: FlipRaceCase<MemStream>(r, c, "mem"); break;
      case 5: FlipRaceCase<FileStream>(r, c, "file"); break;
      case 6: FlipReqCase<MemStream>(r, c, "mem"); break;
      default: FlipReqCase<FileStream>(r, c, "file"); break;
    }
  }
}
#endif

void ReplModes(const std::string& m) {
#if PARTS & 16
  if (m == "flip") Mode_flip();
#endif
#if PARTS & 8
  if (m == "repl") Mode_repl();
  if (m == "chunks") Mode_chunks();
#endif
}
}  // namespace h
