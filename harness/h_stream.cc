// Streams: in-process subscribers (C05), HTTP range queries (C06), replication (C07), master flip (C08),
// shutdown with active subscribers (C38).
#include "stream/stream.h"
#include "stream/replicator.h"

#include <deque>

#include "vh.h"
// Which modes to compile in, to save on build time: 1 sub+destroy, 2 http, 4 live+shutdown, 8 repl+chunks, 16 flip.
#ifndef PARTS
#define PARTS 31
#endif
#include "vh_net.h"

namespace h {

using current::ss::EntryResponse;
using current::ss::TerminationResponse;
using us_t = std::chrono::microseconds;
using idxts_t = ::idxts_t;

CURRENT_STRUCT(SA) {
  CURRENT_FIELD(key, uint64_t, 0);
  CURRENT_FIELD(s, std::string);
};
CURRENT_STRUCT(SB) {
  CURRENT_FIELD(key, uint64_t, 0);
  CURRENT_FIELD(v, std::vector<int32_t>);
};
using E = current::Variant<SA, SB>;

using MemStream = current::stream::Stream<E, current::persistence::Memory>;
using FileStream = current::stream::Stream<E, current::persistence::File>;

std::string RandStr(vh::Rng& r, int max) {
  static const char* const kPieces[] = {"a", "Z", "\t", "\n", "\"", "\\", "#", "{", "}", "\r", "\xd0\xb9", " ", "0", "'", "\xf0\x9f\x8e\x89", "/", "head", "\x01"};
  std::string s;
  int n = static_cast<int>(r.below(max + 1));
  for (int i = 0; i < n; ++i) s += kPieces[r.below(sizeof(kPieces) / sizeof(kPieces[0]))];
  return s;
}

E MakeEntry(vh::Rng& r, uint64_t key) {
  if (r.chance(60)) {
    SA a;
    a.key = key;
    a.s = RandStr(r, r.chance(5) ? 400 : 12);
    return E(a);
  }
  SB b;
  b.key = key;
  for (uint64_t i = r.below(6); i > 0; --i) b.v.push_back(static_cast<int32_t>(r.next()));
  return E(b);
}
std::string J(const E& e) { return JSON(e); }
std::string JLine(const E& e, idxts_t it) { return JSON(it) + '\t' + JSON(e); }

struct LogEntry {
  std::string json;
  us_t us;
  bool is_a;
};

template <typename STREAM>
std::vector<LogEntry> Dump(STREAM&& s) {
  std::vector<LogEntry> r;
  for (const auto& e : s->Data()->Iterate()) {
    r.push_back({J(e.entry), e.idx_ts.us, Exists<SA>(e.entry)});
  }
  return r;
}

// ---------------------------------------------------------------- C05

struct Ev {
  enum Kind { Entry, Raw, Head, Term, Fallback } kind;
  uint64_t index;
  int64_t us;
  std::string text;
  uint64_t last_index;
  int64_t last_us;
};

struct SubState {
  std::mutex m;
  std::vector<Ev> log;
  std::atomic<bool> alive{true};
  std::atomic<uint64_t> entries{0};
  std::atomic<uint64_t> next_index{0};
  std::atomic<int64_t> last_us{-1};
  std::atomic<int> done_cb{0};
  std::atomic<int> after_death{0};
  std::atomic<int> concurrent{0};
  std::atomic<bool> said_done{false};
  uint64_t stop_after = ~0ull;      // Return Done after that many entries.
  bool wait_on_terminate = false;   // Return Wait from Terminate(); then Done once `stop_after` entries were seen.
  int slow_us = 0;
};

struct SubImpl {
  std::shared_ptr<SubState> st;
  explicit SubImpl(std::shared_ptr<SubState> st) : st(st) {}
  EntryResponse Rec(Ev&& ev, bool is_entry) {
    if (st->concurrent.fetch_add(1) != 0) vh::Violation("sub:concurrent-callbacks", "two callbacks of one subscriber at once");
    if (!st->alive) st->after_death++;
    if (st->said_done) vh::Violation("sub:callback-after-done", "a callback after the subscriber returned Done");
    EntryResponse resp = EntryResponse::More;
    {
      std::lock_guard<std::mutex> l(st->m);
      if (is_entry) st->next_index = ev.index + 1;
      st->last_us = ev.kind == Ev::Raw ? ParseJSON<idxts_t>(ev.text.substr(0, ev.text.find('\t'))).us.count() : std::max(st->last_us.load(), ev.us);
      st->log.push_back(std::move(ev));
    }
    if (is_entry && ++st->entries >= st->stop_after) {
      st->said_done = true;
      resp = EntryResponse::Done;
    }
    if (st->slow_us) ::usleep(st->slow_us);
    st->concurrent.fetch_sub(1);
    return resp;
  }
  EntryResponse operator()(const E& e, idxts_t cur, idxts_t last) {
    return Rec({Ev::Entry, cur.index, cur.us.count(), J(e), last.index, last.us.count()}, true);
  }
  EntryResponse operator()(const std::string& raw, uint64_t idx, idxts_t last) {
    return Rec({Ev::Raw, idx, 0, raw, last.index, last.us.count()}, true);
  }
  EntryResponse operator()(us_t us) { return Rec({Ev::Head, 0, us.count(), "", 0, 0}, false); }
  EntryResponse EntryResponseIfNoMorePassTypeFilter() const { return EntryResponse::More; }
  TerminationResponse Terminate() {
    Rec({Ev::Term, 0, 0, "", 0, 0}, false);
    return st->wait_on_terminate ? TerminationResponse::Wait : TerminationResponse::Terminate;
  }
};
using Sub = current::ss::StreamSubscriber<SubImpl, E>;

struct SubAImpl : SubImpl {
  using SubImpl::SubImpl;
  using SubImpl::operator();
  EntryResponse operator()(const SA& a, idxts_t cur, idxts_t last) {
    return Rec({Ev::Entry, cur.index, cur.us.count(), J(E(a)), last.index, last.us.count()}, true);
  }
};
using SubA = current::ss::StreamSubscriber<SubAImpl, SA>;

enum Kind { Checked, Unchecked, Filtered };

// The offline checker of one subscriber's event log against the final log of the stream.
void CheckSub(const std::vector<LogEntry>& log, const std::vector<int64_t>& heads, Kind kind, uint64_t begin, const SubState& st,
              bool must_have_all, const std::string& desc) {
  uint64_t next = begin;  // The next index to be delivered.
  int64_t last_us = -1;
  int terms = 0;
  uint64_t prev_last = 0;
  bool any_last = false;
  auto skip_filtered = [&]() {
    if (kind == Filtered) {
      while (next < log.size() && !log[next].is_a) ++next;
    }
  };
  for (const Ev& ev : st.log) {
    if (ev.kind == Ev::Term) {
      ++terms;
      continue;
    }
    if (terms && !st.wait_on_terminate) {
      vh::Violation("sub:callback-after-terminate", desc);
    }
    if (ev.kind == Ev::Head) {
      vh::Count("head_callbacks");
      if (ev.us <= last_us) vh::Violation("sub:head-not-increasing", desc + " head " + std::to_string(ev.us) + " after " + std::to_string(last_us));
      last_us = ev.us;
      // Everything at or before this head must have been delivered.
      uint64_t n = next;
      while (n < log.size() && log[n].us.count() <= ev.us) {
        if (kind != Filtered || log[n].is_a) {
          vh::Violation("sub:head-ahead-of-entry", desc + " head " + std::to_string(ev.us) + " before entry " + std::to_string(n));
          break;
        }
        ++n;
      }
      if (!std::binary_search(heads.begin(), heads.end(), ev.us)) {
        vh::Violation("sub:head-never-published", desc + " head " + std::to_string(ev.us));
      }
      continue;
    }
    vh::Count("entry_callbacks");
    skip_filtered();
    if (ev.index != next) {
      vh::Violation(ev.index < next ? "sub:duplicate-or-reordered" : "sub:gap",
                    desc + " got index " + std::to_string(ev.index) + " expected " + std::to_string(next));
      return;
    }
    if (next >= log.size()) {
      vh::Violation("sub:beyond-end", desc);
      return;
    }
    const LogEntry& e = log[next];
    const std::string expect = ev.kind == Ev::Raw ? JSON(idxts_t(next, e.us)) + '\t' + e.json : e.json;
    if (ev.text != expect) vh::Violation("sub:payload", desc + " index " + std::to_string(next) + " got " + ev.text + " expected " + expect);
    if (ev.kind == Ev::Entry && ev.us != e.us.count()) vh::Violation("sub:timestamp", desc);
    if (e.us.count() <= last_us) vh::Violation("sub:entry-behind-head", desc + " index " + std::to_string(next) + " us " + std::to_string(e.us.count()) + " after head " + std::to_string(last_us));
    last_us = e.us.count();
    if (ev.last_index < next) vh::Violation("sub:last-behind-current", desc);
    if (ev.last_index >= log.size() || ev.last_us != log[ev.last_index].us.count()) vh::Violation("sub:last-wrong", desc);
    if (any_last && ev.last_index < prev_last) vh::Violation("sub:last-decreasing", desc);
    any_last = true;
    prev_last = ev.last_index;
    ++next;
  }
  if (terms > 1) vh::Violation("sub:terminate-twice", desc);
  skip_filtered();
  if (must_have_all && next < log.size()) {
    vh::Violation("sub:missing", desc + " stopped at " + std::to_string(next) + " of " + std::to_string(log.size()));
  }
  if (st.done_cb != 1) vh::Violation("sub:done-callback-count", desc + " n=" + std::to_string(st.done_cb.load()));
  if (st.after_death) vh::Violation("sub:callback-after-scope", desc);
}

template <typename STREAM, typename... A>
void SubCase(vh::Rng& r, const std::string& what, A&&... args) {
  auto s = STREAM::CreateStream(std::forward<A>(args)...);
  std::atomic<uint64_t> key{0};
  std::mutex heads_m;
  std::vector<int64_t> heads;
  auto update_head = [&](int64_t explicit_us) {
    if (explicit_us) {
      try {
        s->Publisher()->UpdateHead(us_t(explicit_us));
        std::lock_guard<std::mutex> l(heads_m);
        heads.push_back(explicit_us);
      } catch (const current::Exception&) {
      }
    } else {
      s->Publisher()->UpdateHead();
      const int64_t h = s->Data()->CurrentHead().count();
      std::lock_guard<std::mutex> l(heads_m);
      heads.push_back(h);
    }
  };
  bool auto_heads = false;
  const int prefill = static_cast<int>(r.below(25));
  for (int i = 0; i < prefill; ++i) {
    if (r.chance(20)) update_head(current::time::Now().count());
    s->Publisher()->Publish(MakeEntry(r, key++));
  }
  const int npub = static_cast<int>(r.below(4));
  const int per = static_cast<int>(r.range(5, 50));
  // With one publisher the heads can be given explicitly, hence be exactly known.
  const bool know_heads = npub <= 1;
  (void)auto_heads;
  struct One {
    Kind kind;
    uint64_t begin;
    bool run_to_end;
    std::shared_ptr<SubState> st;
    std::unique_ptr<Sub> sub;
    std::unique_ptr<SubA> suba;
    std::unique_ptr<current::stream::SubscriberScope> scope;
    int start_delay, stop_delay;
    std::string desc;
  };
  const int nsub = static_cast<int>(r.range(1, 4));
  std::vector<One> subs(nsub);
  const uint64_t total_planned = prefill + npub * per;
  for (int i = 0; i < nsub; ++i) {
    One& o = subs[i];
    o.kind = static_cast<Kind>(r.below(3));
    o.begin = r.chance(40) ? 0 : r.below(prefill + (r.chance(20) ? total_planned + 3 : 2));
    if (r.chance(20)) o.begin = prefill;
    o.st = std::make_shared<SubState>();
    o.run_to_end = r.chance(55);
    if (r.chance(25)) o.st->slow_us = static_cast<int>(r.below(300));
    if (!o.run_to_end) {
      if (r.chance(50)) o.st->stop_after = 1 + r.below(total_planned + 1);
    }
    if (o.kind != Filtered && o.begin < total_planned && r.chance(20)) {
      // Terminated early, yet asks to wait: must still get all it wants.
      o.run_to_end = false;
      o.st->wait_on_terminate = true;
      o.st->stop_after = 1 + r.below(total_planned - o.begin);
    }
    o.start_delay = r.chance(40) ? 0 : static_cast<int>(r.below(3000));
    o.stop_delay = static_cast<int>(r.below(r.chance(30) ? 200 : 6000));
    o.desc = what + " kind=" + std::to_string(o.kind) + " begin=" + std::to_string(o.begin) + " prefill=" + std::to_string(prefill) +
             " pubs=" + std::to_string(npub) + "x" + std::to_string(per) + " stop_after=" + std::to_string(o.st->stop_after) +
             (o.st->wait_on_terminate ? " wait" : "") + (o.run_to_end ? " to-end" : "");
  }
  const int head_pct = static_cast<int>(r.below(40));
  std::atomic<bool> pubs_done{false};
  std::vector<std::thread> pubs;
  const bool burst = r.chance(40);
  for (int p = 0; p < npub; ++p) {
    pubs.emplace_back([&, rr = r.fork()]() mutable {
      for (int i = 0; i < per; ++i) {
        if (rr.chance(head_pct)) update_head(know_heads ? current::time::Now().count() : 0);
        s->Publisher()->Publish(MakeEntry(rr, key++));
        if (!burst && rr.chance(30)) ::usleep(rr.below(200));
      }
      if (rr.chance(50)) update_head(know_heads ? current::time::Now().count() : 0);
    });
  }
  std::vector<std::thread> runners;
  for (int i = 0; i < nsub; ++i) {
    runners.emplace_back([&, i]() {
      One& o = subs[i];
      if (o.start_delay) ::usleep(o.start_delay);
      auto st = o.st;
      const auto cb = [st]() {
        if (!st->alive) st->after_death++;
        st->done_cb++;
      };
      if (o.kind == Filtered) {
        o.suba = std::make_unique<SubA>(st);
        o.scope = std::make_unique<current::stream::SubscriberScope>(s->template Subscribe<SA>(*o.suba, o.begin, us_t(0), cb));
      } else {
        o.sub = std::make_unique<Sub>(st);
        if (o.kind == Checked) {
          o.scope = std::make_unique<current::stream::SubscriberScope>(s->Subscribe(*o.sub, o.begin, us_t(0), cb));
        } else {
          o.scope = std::make_unique<current::stream::SubscriberScope>(s->SubscribeUnchecked(*o.sub, o.begin, us_t(0), cb));
        }
      }
      if (o.run_to_end) {
        while (!pubs_done) ::usleep(200);
        // All of the entries it wants must arrive w/o anything else happening.
        uint64_t want = s->Data()->Size();
        uint64_t last_wanted = o.begin;
        {
          uint64_t k = 0;
          for (const auto& e : s->Data()->Iterate()) {
            if (k >= o.begin && (o.kind != Filtered || Exists<SA>(e.entry))) last_wanted = k + 1;
            ++k;
          }
        }
        if (last_wanted > o.begin && last_wanted <= want) {
          for (int t = 0; t < 150000 && o.st->next_index < last_wanted; ++t) ::usleep(200);
        }
        // So must the head, unless it is that of the last entry, and this entry is not of the type asked for.
        const int64_t head = s->Data()->CurrentHead().count();
        if (o.begin <= want && (o.kind != Filtered || !want || head > s->Data()->LastPublishedIndexAndTimestamp().us.count())) {
          for (int t = 0; t < 100000 && o.st->last_us < head; ++t) ::usleep(200);
          if (o.st->last_us < head) {
            vh::Violation("sub:head-not-delivered", o.desc + " head " + std::to_string(head) + " last " + std::to_string(o.st->last_us.load()));
          }
          vh::Count("final_heads_delivered");
        }
      } else {
        ::usleep(o.stop_delay);
        if (st->wait_on_terminate) {
          // The destructor below may only return when the subscriber said `Done`.
        }
      }
      o.scope = nullptr;
      st->alive = false;
      if (st->wait_on_terminate && st->entries < st->stop_after) {
        vh::Violation("sub:wait-not-respected", o.desc + " got " + std::to_string(st->entries.load()));
      }
      o.sub = nullptr;
      o.suba = nullptr;
    });
  }
  for (auto& t : pubs) t.join();
  if (r.chance(50)) {
    // Nothing but this head, with no entry to come along.
    ::usleep(static_cast<int>(r.below(4000)));
    update_head(know_heads ? current::time::Now().count() : 0);
  }
  pubs_done = true;
  for (auto& t : runners) t.join();
  const auto log = Dump(s);
  if (log.size() != total_planned) vh::Violation("sub:log-size", what);
  std::vector<int64_t> h = heads;
  for (const auto& e : log) h.push_back(e.us.count());  // The head is that of the last entry to begin with.
  std::sort(h.begin(), h.end());
  for (One& o : subs) {
    std::vector<int64_t> hh = h;
    if (!know_heads) {
      // The exact values are not known to the harness then: accept any.
      for (const auto& ev : o.st->log) {
        if (ev.kind == Ev::Head) hh.push_back(ev.us);
      }
      std::sort(hh.begin(), hh.end());
    }
    CheckSub(log, hh, o.kind, o.begin, *o.st, o.run_to_end, o.desc);
    vh::Eval();
    uint64_t hsh = 17;
    for (const auto& ev : o.st->log) {
      hsh = vh::hash_mix(hsh, ev.kind * 1000003 + ev.last_index - ev.index);
    }
    if (!o.st->log.empty()) vh::Distinct(hsh);
    if (o.st->log.size() > 20) vh::Sample(o.desc + " callbacks=" + std::to_string(o.st->log.size()));
  }
}

#if PARTS & 1
void Mode_sub() {
  vh::Rng r(vh::opt().seed);
  for (uint64_t c = 0; c < vh::opt().cases && !vh::TooMany(); ++c) {
    vh::Case("case=" + std::to_string(c));
    vh::perturb_level() = static_cast<int>(r.below(4) * 3);
    if (r.chance(50)) {
      SubCase<MemStream>(r, "mem");
    } else {
      const std::string fn = vh::opt().scratch + "/s" + std::to_string(c);
      SubCase<FileStream>(r, "file", fn);
      ::unlink(fn.c_str());
    }
  }
}

// The stream is destroyed while subscribers are active and publishers hold borrowed publishers.
template <typename STREAM, typename... A>
void DestroyCase(vh::Rng& r, const std::string& what, A&&... args) {
  auto s = std::make_unique<current::Owned<STREAM>>(STREAM::CreateStream(std::forward<A>(args)...));
  const int prefill = static_cast<int>(r.below(20));
  for (int i = 0; i < prefill; ++i) (*s)->Publisher()->Publish(MakeEntry(r, i));
  const int nsub = static_cast<int>(r.range(1, 4));
  std::vector<std::shared_ptr<SubState>> sts;
  std::vector<std::unique_ptr<Sub>> subs;
  std::vector<std::unique_ptr<current::stream::SubscriberScope>> scopes;
  for (int i = 0; i < nsub; ++i) {
    auto st = std::make_shared<SubState>();
    sts.push_back(st);
    subs.push_back(std::make_unique<Sub>(st));
    const auto cb = [st]() { st->done_cb++; };
    if (r.chance(50)) {
      scopes.push_back(std::make_unique<current::stream::SubscriberScope>((*s)->Subscribe(*subs.back(), r.below(prefill + 2), us_t(0), cb)));
    } else {
      scopes.push_back(std::make_unique<current::stream::SubscriberScope>((*s)->SubscribeUnchecked(*subs.back(), r.below(prefill + 2), us_t(0), cb)));
    }
  }
  std::atomic<bool> destroyed{false};
  const int delay = static_cast<int>(r.below(2000));
  std::vector<int> early(nsub, -1);
  for (auto& e : early) {
    if (r.chance(50)) e = r.chance(70) ? delay + static_cast<int>(r.below(150)) : static_cast<int>(r.below(2000));
  }
  std::thread destroyer([&, d = delay]() {
    ::usleep(d);
    s = nullptr;
    destroyed = true;
  });
  // Each subscriber must be told to terminate, and then releases its scope.
  std::vector<std::thread> rel;
  for (int i = 0; i < nsub; ++i) {
    rel.emplace_back([&, i]() {
      if (early[i] >= 0) {
        // Released regardless of the destruction, thus possibly at the very same time.
        ::usleep(early[i]);
      } else {
        for (int t = 0; t < 150000; ++t) {
          if (!static_cast<bool>(*scopes[i])) break;
          ::usleep(100);
        }
        if (static_cast<bool>(*scopes[i])) vh::Violation("destroy:subscriber-not-terminated", what);
      }
      if (destroyed) vh::Violation("destroy:stream-destroyed-under-subscriber", what);
      scopes[i] = nullptr;
      sts[i]->alive = false;
    });
  }
  for (auto& t : rel) t.join();
  destroyer.join();
  for (auto& st : sts) {
    if (st->done_cb != 1) vh::Violation("destroy:done-callback-count", what);
    if (st->after_death) vh::Violation("destroy:callback-after-scope", what);
    int terms = 0;
    for (auto& ev : st->log) terms += ev.kind == Ev::Term;
    if (terms != 1) vh::Violation("destroy:terminate-count", what + " n=" + std::to_string(terms));
    vh::Distinct(vh::hash_mix(prefill * 31 + nsub, st->log.size()));
    vh::Eval();
  }
}

void Mode_destroy() {
  vh::Rng r(vh::opt().seed);
  for (uint64_t c = 0; c < vh::opt().cases && !vh::TooMany(); ++c) {
    vh::Case("case=" + std::to_string(c));
    vh::perturb_level() = static_cast<int>(r.below(4) * 3);
    if (r.chance(60)) {
      DestroyCase<MemStream>(r, "mem");
    } else {
      const std::string fn = vh::opt().scratch + "/d" + std::to_string(c);
      DestroyCase<FileStream>(r, "file", fn);
      ::unlink(fn.c_str());
    }
  }
}
#endif

}  // namespace h

#if PARTS & 6
#include "h_stream_http.inc"
#endif
#if PARTS & 24
#include "h_stream_repl.inc"
#endif

int main(int argc, char** argv) {
  return vh::Main(argc, argv, []() {
    const std::string& m = vh::opt().mode;
#if PARTS & 1
    if (m == "sub") h::Mode_sub();
    if (m == "destroy") h::Mode_destroy();
#endif
#if PARTS & 6
    h::HttpModes(m);
#endif
#if PARTS & 24
    h::ReplModes(m);
#endif
  });
}
