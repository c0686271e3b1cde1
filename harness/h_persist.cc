// Persistence layer: model-based sequential monitor, concurrent history monitor, crash/torn-write monitor.
#include "vh.h"

#include <fstream>
#include <sstream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <signal.h>

#include "blocks/persistence/memory.h"
#include "blocks/persistence/file.h"
#include "typesystem/variant.h"

using namespace current;
using std::chrono::microseconds;

CURRENT_STRUCT(PEntry) {
  CURRENT_FIELD(k, uint64_t, 0);
  CURRENT_FIELD(s, std::string);
  CURRENT_FIELD(o, Optional<uint64_t>);
  CURRENT_CONSTRUCTOR(PEntry)(uint64_t k = 0, const std::string& s = "") : k(k), s(s) {
    if (k % 3) o = k;
  }
};
CURRENT_STRUCT(PAlt) {
  CURRENT_FIELD(a, int64_t, 0);
  CURRENT_CONSTRUCTOR(PAlt)(int64_t a = 0) : a(a) {}
};
CURRENT_VARIANT(PVar, PEntry, PAlt);

using MemP = persistence::Memory<PEntry>;
using FileP = persistence::File<PEntry>;

static const ss::StreamNamespaceName kNS("ns", "entry");

static std::string RandStr(vh::Rng& r, int maxlen) {
  std::string s;
  const int n = static_cast<int>(r.below(maxlen + 1));
  for (int i = 0; i < n; ++i) {
    switch (r.below(8)) {
      case 0: s += "\n\t\"\\#{}"[r.below(7)]; break;
      case 1: s += "\xd0\x96"; break;
      default: s += static_cast<char>('a' + r.below(26));
    }
  }
  return s;
}

struct MEntry {
  int64_t us;
  uint64_t k;
  std::string s;
};
struct Model {
  std::vector<MEntry> e;
  int64_t head = -1;
};

static std::string Raw(uint64_t i, const MEntry& e) {
  return JSON(idxts_t(i, microseconds(e.us))) + '\t' + JSON(PEntry(e.k, e.s));
}

template <typename P>
static void CheckState(P& p, const Model& m, const std::string& when) {
  VH_CHECK(p.Size() == m.e.size(), "persist:size", when + " size=" + std::to_string(p.Size()) + " want=" + std::to_string(m.e.size()));
  VH_CHECK(p.Empty() == m.e.empty(), "persist:empty", when);
  VH_CHECK(p.CurrentHead().count() == m.head, "persist:head", when + " head=" + std::to_string(p.CurrentHead().count()) + " want=" + std::to_string(m.head));
  const auto h = p.HeadAndLastPublishedIndexAndTimestamp();
  VH_CHECK(h.head.count() == m.head, "persist:head2", when);
  VH_CHECK(Exists(h.idxts) == !m.e.empty(), "persist:headidx", when);
  if (Exists(h.idxts) && !m.e.empty()) {
    VH_CHECK(Value(h.idxts).index == m.e.size() - 1 && Value(h.idxts).us.count() == m.e.back().us, "persist:headidx2", when + " " + JSON(h));
  }
  bool threw = false;
  try {
    const auto l = p.LastPublishedIndexAndTimestamp();
    VH_CHECK(!m.e.empty() && l.index == m.e.size() - 1 && l.us.count() == m.e.back().us, "persist:last", when + " " + JSON(l));
  } catch (const persistence::NoEntriesPublishedYet&) {
    threw = true;
  }
  VH_CHECK(threw == m.e.empty(), "persist:last-throw", when);
}

template <typename RANGE>
static void CompareSafe(RANGE&& range, const Model& m, uint64_t b, uint64_t e, const std::string& what) {
  uint64_t i = b;
  for (const auto& x : range) {
    if (i >= e || i >= m.e.size()) {
      vh::Violation("iterate:extra", what + " yields more than [" + std::to_string(b) + "," + std::to_string(e) + ")");
      return;
    }
    if (!(x.idx_ts.index == i && x.idx_ts.us.count() == m.e[i].us && x.entry.k == m.e[i].k && x.entry.s == m.e[i].s)) {
      vh::Violation("iterate:wrong", what + " at " + std::to_string(i) + " got " + JSON(x.idx_ts) + JSON(x.entry) + " want " + Raw(i, m.e[i]));
      return;
    }
    ++i;
  }
  VH_CHECK(i == std::max(b, e) || (b == e && i == b), "iterate:short", what + " stopped at " + std::to_string(i) + " of [" + std::to_string(b) + "," + std::to_string(e) + ")");
}
template <typename RANGE>
static void CompareUnsafe(RANGE&& range, const Model& m, uint64_t b, uint64_t e, const std::string& what) {
  uint64_t i = b;
  for (const auto& x : range) {
    if (i >= e || i >= m.e.size()) {
      vh::Violation("iterate-unsafe:extra", what);
      return;
    }
    const std::string want = Raw(i, m.e[i]);
    if (x != want) {
      vh::Violation("iterate-unsafe:wrong", what + " got " + x + " want " + want);
      return;
    }
    ++i;
  }
  VH_CHECK(i == std::max(b, e), "iterate-unsafe:short", what);
}

template <typename P>
static void CheckRanges(P& p, const Model& m, vh::Rng& r, bool file) {
  const uint64_t n = m.e.size();
  auto pick = [&]() -> uint64_t { return r.chance(15) ? n + r.below(3) : r.below(n + 1); };
  uint64_t b = pick(), e = r.chance(25) ? static_cast<uint64_t>(-1) : pick();
  const bool open = e == static_cast<uint64_t>(-1);
  const uint64_t ee = open ? n : e;
  const bool must_throw = ee > n || (b != ee && (b >= n || ee < b));
  const std::string what = "Iterate(" + std::to_string(b) + "," + (open ? "end" : std::to_string(e)) + ") size=" + std::to_string(n);
  for (int unsafe = 0; unsafe < 2; ++unsafe) {
    bool threw = false;
    try {
      if (unsafe) CompareUnsafe(p.IterateUnsafe(b, e), m, b == ee ? 0 : b, b == ee ? 0 : ee, what);
      else CompareSafe(p.Iterate(b, e), m, b == ee ? 0 : b, b == ee ? 0 : ee, what);
    } catch (const persistence::InvalidIterableRangeException&) {
      threw = true;
    }
    VH_CHECK(threw == must_throw, "iterate:throw", what + (threw ? " threw" : " did not throw"));
  }
  vh::Distinct(vh::hash_mix(vh::hash_mix(b, e), n * 2 + file));

  // Timestamp ranges: around the existing timestamps, and in between them.
  auto pickus = [&]() -> int64_t {
    if (n && r.chance(80)) return std::max<int64_t>(1, m.e[r.below(n)].us + r.range(-2, 2));
    return 1 + static_cast<int64_t>(r.below(static_cast<uint64_t>(std::max<int64_t>(m.head, 1)) + 20));
  };
  const int64_t from = pickus();
  const bool topen = r.chance(30);
  const int64_t till = topen ? -1 : pickus();
  uint64_t wb = 0;
  while (wb < n && m.e[wb].us < from) ++wb;
  uint64_t we = wb;
  while (we < n && (topen || m.e[we].us <= till)) ++we;
  const std::string tw = "IterateUS(" + std::to_string(from) + "," + std::to_string(till) + ")";
  const bool tthrow = !topen && till < from;
  for (int unsafe = 0; unsafe < 2; ++unsafe) {
    bool threw = false;
    try {
      if (unsafe) CompareUnsafe(p.IterateUnsafe(microseconds(from), microseconds(till)), m, wb == we ? 0 : wb, wb == we ? 0 : we, tw);
      else CompareSafe(p.Iterate(microseconds(from), microseconds(till)), m, wb == we ? 0 : wb, wb == we ? 0 : we, tw);
    } catch (const persistence::InvalidIterableRangeException&) {
      threw = true;
    }
    VH_CHECK(threw == tthrow, "iterate-us:throw", tw + (threw ? " threw" : " did not throw"));
  }
  if (!tthrow) {
    const auto ir = p.IndexRangeByTimestampRange(microseconds(from), microseconds(till));
    uint64_t w1 = wb < n ? wb : static_cast<uint64_t>(-1);
    uint64_t w2 = static_cast<uint64_t>(-1);
    if (!topen) {
      uint64_t k = 0;
      while (k < n && m.e[k].us <= till) ++k;
      if (k < n) w2 = k;
    }
    VH_CHECK(ir.first == w1 && ir.second == w2, "index-range", tw + " got " + std::to_string(ir.first) + "," + std::to_string(ir.second) + " want " + std::to_string(w1) + "," + std::to_string(w2));
  }
  vh::Distinct(vh::hash_mix(vh::hash_mix(static_cast<uint64_t>(from), static_cast<uint64_t>(till)), n));
  vh::Eval(5);
  vh::Count("ranges_checked", 2);
}

template <typename P>
static void RandomOp(P& p, Model& m, vh::Rng& r) {
  const uint64_t op = r.below(100);
  const std::string pre = "op" + std::to_string(op);
  if (op < 45) {
    const int64_t us = m.head + 1 + static_cast<int64_t>(r.chance(50) ? 0 : r.below(20));
    MEntry e{us, r.next() % 1000, RandStr(r, 12)};
    const auto it = p.Publish(PEntry(e.k, e.s), microseconds(us));
    VH_CHECK(it.index == m.e.size() && it.us.count() == us, "publish:idxts", JSON(it));
    m.e.push_back(e);
    m.head = us;
  } else if (op < 55) {
    // A stale timestamp: must be rejected with no effect.
    const int64_t us = m.head - static_cast<int64_t>(r.below(10));
    bool threw = false;
    try {
      p.Publish(PEntry(1, "stale"), microseconds(us));
    } catch (const ss::InconsistentTimestampException&) {
      threw = true;
    }
    VH_CHECK(threw, "publish:stale-accepted", "us=" + std::to_string(us) + " head=" + std::to_string(m.head));
  } else if (op < 70) {
    const int64_t us = m.head + 1 + static_cast<int64_t>(r.below(15));
    MEntry e{us, r.next() % 1000, RandStr(r, 12)};
    const int bad = static_cast<int>(r.below(std::is_same_v<P, MemP> ? 6 : 5));  // Only in memory are the entries parsed.
    uint64_t idx = m.e.size();
    std::string line;
    bool threw = false;
    try {
      if (bad == 0) idx += r.chance(50) ? 1 : static_cast<uint64_t>(-1);
      if (bad == 1) e.us = m.head - static_cast<int64_t>(r.below(5));
      line = Raw(idx, e);
      if (bad == 2) line[line.find('\t')] = ' ';
      if (bad == 5) line.resize(line.find('\t') + 1 + r.below(line.length() - line.find('\t') - 1));
      const auto it = p.template PersisterPublishUnsafeImpl<current::locks::MutexLockStatus::NeedToLock>(line);
      VH_CHECK(it.index == idx && it.us.count() == e.us, "publish-unsafe:idxts", JSON(it));
    } catch (const Exception&) {
      threw = true;
    }
    VH_CHECK(threw == (bad <= 2 || bad == 5), "publish-unsafe:throw", "bad=" + std::to_string(bad) + " line=" + line);
    if (!threw) {
      m.e.push_back(e);
      m.head = e.us;
    }
  } else if (op < 90) {
    const bool stale = r.chance(25);
    const int64_t us = stale ? m.head - static_cast<int64_t>(r.below(5)) : m.head + 1 + static_cast<int64_t>(r.below(30));
    bool threw = false;
    try {
      p.UpdateHead(microseconds(us));
    } catch (const ss::InconsistentTimestampException&) {
      threw = true;
    }
    VH_CHECK(threw == stale, "updatehead:throw", "us=" + std::to_string(us) + " head=" + std::to_string(m.head));
    if (!stale) m.head = us;
  } else {
    // Hold an iterator while more entries and head directives get published.
    if (m.e.size() >= 2) {
      const uint64_t b = r.below(m.e.size() - 1), e = b + 1 + r.below(m.e.size() - b);
      auto range = p.Iterate(b, e);
      auto range2 = p.IterateUnsafe(b, e);
      auto it = range.begin();
      auto it2 = range2.begin();
      uint64_t i = b;
      while (it != range.end()) {
        {
          const auto x = *it;
          VH_CHECK(x.idx_ts.index == i && x.entry.k == m.e[i].k && x.entry.s == m.e[i].s, "iterate:held", JSON(x.idx_ts));
          const std::string s = *it2;
          VH_CHECK(s == Raw(i, m.e[i]), "iterate:held-unsafe", s + " want " + Raw(i, m.e[i]));
        }
        if (r.chance(50)) {
          const int64_t us = m.head + 1;
          p.UpdateHead(microseconds(us));
          m.head = us;
        }
        if (r.chance(30)) {
          const int64_t us = m.head + 1;
          p.Publish(PEntry(7, "held"), microseconds(us));
          m.e.push_back({us, 7, "held"});
          m.head = us;
        }
        ++it;
        ++it2;
        ++i;
      }
      VH_CHECK(i == e, "iterate:held-short", std::to_string(i));
      VH_CHECK(!(it2 != range2.end()), "iterate:held-unsafe-short", "");
      // Random access: skipping records.
      auto it3 = range2.begin();
      uint64_t j = b;
      while (it3 != range2.end()) {
        if (r.chance(50)) {
          const std::string s = *it3;
          VH_CHECK(s == Raw(j, m.e[j]), "iterate:skip-unsafe", s);
        }
        ++it3;
        ++j;
      }
    }
  }
  vh::Eval();
  vh::Count("ops");
}

static std::string ReadFile(const std::string& fn) {
  std::ifstream f(fn, std::ios::binary);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}
static void WriteFile(const std::string& fn, const std::string& s) {
  std::ofstream f(fn, std::ios::binary | std::ios::trunc);
  f << s;
}

static void SeqMem(uint64_t seed) {
  vh::Rng r(seed);
  std::mutex mu;
  MemP p(mu, kNS);
  Model m;
  const int ops = static_cast<int>(4 + r.below(30));
  for (int i = 0; i < ops; ++i) {
    RandomOp(p, m, r);
    CheckState(p, m, "mem");
    if (r.chance(60)) CheckRanges(p, m, r, false);
  }
}

static void SeqFile(uint64_t seed, bool reopen_heavy) {
  vh::Rng r(seed);
  const std::string fn = vh::opt().scratch + "/p" + std::to_string(seed) + ".log";
  std::mutex mu;
  auto p = std::make_unique<FileP>(mu, kNS, fn);
  Model m;
  const int ops = static_cast<int>(4 + r.below(30));
  for (int i = 0; i < ops; ++i) {
    RandomOp(*p, m, r);
    CheckState(*p, m, "file");
    if (r.chance(50)) CheckRanges(*p, m, r, true);
    if (r.chance(reopen_heavy ? 40 : 10)) {
      p = nullptr;
      if (r.chance(40)) {
        // Other directives, of any length, are skipped wherever they are.
        std::string with, line;
        std::istringstream is(ReadFile(fn));
        while (std::getline(is, line)) {
          with += line + "\n";
          if (r.chance(15)) with += (r.chance(50) ? "#note " : "#") + std::string(r.below(r.chance(20) ? 5000 : 100), "x# \t{"[r.below(5)]) + "\n";
        }
        WriteFile(fn, with);
      }
      const std::string before = ReadFile(fn);
      p = std::make_unique<FileP>(mu, kNS, fn);
      VH_CHECK(ReadFile(fn) == before, "reopen:modifies-file", "opening a healthy file changed it: " + before.substr(0, 300));
      CheckState(*p, m, "reopen");
      CheckRanges(*p, m, r, true);
      vh::Count("reopens");
      vh::Eval();
    }
  }
  if (reopen_heavy) {
    p = nullptr;
    const std::string golden = ReadFile(fn);
    // The log holds, in order, exactly one line per entry; the rest are directives.
    {
      std::istringstream is(golden);
      std::string line;
      uint64_t i = 0;
      while (std::getline(is, line)) {
        if (!line.empty() && line[0] == '#') continue;
        VH_CHECK(i < m.e.size() && line == Raw(i, m.e[i]), "log:line", line);
        ++i;
      }
      VH_CHECK(i == m.e.size(), "log:count", std::to_string(i));
    }
    // Foreign signature, foreign type.
    bool threw = false;
    try {
      FileP q(mu, ss::StreamNamespaceName("other", "entry"), fn);
    } catch (const persistence::InvalidStreamSignature&) {
      threw = true;
    }
    VH_CHECK(threw, "signature:namespace", "foreign namespace accepted");
    threw = false;
    try {
      persistence::File<PVar> q(mu, kNS, fn);
    } catch (const persistence::InvalidStreamSignature&) {
      threw = true;
    }
    VH_CHECK(threw, "signature:type", "foreign entry type accepted");
    // Corruptions of whole lines must be refused.
    if (m.e.size() >= 3) {
      std::vector<std::string> lines;
      std::istringstream is(golden);
      std::string line;
      while (std::getline(is, line)) lines.push_back(line);
      std::vector<size_t> data;
      for (size_t i = 0; i < lines.size(); ++i)
        if (lines[i][0] != '#') data.push_back(i);
      auto bad = lines;
      const size_t x = r.below(data.size() - 1);
      std::string kind;
      switch (r.below(4)) {
        case 0: kind = "swap"; std::swap(bad[data[x]], bad[data[x + 1]]); break;
        case 1: kind = "drop"; bad.erase(bad.begin() + data[x]); break;
        case 2: kind = "dup"; bad.insert(bad.begin() + data[x], bad[data[x]]); break;
        default: {
          kind = "timestamp";
          auto e = m.e[x + 1];
          e.us = m.e[x].us - static_cast<int64_t>(r.below(3));
          bad[data[x + 1]] = Raw(x + 1, e);
        }
      }
      std::string joined;
      for (const auto& l : bad) joined += l + "\n";
      WriteFile(fn, joined);
      threw = false;
      try {
        FileP q(mu, kNS, fn);
      } catch (const Exception&) {
        threw = true;
      }
      VH_CHECK(threw, "corrupt:accepted-" + kind, joined.substr(0, 1000));
      VH_CHECK(ReadFile(fn) == joined, "corrupt:modified-" + kind, "refusing to open changed the file");
      vh::Count("corruptions_refused");
      vh::Eval(3);
    }
  }
  p = nullptr;
  ::unlink(fn.c_str());
}

// Publishing an entry which can not be serialized must leave no trace.
static void SeqThrow(uint64_t seed) {
  vh::Rng r(seed);
  const std::string fn = vh::opt().scratch + "/t" + std::to_string(seed) + ".log";
  std::mutex mu;
  {
    persistence::File<PVar> p(mu, kNS, fn);
    uint64_t n = 0;
    int64_t us = 0;
    for (int i = 0; i < 6; ++i) {
      if (r.chance(40)) {
        PVar empty;
        bool threw = false;
        try {
          p.Publish(empty, microseconds(us + 1));
        } catch (const Exception&) {
          threw = true;
        }
        VH_CHECK(threw, "throwing:accepted", "an uninitialized variant was published");
        VH_CHECK(p.Size() == n, "throwing:size", "failed publish changed the size");
      } else {
        PVar v;
        if (r.chance(50)) v = PAlt(i);
        else v = PEntry(i, "x");
        us += 1 + static_cast<int64_t>(r.below(3));
        const auto t = p.Publish(v, microseconds(us));
        VH_CHECK(t.index == n, "throwing:index", JSON(t));
        ++n;
      }
    }
    uint64_t c = 0;
    try {
      for (const auto& e : p.Iterate()) {
        VH_CHECK(e.idx_ts.index == c, "throwing:iterate", "");
        ++c;
      }
    } catch (const Exception& e) {
      vh::Violation("throwing:iterate-throws", e.OriginalDescription());
    }
    VH_CHECK(c == n, "throwing:count", std::to_string(c));
    try {
      std::mutex mu2;
      persistence::File<PVar> q(mu2, kNS, fn);
      VH_CHECK(q.Size() == n, "throwing:reopen", std::to_string(q.Size()));
    } catch (const Exception& e) {
      vh::Violation("throwing:reopen-throws", e.OriginalDescription());
    }
    vh::Eval(8);
    vh::Distinct(seed);
  }
  ::unlink(fn.c_str());
}

// ------------------------------------------------------------------------------------------------ concurrency

struct Pub {
  uint64_t idx;
  int64_t us;
  uint64_t k;
};

template <typename P>
static void ConcRun(P& p, vh::Rng r, const std::string& name) {
  const int T = static_cast<int>(2 + r.below(3));
  const int N = static_cast<int>(15 + r.below(40));
  std::vector<std::vector<Pub>> log(T);
  std::atomic<bool> go{false};
  std::atomic<int> live{T};
  std::vector<std::thread> th;
  std::vector<std::string> errs(T + 3);
  std::atomic<uint64_t> reads{0}, heads{0};
  for (int t = 0; t < T; ++t) {
    const uint64_t s = r.next();
    th.emplace_back([&, t, s]() {
      vh::Rng q(s);
      while (!go) std::this_thread::yield();
      for (int i = 0; i < N; ++i) {
        const uint64_t k = static_cast<uint64_t>(t) * 1000000 + i;
        try {
          const uint64_t op = q.below(20);
          if (op < 16) {
            const auto x = p.Publish(PEntry(k, "payload"));
            log[t].push_back({x.index, x.us.count(), k});
          } else if (op < 18) {
            // A user timestamp may lose the race; then the publish must have had no effect.
            try {
              const auto x = p.Publish(PEntry(k, "payload"), time::Now());
              log[t].push_back({x.index, x.us.count(), k});
            } catch (const ss::InconsistentTimestampException&) {
            }
          } else {
            p.UpdateHead();
            heads.fetch_add(1, std::memory_order_relaxed);
          }
        } catch (const Exception& e) {
          errs[t] = e.OriginalDescription();
        }
      }
      --live;
    });
  }
  // Readers: what one iteration sees is a prefix; successive sizes/heads never go back.
  std::vector<std::vector<std::vector<Pub>>> seen(3);
  std::vector<std::vector<std::pair<int64_t, uint64_t>>> heads_seen(3);
  for (int q = 0; q < 3; ++q) {
    const uint64_t s = r.next();
    th.emplace_back([&, q, s]() {
      vh::Rng rr(s);
      uint64_t last_size = 0;
      int64_t last_head = -1;
      while (!go) std::this_thread::yield();
      while (live.load() > 0) {
        try {
          const auto h = p.HeadAndLastPublishedIndexAndTimestamp();
          const uint64_t size = Exists(h.idxts) ? Value(h.idxts).index + 1 : 0;
          if (size < last_size || h.head.count() < last_head) errs[T + q] = "size or head went back";
          if (Exists(h.idxts) && Value(h.idxts).us > h.head) errs[T + q] = "head behind the last entry";
          // No entry published from now on can have the timestamp of this head, or an earlier one.
          if (heads_seen[q].size() < 2000 && (size != last_size || h.head.count() != last_head)) heads_seen[q].push_back({h.head.count(), size});
          last_size = size;
          last_head = h.head.count();
          if (p.Size() < size) errs[T + q] = "Size() behind an earlier observation";
          if (!size) continue;
          const uint64_t b = rr.chance(30) ? 0 : size - 1 - rr.below(std::min<uint64_t>(size, 12));
          std::vector<Pub> v;
          if (q == 1) {
            for (const auto& line : p.IterateUnsafe(b, size)) {
              const auto tab = line.find('\t');
              if (tab == std::string::npos) {
                errs[T + q] = "raw line without a tab: " + line;
                break;
              }
              const auto x = ParseJSON<idxts_t>(line.substr(0, tab));
              v.push_back({x.index, x.us.count(), ParseJSON<PEntry>(line.substr(tab + 1)).k});
            }
          } else if (q == 2) {
            const int64_t from = Value(h.idxts).us.count();
            for (const auto& e : p.Iterate(microseconds(from), microseconds(-1))) {
              v.push_back({e.idx_ts.index, e.idx_ts.us.count(), e.entry.k});
            }
            if (v.empty() || v[0].idx != size - 1) errs[T + q] = "timestamp iteration misses the entry at its lower bound";
          } else {
            for (const auto& e : p.Iterate(b, size)) v.push_back({e.idx_ts.index, e.idx_ts.us.count(), e.entry.k});
          }
          if (q != 2 && v.size() != size - b) errs[T + q] = "iteration over a published range is short";
          if (seen[q].size() < 200) seen[q].push_back(std::move(v));
          reads.fetch_add(1, std::memory_order_relaxed);
        } catch (const std::exception& e) {
          errs[T + q] = std::string("reader exception: ") + e.what();
        }
      }
    });
  }
  go = true;
  for (auto& t : th) t.join();
  for (auto& e : errs) VH_CHECK(e.empty(), "conc:" + name + ":error", e);

  std::map<uint64_t, Pub> all;
  uint64_t total = 0, order = 0;
  for (int t = 0; t < T; ++t) {
    uint64_t prev = 0;
    bool first = true;
    for (const auto& x : log[t]) {
      VH_CHECK(all.emplace(x.idx, x).second, "conc:" + name + ":dup-index", std::to_string(x.idx));
      VH_CHECK(first || x.idx > prev, "conc:" + name + ":program-order", "");
      prev = x.idx;
      first = false;
      ++total;
    }
  }
  VH_CHECK(p.Size() == total, "conc:" + name + ":size", std::to_string(p.Size()) + " acknowledged " + std::to_string(total));
  uint64_t i = 0;
  int64_t us = -1;
  for (const auto& e : p.Iterate()) {
    auto it = all.find(i);
    if (it == all.end()) {
      vh::Violation("conc:" + name + ":unacknowledged", "index " + std::to_string(i));
      break;
    }
    VH_CHECK(e.idx_ts.index == i && e.entry.k == it->second.k && e.idx_ts.us.count() == it->second.us && e.entry.s == "payload",
             "conc:" + name + ":content", JSON(e.idx_ts) + " k=" + std::to_string(e.entry.k) + " acked k=" + std::to_string(it->second.k));
    VH_CHECK(e.idx_ts.us.count() > us, "conc:" + name + ":timestamps", JSON(e.idx_ts));
    us = e.idx_ts.us.count();
    order = vh::hash_mix(order, it->second.k / 1000000);
    ++i;
  }
  VH_CHECK(i == total, "conc:" + name + ":iterate-count", std::to_string(i));
  for (auto& hs : heads_seen) {
    for (auto& h : hs) {
      auto it = all.find(h.second);
      VH_CHECK(it == all.end() || it->second.us > h.first, "conc:" + name + ":entry-behind-head", "head " + std::to_string(h.first) + " with " + std::to_string(h.second) + " entries, the next one at " + std::to_string(it == all.end() ? 0 : it->second.us));
    }
    vh::Count("heads_checked", hs.size());
  }
  uint64_t obs = 0;
  for (auto& ss : seen)
    for (auto& v : ss)
      for (auto& x : v) {
        auto it = all.find(x.idx);
        ++obs;
        if (it == all.end() || it->second.k != x.k || it->second.us != x.us) {
          vh::Violation("conc:" + name + ":reader-mismatch", "index " + std::to_string(x.idx) + " k=" + std::to_string(x.k));
        }
      }
  vh::Eval(total + obs);
  vh::Count("publishes", total);
  vh::Count("concurrent_reads", reads.load());
  vh::Count("entries_observed_by_readers", obs);
  vh::Count("head_updates", heads.load());
  vh::Distinct(order);
  vh::Sample(name + " threads=" + std::to_string(T) + " published=" + std::to_string(total) + " reads=" + std::to_string(reads.load()));
}

static void Conc(uint64_t seed) {
  vh::Rng r(seed);
  vh::perturb_level() = static_cast<int>(r.below(4));
  if (r.chance(50)) {
    std::mutex mu;
    MemP p(mu, kNS);
    ConcRun(p, r.fork(), "memory");
  } else {
    const std::string fn = vh::opt().scratch + "/c" + std::to_string(seed) + ".log";
    std::mutex mu;
    {
      FileP p(mu, kNS, fn);
      ConcRun(p, r.fork(), "file");
    }
    ::unlink(fn.c_str());
  }
  vh::perturb_level() = 0;
}

// ------------------------------------------------------------------------------------------------ crash points

// Build a log, cut it at every byte of its tail (and at sampled earlier bytes), reopen.
static void Torn(uint64_t seed) {
  vh::Rng r(seed);
  const std::string fn = vh::opt().scratch + "/x" + std::to_string(seed) + ".log";
  Model m;
  std::vector<std::pair<size_t, int64_t>> marks;  // (file size when the op was acknowledged, head).
  std::vector<size_t> acked_at;                   // File size at which entry `i` was acknowledged.
  std::mutex mu;
  bool head_in_place = false;
  {
    FileP p(mu, kNS, fn);
    const int n = static_cast<int>(2 + r.below(5));
    bool prev_head = false;
    for (int i = 0; i < n; ++i) {
      if (r.chance(30)) {
        m.head += 1 + static_cast<int64_t>(r.below(100000));
        p.UpdateHead(microseconds(m.head));
        if (prev_head) head_in_place = true;
        prev_head = true;
      } else {
        m.head += 1 + static_cast<int64_t>(r.below(1000));
        MEntry e{m.head, r.next() % 1000, RandStr(r, 6)};
        p.Publish(PEntry(e.k, e.s), microseconds(e.us));
        m.e.push_back(e);
        acked_at.push_back(ReadFile(fn).size());
        prev_head = false;
      }
    }
  }
  const std::string golden = ReadFile(fn);
  static_cast<void>(head_in_place);
  const size_t sig_end = golden.find('\n') + 1;
  std::set<size_t> cuts;
  for (size_t c = sig_end; c <= golden.size(); ++c) cuts.insert(c);
  for (int i = 0; i < 12; ++i) cuts.insert(r.below(sig_end + 1));
  for (size_t cut : cuts) {
    vh::CaseDurable("seed=" + std::to_string(seed) + " cut=" + std::to_string(cut) + " of " + std::to_string(golden.size()));
    WriteFile(fn, golden.substr(0, cut));
    uint64_t want = 0;
    while (want < acked_at.size() && acked_at[want] <= cut) ++want;
    // The largest head known to be durable: the one of the complete lines.
    int64_t durable_head = want ? m.e[want - 1].us : -1;
    const std::string where = "cut at byte " + std::to_string(cut) + ": ..." + golden.substr(cut > 60 ? cut - 60 : 0, cut > 60 ? 60 : cut);
    try {
      Model got;
      uint64_t have = 0;
      {
        FileP p(mu, kNS, fn);
        have = p.Size();
        if (have != want) {
          vh::Violation("torn:size", where + " has " + std::to_string(have) + " entries, acknowledged and intact: " + std::to_string(want));
        }
        got.e.assign(m.e.begin(), m.e.begin() + want);
        VH_CHECK(p.CurrentHead().count() >= durable_head, "torn:head", where);
        VH_CHECK(p.CurrentHead().count() <= m.head, "torn:head-invented", where + " head=" + std::to_string(p.CurrentHead().count()));
        CompareSafe(p.Iterate(0, std::min(want, have)), got, 0, std::min(want, have), where);
        // The log must stay fully usable: publish more, and read it all back.
        got.head = std::max<int64_t>(m.head, p.CurrentHead().count());
        for (int i = 0; i < 2; ++i) {
          MEntry e{++got.head, 77777u + i, "after"};
          p.Publish(PEntry(e.k, e.s), microseconds(e.us));
          got.e.push_back(e);
          if (r.chance(50)) p.UpdateHead(microseconds(++got.head));
        }
        CompareSafe(p.Iterate(), got, 0, got.e.size(), where + " (then published)");
        CompareUnsafe(p.IterateUnsafe(), got, 0, got.e.size(), where + " (then published)");
      }
      FileP q(mu, kNS, fn);
      CheckState(q, got, where + " (published, reopened)");
      CompareSafe(q.Iterate(), got, 0, got.e.size(), where + " (published, reopened)");
    } catch (const Exception& e) {
      vh::Violation("torn:throws", where + " threw " + e.OriginalDescription());
    } catch (const std::exception& e) {
      vh::Violation("torn:throws", where + " threw " + e.what());
    }
    vh::Eval();
    vh::Count("crash_points");
    vh::Distinct(vh::hash_str(golden.substr(0, cut)));
    if (vh::TooMany()) break;
  }
  ::unlink(fn.c_str());
}

// Kill a publishing process at a random moment.
static void Kill(uint64_t seed) {
  vh::Rng r(seed);
  const std::string fn = vh::opt().scratch + "/k" + std::to_string(seed) + ".log";
  std::vector<std::pair<int64_t, uint64_t>> acked;
  int64_t acked_head = -1;
  for (int round = 0; round < 3; ++round) {
    int fd[2];
    if (pipe(fd)) return;
    const uint64_t s = r.next();
    const int delay = static_cast<int>(r.below(2500));
    const pid_t pid = fork();
    if (pid == 0) {
      ::close(fd[0]);
      vh::Rng q(s);
      try {
        std::mutex mu;
        FileP p(mu, kNS, fn);
        for (uint64_t i = 0;; ++i) {
          int64_t rec[3];
          if (q.chance(25)) {
            p.UpdateHead();
            rec[0] = 1;
            rec[1] = p.CurrentHead().count();
            rec[2] = 0;
          } else {
            const uint64_t k = q.next() % 100000;
            const PEntry entry(k, std::string(q.below(3000), 'z'));
            const auto x = q.chance(50) ? p.Publish(entry)
                                        : p.PersisterPublishUnsafeImpl<current::locks::MutexLockStatus::NeedToLock>(
                                              JSON(idxts_t(p.Size(), time::Now())) + '\t' + JSON(entry));
            rec[0] = 0;
            rec[1] = x.us.count();
            rec[2] = static_cast<int64_t>(k);
          }
          if (::write(fd[1], rec, sizeof(rec)) != sizeof(rec)) _exit(1);
        }
      } catch (const std::exception& e) {
        int64_t rec[3] = {2, 0, 0};
        if (::write(fd[1], rec, sizeof(rec)) < 0) _exit(1);
        _exit(2);
      }
    }
    ::close(fd[1]);
    // Let the child get going, then kill it.
    std::vector<std::pair<int64_t, uint64_t>> mine;
    std::atomic<bool> failed{false};
    std::thread killer([&]() {
      ::usleep(1500 + delay);
      ::kill(pid, SIGKILL);
    });
    int64_t rec[3];
    while (true) {
      size_t got = 0;
      while (got < sizeof(rec)) {
        const ssize_t n = ::read(fd[0], reinterpret_cast<char*>(rec) + got, sizeof(rec) - got);
        if (n <= 0) break;
        got += n;
      }
      if (got < sizeof(rec)) break;
      if (rec[0] == 2) failed = true;
      else if (rec[0] == 1) acked_head = std::max(acked_head, rec[1]);
      else {
        acked.push_back({rec[1], static_cast<uint64_t>(rec[2])});
        acked_head = std::max(acked_head, rec[1]);
      }
    }
    killer.join();
    int st = 0;
    ::waitpid(pid, &st, 0);
    ::close(fd[0]);
    VH_CHECK(!failed, "kill:reopen-throws", "after a kill the log could not be opened or published to");
    try {
      std::mutex mu;
      FileP p(mu, kNS, fn);
      VH_CHECK(p.Size() >= acked.size() && p.Size() <= acked.size() + 1, "kill:size", std::to_string(p.Size()) + " acked " + std::to_string(acked.size()));
      VH_CHECK(p.CurrentHead().count() >= acked_head, "kill:head", std::to_string(p.CurrentHead().count()) + " acked " + std::to_string(acked_head));
      uint64_t i = 0;
      for (const auto& e : p.Iterate()) {
        if (i < acked.size()) {
          VH_CHECK(e.idx_ts.us.count() == acked[i].first && e.entry.k == acked[i].second, "kill:content", std::to_string(i));
        } else {
          acked.push_back({e.idx_ts.us.count(), e.entry.k});
        }
        ++i;
      }
      vh::Eval(i + 1);
      vh::Count("kills");
      vh::Count("entries_recovered", i);
      vh::Distinct(vh::hash_mix(i, static_cast<uint64_t>(acked_head)));
      vh::Sample("killed after ~" + std::to_string(1500 + delay) + "us: acknowledged and recovered " + std::to_string(acked.size()) + " entries");
    } catch (const std::exception& e) {
      vh::Violation("kill:throws", e.what());
    }
  }
  ::unlink(fn.c_str());
}

// The disk refuses writes past a limit: what is acknowledged must be there afterwards.
static void DiskFull(uint64_t seed) {
  vh::Rng r(seed);
  const std::string fn = vh::opt().scratch + "/d" + std::to_string(seed) + ".log";
  int fd[2];
  if (pipe(fd)) return;
  const uint64_t s = r.next();
  const rlim_t limit = 700 + r.below(4000);
  const pid_t pid = fork();
  if (pid == 0) {
    ::signal(SIGXFSZ, SIG_IGN);
    struct rlimit rl = {limit, limit};
    ::setrlimit(RLIMIT_FSIZE, &rl);
    vh::Rng q(s);
    try {
      std::mutex mu;
      FileP p(mu, kNS, fn);
      for (uint64_t i = 0; i < 150; ++i) {
        const uint64_t k = q.next() % 100000;
        int64_t rec[3] = {0, 0, static_cast<int64_t>(k)};
        try {
          const PEntry entry(k, std::string(q.below(60), 'z'));
          const auto x = q.chance(50) ? p.Publish(entry, microseconds(100 + i))
                                      : p.PersisterPublishUnsafeImpl<current::locks::MutexLockStatus::NeedToLock>(
                                            JSON(idxts_t(p.Size(), microseconds(100 + i))) + '\t' + JSON(entry));
          rec[1] = x.us.count();
        } catch (const std::exception&) {
          rec[0] = 1;
        }
        if (::write(fd[1], rec, sizeof(rec)) != sizeof(rec)) _exit(1);
      }
    } catch (const std::exception& e) {
    }
    _exit(0);
  }
  ::close(fd[1]);
  std::vector<std::pair<int64_t, uint64_t>> acked;
  uint64_t refused = 0;
  int64_t rec[3];
  while (::read(fd[0], rec, sizeof(rec)) == sizeof(rec)) {
    if (rec[0]) ++refused;
    else acked.push_back({rec[1], static_cast<uint64_t>(rec[2])});
  }
  ::close(fd[0]);
  int st = 0;
  ::waitpid(pid, &st, 0);
  try {
    std::mutex mu;
    FileP p(mu, kNS, fn);
    uint64_t i = 0;
    for (const auto& e : p.Iterate()) {
      if (i < acked.size()) VH_CHECK(e.idx_ts.us.count() == acked[i].first && e.entry.k == acked[i].second, "diskfull:content", std::to_string(i));
      ++i;
    }
    VH_CHECK(i >= acked.size(), "diskfull:acknowledged-lost", "file size limit " + std::to_string(limit) + ": acknowledged " + std::to_string(acked.size()) + ", present " + std::to_string(i));
  } catch (const std::exception& e) {
    vh::Violation("diskfull:throws", e.what());
  }
  vh::Eval();
  vh::Count("disk_full_runs");
  vh::Count("publishes_refused", refused);
  vh::Distinct(vh::hash_mix(limit, acked.size()));
  ::unlink(fn.c_str());
}

int main(int argc, char** argv) {
  return vh::Main(argc, argv, []() {
    vh::Rng top(vh::opt().seed);
    for (uint64_t c = 0; c < vh::opt().cases && !vh::TooMany(); ++c) {
      const uint64_t seed = top.next();
      vh::CaseDurable(vh::opt().mode + " case=" + std::to_string(c) + " seed=" + std::to_string(seed));
      const std::string& mode = vh::opt().mode;
      if (mode == "seqmem") SeqMem(seed);
      if (mode == "seqfile") SeqFile(seed, false);
      if (mode == "reopen") SeqFile(seed, true);
      if (mode == "conc") Conc(seed);
      if (mode == "torn") Torn(seed);
      if (mode == "kill") Kill(seed);
      if (mode == "diskfull") DiskFull(seed);
    }
  });
}
