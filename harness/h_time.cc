// C28: the clock and the dates. PARTS=1: the real clock, over a system clock which jumps and stalls. PARTS=2: the mock clock.
#include <chrono>
#include <atomic>
#if PARTS == 1
// The system clock as seen by the code under test.
static std::atomic<int64_t> fake_us{0};
static std::atomic<uint64_t> fake_reads{0};
static std::atomic<int> fake_mode{0};
namespace std {
namespace chrono {
inline namespace _V2 {
__attribute__((noinline)) system_clock::time_point system_clock::now() noexcept {
  if (fake_mode == 0) {
    timespec ts;
    ::clock_gettime(CLOCK_REALTIME, &ts);
    return time_point(nanoseconds(ts.tv_sec * 1000000000ll + ts.tv_nsec));
  }
  ++fake_reads;
  return time_point(microseconds(fake_us.load()));
}
}  // namespace _V2
}  // namespace chrono
}  // namespace std
#else
#define CURRENT_MOCK_TIME
#endif
#include "bricks/time/chrono.h"
#include "vh.h"

typedef std::chrono::microseconds US;

#if PARTS == 1
// Each thread: what it got is above anything got by anyone before its call, and not below the clock at the call.
static void NowCase(vh::Rng& r) {
  const int T = 2 + r.below(3), N = 300;
  static int64_t base = 1600000000000000;
  base += 1 + r.below(2000);
  fake_us = base;
  fake_mode = 1;
  std::atomic<bool> done{false};
  std::atomic<int64_t> finished{0};  // The largest value returned by a call which has returned.
  std::vector<std::vector<int64_t>> got(T);
  const int behaviour = r.below(4);
  std::vector<std::thread> ts;
  vh::Rng clock_rng = r.fork();
  const bool still = r.chance(30);
  for (int t = 0; t < T; ++t) {
    vh::Rng tr = r.fork();
    ts.emplace_back([&, t, tr]() mutable {
      for (int i = 0; i < N; ++i) {
        const int64_t before = finished.load();
        const int64_t v = current::time::Now().count();
        if (v <= before) vh::Violation("now:order", std::to_string(v) + " after " + std::to_string(before) + " was returned");
        got[t].push_back(v);
        int64_t f = finished.load();
        while (f < v && !finished.compare_exchange_weak(f, v)) {
        }
        if (tr.chance(5)) std::this_thread::yield();
      }
    });
  }
  std::thread clock([&] {
    while (!done && !still) {
      const int64_t d = behaviour == 0 ? 1 : behaviour == 1 ? clock_rng.range(-50, 60) : behaviour == 2 ? clock_rng.range(-1000000, 1000100) : clock_rng.range(0, 3);
      fake_us += d;
      if (clock_rng.chance(20)) std::this_thread::yield();
    }
  });
  for (auto& t : ts) t.join();
  done = true;
  clock.join();
  std::vector<int64_t> all;
  for (auto& g : got) {
    for (size_t i = 1; i < g.size(); ++i) VH_CHECK(g[i] > g[i - 1], "now:thread_order", "");
    all.insert(all.end(), g.begin(), g.end());
  }
  std::sort(all.begin(), all.end());
  VH_CHECK(std::adjacent_find(all.begin(), all.end()) == all.end(), "now:unique", "the same timestamp returned twice");
  VH_CHECK(fake_reads > 0, "now:harness", "the clock is not being read");
  // Single-threaded, it is exactly the maximum of the clock and the last plus one.
  int64_t last = all.back();
  for (int i = 0; i < 100; ++i) {
    const int64_t c = last + r.range(-5, 6) + (r.chance(3) ? 1000000 : 0);
    fake_us = c;
    const int64_t v = current::time::Now().count();
    VH_CHECK(v == std::max(c, last + 1), "now:value", "clock " + std::to_string(c) + " last " + std::to_string(last) + " got " + std::to_string(v));
    last = v;
  }
  base = last;
  uint64_t h = 0;
  for (auto& g : got)
    for (auto v : g) h = vh::hash_mix(h, std::lower_bound(all.begin(), all.end(), v) - all.begin());
  vh::Distinct(h);
  vh::Eval(T * N + 100);
  fake_mode = 0;
}

// Days from the epoch, by Howard Hinnant's formula; the inverse of which is not used by libc.
static void Civil(int64_t days, int& y, int& m, int& d) {
  days += 719468;
  const int64_t era = days / 146097;
  const unsigned doe = static_cast<unsigned>(days - era * 146097);
  const unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  const unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  const unsigned mp = (5 * doy + 2) / 153;
  d = doy - (153 * mp + 2) / 5 + 1;
  m = mp < 10 ? mp + 3 : mp - 9;
  y = static_cast<int>(yoe + era * 400) + (m <= 2);
}
static void DateCase(vh::Rng& r) {
  using namespace current;
  int64_t us;
  const int k = r.below(4);
  if (k == 0) us = r.below(4102444800ull * 1000000);
  else if (k == 1) us = r.below(47482) * 86400000000ll + r.range(0, 2) * 86399999999ll / 2;
  else if (k == 2) us = r.below(3100000000ull) * 1000000 + (r.chance(50) ? 999999 : 0);
  else us = r.below(9223372000ull) * 1000000;  // Up to 2262, which is as far as std::chrono::system_clock goes.
  const int64_t sec = us / 1000000, day = sec / 86400, tod = sec % 86400;
  int y, m, d;
  Civil(day, y, m, d);
  static const char* wd[] = {"Thursday", "Friday", "Saturday", "Sunday", "Monday", "Tuesday", "Wednesday"};
  static const char* mo[] = {"", "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
  char want[100], utc[100], rfc850[100];
  snprintf(want, sizeof want, "%.3s, %02d %s %04d %02d:%02d:%02d GMT", wd[day % 7], d, mo[m], y, int(tod / 3600), int(tod / 60 % 60), int(tod % 60));
  snprintf(rfc850, sizeof rfc850, "%s, %02d-%s-%02d %02d:%02d:%02d GMT", wd[day % 7], d, mo[m], y % 100, int(tod / 3600), int(tod / 60 % 60), int(tod % 60));
  snprintf(utc, sizeof utc, "%04d/%02d/%02d %02d:%02d:%02d", y, m, d, int(tod / 3600), int(tod / 60 % 60), int(tod % 60));
  const std::string e = std::to_string(us) + " " + want;
  VH_CHECK(FormatDateTimeAsIMFFix(US(us)) == want, "date:imf", e + " -> " + FormatDateTimeAsIMFFix(US(us)));
  VH_CHECK(FormatDateTimeAsRFC850(US(us)) == rfc850, "date:rfc850", e + " -> " + FormatDateTimeAsRFC850(US(us)));
  VH_CHECK(FormatDateTime<time::TimeRepresentation::UTC>(US(us)) == utc, "date:utc", e);
  // A format of any length, up to the thousand characters.
  {
    std::string format, expected;
    const int n = r.below(30);
    for (int i = 0; i < n; ++i) {
      const int f = r.below(4);
      char b[32];
      if (f == 0) format += "%Y", snprintf(b, sizeof b, "%04d", y), expected += b;
      else if (f == 1) format += "%A", expected += wd[day % 7];
      else if (f == 2) format += "%M:%S", snprintf(b, sizeof b, "%02d:%02d", int(tod / 60 % 60), int(tod % 60)), expected += b;
      else format += "{some \xd0\x96 text}", expected += "{some \xd0\x96 text}";
    }
    if (!format.empty()) VH_CHECK(FormatDateTime<time::TimeRepresentation::UTC>(US(us), format.c_str()) == expected, "date:long_format", e + " " + format);
  }
  const US floor(sec * 1000000), ceil(sec * 1000000 + 999999);
  VH_CHECK(IMFFixDateTimeStringToTimestamp(want) == floor, "date:parse_imf", e);
  VH_CHECK(IMFFixDateTimeStringToTimestamp(std::string(want), time::SecondsToMicrosecondsPadding::Upper) == ceil, "date:parse_imf_upper", e);
  if (y < 2069) VH_CHECK(RFC850DateTimeStringToTimestamp(rfc850) == floor, "date:parse_rfc850", e);
  VH_CHECK(UTCDateTimeStringToTimestamp(std::string(utc), "%Y/%m/%d %H:%M:%S") == floor, "date:parse_utc", e);
  VH_CHECK(IMFFixDateTimeStringToTimestamp(utc) == US(0) && IMFFixDateTimeStringToTimestamp("") == US(0), "date:bad", e);
  // Local time, with and without daylight saving.
  const std::string local = FormatDateTime<time::TimeRepresentation::Local>(US(us));
  const int64_t back = LocalDateTimeStringToTimestamp(local, "%Y/%m/%d %H:%M:%S").count();
  // The hour repeated in autumn is ambiguous, but is never more than an hour off, and is formatted the same.
  VH_CHECK(std::abs(back - floor.count()) % 3600000000 == 0 && std::abs(back - floor.count()) <= 3600000000 && FormatDateTime<time::TimeRepresentation::Local>(US(back)) == local,
           "date:local", e + " local " + local + " -> " + std::to_string(back));
  std::tm tm;
  time_t tt = sec;
  localtime_r(&tt, &tm);
  char lw[100];
  snprintf(lw, sizeof lw, "%04d/%02d/%02d %02d:%02d:%02d", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec);
  VH_CHECK(local == lw, "date:local_format", e + " " + local);
  // Microseconds in the fixed size format keep the order.
  const US a(us), b(us + r.range(-3, 1000) < 0 ? us : us + r.range(0, 1000000));
  const std::string pa = strings::PackToString(a), pb = strings::PackToString(b);
  US back_us;
  VH_CHECK((pa < pb) == (a < b) && pa.size() == pb.size() && strings::UnpackFromString(pa, back_us) == a, "date:fixed", pa + " " + pb);
  vh::Eval(10);
  vh::Distinct(us);
  if (r.chance(1)) vh::Sample(e);
}
// The same from several threads, which the C library functions used have to allow.
static void DatesConcurrently(vh::Rng& r) {
  std::vector<std::thread> ts;
  for (int t = 0; t < 4; ++t) {
    vh::Rng tr = r.fork();
    ts.emplace_back([tr]() mutable {
      for (int i = 0; i < 20; ++i) DateCase(tr);
    });
  }
  for (auto& t : ts) t.join();
}
static void SleepCase(vh::Rng& r) {
  const auto start = std::chrono::steady_clock::now();
  const int64_t now = current::time::Now().count();
  const int64_t delta = r.range(-3000, 4000);
  current::time::SleepUntil(US(now + delta));
  const int64_t slept = std::chrono::duration_cast<US>(std::chrono::steady_clock::now() - start).count();
  VH_CHECK(slept >= delta - 500, "sleep", std::to_string(delta) + " slept " + std::to_string(slept));
  VH_CHECK(current::time::TimestampAsMicroseconds(US(now)) == US(now) && current::time::TimestampAsMicroseconds(current::time::DefaultTimeArgument()).count() > now, "timestamp", "");
  vh::Eval();
}
#else
static void MockCase(vh::Rng& r) {
  using namespace current::time;
  ResetToZero();
  int64_t now = 0, max = 1000000000;
  std::string h;
  for (int i = 0; i < 60; ++i) {
    if (r.chance(60)) {
      const int64_t got = Now().count();
      VH_CHECK(got == now, "mock:now", h + " got " + std::to_string(got) + " expected " + std::to_string(now));
      if (now < max) ++now;
      h += "now ";
    } else if (r.chance(95)) {
      const int64_t t = std::max<int64_t>(0, now + r.range(-3, 5)), m = r.chance(50) ? 0 : t + r.range(-2, 10);
      h += "set " + std::to_string(t) + "/" + std::to_string(m) + " ";
      bool threw = false;
      try {
        if (m) SetNow(US(t), US(m));
        else SetNow(US(t));
      } catch (const InconsistentSetNowException&) {
        threw = true;
      }
      VH_CHECK(threw == (t < now), "mock:set", h);
      if (!threw) now = t, max = m;
    } else {
      ResetToZero();
      now = 0, max = 1000000000;
      h += "reset ";
    }
    vh::Eval();
  }
  vh::Distinct(vh::hash_str(h));
  // Unique from several threads, until the limit.
  ResetToZero();
  const int64_t from = r.below(1000), room = r.below(500);
  SetNow(US(from), US(from + room));
  std::vector<std::vector<int64_t>> got(3);
  std::vector<std::thread> ts;
  for (int t = 0; t < 3; ++t)
    ts.emplace_back([&, t] {
      for (int i = 0; i < 150; ++i) got[t].push_back(Now().count());
    });
  for (auto& t : ts) t.join();
  std::vector<int64_t> all, want;
  for (auto& g : got) all.insert(all.end(), g.begin(), g.end());
  std::sort(all.begin(), all.end());
  for (int64_t i = 0; i < 450; ++i) want.push_back(from + std::min(i, room));
  VH_CHECK(all == want, "mock:threads", std::to_string(from) + "+" + std::to_string(room));
  vh::Eval(450);
  // Setting the time from several threads: it never goes back, and a moment which was set has come.
  ResetToZero();
  std::atomic<int64_t> next{1 + static_cast<int64_t>(r.below(1000))}, latest{0};
  std::atomic<uint64_t> set_ok{0};
  ts.clear();
  for (int t = 0; t < 3; ++t) {
    vh::Rng tr = r.fork();
    ts.emplace_back([&, t, tr]() mutable {
      int64_t prev = -1;
      for (int i = 0; i < 150; ++i) {
        if (tr.chance(50)) {
          const int64_t us = next += 1 + tr.below(3);
          if (tr.chance(20)) std::this_thread::yield();
          try {
            SetNow(US(us));
            ++set_ok;
            int64_t l = latest;
            while (l < us && !latest.compare_exchange_weak(l, us)) {
            }
          } catch (const InconsistentSetNowException&) {
          }
        } else {
          const int64_t l = latest, n = Now().count();
          if (n < l) vh::Violation("mock:set_lost", std::to_string(n) + " when " + std::to_string(l) + " was set");
          if (n < prev) vh::Violation("mock:back", std::to_string(n) + " after " + std::to_string(prev));
          prev = n;
        }
      }
    });
  }
  for (auto& t : ts) t.join();
  VH_CHECK(set_ok > 0 && Now().count() == latest, "mock:set_last", std::to_string(latest));
  vh::Eval(450);
}
#endif

int main(int argc, char** argv) {
#if PARTS == 1
  ::setenv("TZ", "EST5EDT,M3.2.0,M11.1.0", 1);
  ::tzset();
#endif
  return vh::Main(argc, argv, [] {
    auto& o = vh::opt();
    vh::Rng seed(o.seed * 1000003 + o.shard * 7919 + vh::hash_str(o.mode));
    for (uint64_t i = 0; i < o.cases && !vh::TooMany(); ++i) {
      vh::Rng r(seed.next());
      if (i % 64 == 0) vh::Case("case " + std::to_string(i));
#if PARTS == 1
      if (o.mode == "now") NowCase(r);
      if (o.mode == "dates") {
        for (int k = 0; k < 20; ++k) DateCase(r);
        if (i % 16 == 0) DatesConcurrently(r);
        if (i % 16 == 0) SleepCase(r);
      }
#else
      if (o.mode == "mock") MockCase(r);
#endif
      vh::Count("cases");
    }
  });
}
