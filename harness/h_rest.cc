// REST over the storage: exact model of every verb on every kind of field for all three flavors, CQS, shutdown;
// optimistic concurrency under many clients.
// PARTS: 1 rest (Plain, Simple, Hypermedia, follower), 2 conc.
#ifndef PARTS
#define PARTS 3
#endif
#include "vh.h"
#include "vh_net.h"

#include <sstream>

#include "storage/storage.h"
#include "storage/api.h"
#include "storage/persister/stream.h"
#include "storage/rest/plain.h"
#include "storage/rest/simple.h"
#include "storage/rest/hypermedia.h"

using namespace current;
using namespace current::storage;
using namespace current::storage::rest;
using std::chrono::microseconds;

CURRENT_STRUCT(UserBase) {
  CURRENT_FIELD(key, std::string);
  CURRENT_FIELD(name, std::string);
};
CURRENT_STRUCT(User, UserBase) {
  using brief_t = UserBase;
  CURRENT_FIELD(age, int32_t, 0);
  CURRENT_FIELD(tags, std::vector<std::string>);
  void InitializeOwnKey() { this->key = "u:" + this->name; }
};
CURRENT_STRUCT(Num) {
  CURRENT_FIELD(id, int64_t, 0);
  CURRENT_FIELD(v, Optional<std::string>);
  CURRENT_USE_FIELD_AS_KEY(id);
};
CURRENT_STRUCT(Like) {
  CURRENT_FIELD(row, std::string);
  CURRENT_FIELD(col, int32_t, 0);
  CURRENT_FIELD(text, std::string);
};
CURRENT_STRUCT(Own) {
  CURRENT_FIELD(row, std::string);
  CURRENT_FIELD(col, std::string);
  CURRENT_FIELD(n, int64_t, 0);
  void InitializeOwnKey() { ++n; }
};
CURRENT_STRUCT(Pair) {
  CURRENT_FIELD(row, int32_t, 0);
  CURRENT_FIELD(col, std::string);
  CURRENT_FIELD(n, int64_t, 0);
};
CURRENT_STORAGE_FIELD_ENTRY(OrderedDictionary, User, EUser);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedDictionary, Num, ENum);
CURRENT_STORAGE_FIELD_ENTRY(OrderedManyToOrderedMany, Like, ELike);
CURRENT_STORAGE_FIELD_ENTRY(OrderedOneToOrderedMany, Own, EOwn);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedOneToUnorderedOne, Pair, EPair);
CURRENT_STORAGE_FIELD_ENTRY(OrderedDictionary, Num, EHidden);
CURRENT_STORAGE_FIELD_EXCLUDE_FROM_REST(EHidden);

CURRENT_STORAGE(RestStorage) {
  CURRENT_STORAGE_FIELD(user, EUser);
  CURRENT_STORAGE_FIELD(num, ENum);
  CURRENT_STORAGE_FIELD(like, ELike);
  CURRENT_STORAGE_FIELD(own, EOwn);
  CURRENT_STORAGE_FIELD(pair, EPair);
  CURRENT_STORAGE_FIELD(hidden, EHidden);
};
using S = RestStorage<StreamInMemoryStreamPersister>;

CURRENT_STRUCT(QCount) {
  CURRENT_FIELD(prefix, std::string, "");
  CURRENT_FIELD(boom, int32_t, 0);
  template <class F>
  Response Query(const F& f, const cqs::CQSParameters&) const {
    if (boom == 1) CURRENT_THROW(current::Exception("query"));
    if (boom == 2) throw std::out_of_range("query");
    size_t n = 0;
    for (const auto& u : f.user) n += u.key.compare(0, prefix.size(), prefix) == 0;
    return Response("n=" + current::ToString(n));
  }
};
CURRENT_STRUCT(CRename) {
  CURRENT_FIELD(from, std::string, "");
  CURRENT_FIELD(to, std::string, "");
  CURRENT_FIELD(fail, int32_t, 0);
  template <class F>
  Response Command(F f, const cqs::CQSParameters&) const {
    const auto u = f.user[from];
    if (!Exists(u)) return Response("missing", HTTPResponseCode.NotFound);
    User x = Value(u);
    f.user.Erase(from);
    if (fail == 1) CURRENT_STORAGE_THROW_ROLLBACK_WITH_VALUE(Response, Response("rolled back", HTTPResponseCode.Conflict));
    if (fail == 2) CURRENT_STORAGE_THROW_ROLLBACK();
    x.key = to;
    f.user.Add(x);
    if (fail == 3) CURRENT_THROW(current::Exception("command"));
    if (fail == 4) throw std::out_of_range("command");
    return Response("renamed", HTTPResponseCode.OK);
  }
};

static std::string Enc(const std::string& s) {
  static const char* hex = "0123456789ABCDEF";
  std::string r;
  for (unsigned char c : s) {
    if (isalnum(c) || c == '-' || c == '_' || c == '.') {
      r += static_cast<char>(c);
    } else {
      r += '%';
      r += hex[c >> 4];
      r += hex[c & 15];
    }
  }
  return r;
}

// A server of this process for `slot`; HTTP servers are singletons that are never destroyed.
static int Port(int slot) {
  static int ports[4];
  if (!ports[slot]) {
    auto reserved = current::net::ReserveLocalPort();
    ports[slot] = reserved;
    HTTP(std::move(reserved));
  }
  return ports[slot];
}

using KeyPair = std::pair<std::string, std::string>;  // As text; for dictionaries `second` is empty.
struct Rec {
  std::string json;
};
using Table = std::map<KeyPair, std::string>;         // Key as text -> JSON of the entry.
using Times = std::map<KeyPair, int64_t>;

enum { USER, NUM, LIKE, OWN, PAIR, HIDDEN, NFIELDS };
static const char* kField[NFIELDS] = {"user", "num", "like", "own", "pair", "hidden"};
static bool Matrix(int f) { return f == LIKE || f == OWN || f == PAIR; }

template <typename F>
static void Snapshot(const F& f, Table* t, Times* us) {
  auto lm = [&](int field, const KeyPair& k, const auto& v) {
    if (us && Exists(v)) us[field][k] = Value(v).count();
  };
  for (const auto& e : f.user) {
    t[USER][{e.key, ""}] = JSON(e);
    lm(USER, {e.key, ""}, f.user.LastModified(e.key));
  }
  for (const auto& e : f.num) {
    t[NUM][{ToString(e.id), ""}] = JSON(e);
    lm(NUM, {ToString(e.id), ""}, f.num.LastModified(e.id));
  }
  for (const auto& e : f.like) {
    t[LIKE][{e.row, ToString(e.col)}] = JSON(e);
    lm(LIKE, {e.row, ToString(e.col)}, f.like.LastModified(std::make_pair(e.row, e.col)));
  }
  for (const auto& e : f.own) {
    t[OWN][{e.row, e.col}] = JSON(e);
    lm(OWN, {e.row, e.col}, f.own.LastModified(std::make_pair(e.row, e.col)));
  }
  for (const auto& e : f.pair) {
    t[PAIR][{ToString(e.row), e.col}] = JSON(e);
    lm(PAIR, {ToString(e.row), e.col}, f.pair.LastModified(std::make_pair(e.row, e.col)));
  }
  for (const auto& e : f.hidden) t[HIDDEN][{ToString(e.id), ""}] = JSON(e);
}

#if PARTS & 1
static const std::vector<std::string> kStr = {"a", "b c", "x/y", "q?&=%", "\xd0\x96", "+plus", "k.1", "zz", "\"quoted\"", ""};

static KeyPair RandomKey(vh::Rng& r, int f) {
  switch (f) {
    case USER: return {r.chance(30) ? "u:n" + std::to_string(r.below(4)) : kStr[r.below(kStr.size())], ""};
    case NUM: return {std::to_string(static_cast<int64_t>(r.below(6)) - 2), ""};
    case LIKE: return {kStr[r.below(5) * r.below(2)], std::to_string(static_cast<int64_t>(r.below(6)) - 1)};
    case OWN: return {kStr[r.below(3) * r.below(2)], kStr[r.below(6)]};
    default: return {std::to_string(r.below(4)), kStr[r.below(4)]};
  }
}

static std::string MakeEntry(vh::Rng& r, int f, const KeyPair& k) {
  switch (f) {
    case USER: {
      User u;
      u.key = k.first;
      u.name = "n" + std::to_string(r.below(4));
      u.age = static_cast<int32_t>(r.below(100));
      for (uint64_t i = 0, n = r.below(3); i < n; ++i) u.tags.push_back(kStr[r.below(kStr.size())]);
      return JSON(u);
    }
    case NUM: {
      Num n;
      n.id = atoll(k.first.c_str());
      if (r.chance(60)) n.v = kStr[r.below(kStr.size())];
      return JSON(n);
    }
    case LIKE: {
      Like l;
      l.row = k.first;
      l.col = atoi(k.second.c_str());
      l.text = kStr[r.below(kStr.size())];
      return JSON(l);
    }
    case OWN: {
      Own o;
      o.row = k.first;
      o.col = k.second;
      o.n = static_cast<int64_t>(r.below(1000));
      return JSON(o);
    }
    default: {
      Pair p;
      p.row = atoi(k.first.c_str());
      p.col = k.second;
      p.n = static_cast<int64_t>(r.below(1000));
      return JSON(p);
    }
  }
}

// What adding an entry under `k` does to the model, including whatever the new entry evicts.
static void ModelAdd(Table* t, int f, const KeyPair& k, const std::string& json) {
  if (f == OWN) {
    for (auto it = t[f].begin(); it != t[f].end();) it = (it->first != k && it->first.second == k.second) ? t[f].erase(it) : std::next(it);
  } else if (f == PAIR) {
    for (auto it = t[f].begin(); it != t[f].end();) {
      it = (it->first != k && (it->first.second == k.second || it->first.first == k.first)) ? t[f].erase(it) : std::next(it);
    }
  }
  t[f][k] = json;
}

struct World {
  int port;
  std::string prefix;  // Of the URLs.
  int flavor;          // 0 Plain, 1 Simple, 2 Hypermedia.
};

// The path of a record, with the key spelled in any of the ways the API understands.
static std::string Target(vh::Rng& r, const std::string& base, int f, const KeyPair& k) {
  if (!Matrix(f)) {
    const char* alt[] = {"", ".key", ".0", ".K"};
    const std::string b = base + (r.chance(20) ? alt[r.below(4)] : "");
    if (k.first.empty() || r.chance(25)) return b + "?key=" + Enc(k.first);
    return b + "/" + Enc(k.first) + (r.chance(10) ? "/" : "");
  }
  if (k.first.empty() || k.second.empty() || r.chance(30)) {
    switch (r.below(3)) {
      case 0: return base + "?row=" + Enc(k.first) + "&col=" + Enc(k.second);
      case 1: return base + "?key1=" + Enc(k.first) + "&key2=" + Enc(k.second);
      default: return base + "?1=" + Enc(k.first) + "&2=" + Enc(k.second);
    }
  }
  return base + "/" + Enc(k.first) + "/" + Enc(k.second);
}

template <typename T>
static std::string DataOf(int flavor, const std::string& body, bool& ok) {
  ok = true;
  try {
    if (flavor == 0) return JSON(ParseJSON<T>(body));
    if (flavor == 1) {
      const auto x = ParseJSON<simple::SimpleRESTRecordResponse<T>>(body);
      ok = x.success;
      return JSON(x.data);
    }
    const auto x = ParseJSON<rest::hypermedia::HypermediaRESTSingleRecordResponse<T>>(body);
    ok = x.success;
    return JSON(x.data);
  } catch (const current::Exception& e) {
    ok = false;
    return std::string("unparsable: ") + body;
  }
}
static std::string RecordOf(int flavor, int f, const std::string& body, bool& ok) {
  switch (f) {
    case USER: return DataOf<User>(flavor, body, ok);
    case NUM: return DataOf<Num>(flavor, body, ok);
    case LIKE: return DataOf<Like>(flavor, body, ok);
    case OWN: return DataOf<Own>(flavor, body, ok);
    default: return DataOf<Pair>(flavor, body, ok);
  }
}

static std::string Normalized(const rapidjson::Value& v) {
  rapidjson::StringBuffer buffer;
  rapidjson::Writer<rapidjson::StringBuffer> writer(buffer);
  v.Accept(writer);
  return buffer.GetString();
}
static std::string Normalized(const std::string& json) {
  rapidjson::Document doc;
  return doc.Parse<0>(json.c_str()).HasParseError() ? "unparsable: " + json : Normalized(doc);
}
// What the detailed export has for each entry: the key, if it is a plain one, when it was modified, and the data.
static bool Detailed(const rapidjson::Value& x, int f, std::vector<std::string>& out) {
  if (!x.IsObject() || !x.HasMember("key") || !x.HasMember("timestamp_us") || !x.HasMember("timestamp_http") || !x.HasMember("data")) return false;
  bool ok;
  const std::string rec = RecordOf(0, f, Normalized(x["data"]), ok);
  out.push_back((f == USER || f == NUM ? Normalized(x["key"]) : "") + ' ' + Normalized(x["timestamp_us"]) + ' ' + Normalized(x["timestamp_http"]) + ' ' + rec);
  return ok;
}
static std::string DetailedExpected(int f, const KeyPair& k, int64_t us, const std::string& rec) {
  return (f == USER ? JSON(k.first) : f == NUM ? k.first : "") + ' ' + std::to_string(us) + ' ' + JSON(FormatDateTimeAsIMFFix(microseconds(us))) + ' ' + rec;
}

// The collection of `T`, page by page for Hypermedia. Returns false if anything is off.
template <typename T, typename B>
static bool Collect(const World& w, const std::string& base, vh::Rng& r, std::vector<std::string>& out, uint64_t want_total, std::string& why, bool brief_collection) {
  uint64_t n = 1 + r.below(5);
  std::string target = base;
  const bool defaults = r.chance(20);
  if (defaults) {
    n = 10;
  } else {
    target += "?i=0&n=" + std::to_string(n);
  }
  uint64_t next_expected = 0, last_i = 0;
  bool back = false;
  for (int page = 0; page < 100; ++page) {
    const auto resp = vh::Fetch(w.port, "GET", target);
    if (resp.code != 200) {
      why = "code " + std::to_string(resp.code);
      return false;
    }
    uint64_t i, nn, total;
    bool success, has_next, has_prev;
    std::string next, prev;
    std::vector<std::string> items;
    auto take = [&](const auto& x) {
      i = x.i;
      nn = x.n;
      total = x.total;
      success = x.success;
      has_next = Exists(x.url_next_page);
      if (has_next) next = Value(x.url_next_page);
      has_prev = Exists(x.url_previous_page);
      if (has_prev) prev = Value(x.url_previous_page);
    };
    try {
      if (brief_collection) {
        const auto x = ParseJSON<rest::hypermedia::HypermediaRESTCollectionResponse<rest::hypermedia::HypermediaRESTBriefCollectionRecord<B>>>(resp.body);
        take(x);
        for (const auto& e : x.data) items.push_back(JSON(e.brief));
      } else {
        const auto x = ParseJSON<rest::hypermedia::HypermediaRESTCollectionResponse<rest::hypermedia::HypermediaRESTFullCollectionRecord<T>>>(resp.body);
        take(x);
        for (const auto& e : x.data) items.push_back(JSON(e.data));
      }
    } catch (const current::Exception& e) {
      why = "unparsable " + resp.body;
      return false;
    }
    if (!success || total != want_total) {
      why = "total " + std::to_string(total);
      return false;
    }
    if (i > next_expected || nn != items.size()) {
      why = "page i=" + std::to_string(i) + " n=" + std::to_string(nn) + " has " + std::to_string(items.size());
      return false;
    }
    if (has_prev != (i > 0) || has_next != (i + items.size() < total)) {
      why = "page links at i=" + std::to_string(i) + " of " + std::to_string(total);
      return false;
    }
    for (uint64_t j = 0; j < items.size(); ++j) {
      if (i + j < out.size()) {
        if (out[i + j] != items[j]) {
          why = "overlapping pages differ";
          return false;
        }
      } else {
        out.push_back(items[j]);
      }
    }
    if (out.size() > total) {
      why = "too many";
      return false;
    }
    next_expected = out.size();
    // And back again, to the very beginning, with nothing skipped.
    if (back && (i >= last_i || i + items.size() < last_i)) {
      why = "the previous page of i=" + std::to_string(last_i) + " is i=" + std::to_string(i);
      return false;
    }
    if (!has_next || back) {
      if (!has_prev) return true;
      back = true;
      last_i = i;
      const auto q = prev.find('?');
      target = base + (q == std::string::npos ? "" : prev.substr(q));
      continue;
    }
    const auto q = next.find('?');
    if (q == std::string::npos) {
      why = "next page " + next;
      return false;
    }
    target = base + next.substr(q);
  }
  why = "endless";
  return false;
}

template <typename T>
static std::string ToBrief(const std::string& json) {
  return JSON(static_cast<const UserBase&>(ParseJSON<T>(json)));
}

static void RestCase(vh::Rng& r, uint64_t idx) {
  const bool one_port = r.chance(40);
  auto stream = S::stream_t::CreateStream();
  auto storage = S::CreateMasterStorageAtopExistingStream(stream);
  auto follower = S::CreateFollowingStorageAtopExistingStream(stream);
  const std::string tag = "/c" + std::to_string(idx);
  const int p0 = Port(0), p1 = one_port ? p0 : Port(1), p2 = one_port ? p0 : Port(2), p3 = one_port ? p0 : Port(3);
  std::string log_of_requests;
  {
    auto rest0 = RESTfulStorage<S, plain::Plain>(*storage, p0, tag + "/p", "http://x.y");
    auto rest1 = RESTfulStorage<S, rest::Simple>(*storage, p1, tag + "/s", "http://x.y/s");
    auto rest2 = RESTfulStorage<S, rest::Hypermedia>(*storage, p2, tag + "/h", "");
    auto rest3 = RESTfulStorage<S, rest::Hypermedia>(*follower, p3, tag + "/f", "");
    const World worlds[4] = {{p0, tag + "/p", 0}, {p1, tag + "/s", 1}, {p2, tag + "/h", 2}, {p3, tag + "/f", 2}};
    rest1.AddCQSQuery<QCount>("count");
    rest1.AddCQSCommand<CRename>("rename");
    rest2.AddCQSQuery<QCount>("count");
    rest2.AddCQSCommand<CRename>("rename");
    rest3.AddCQSQuery<QCount>("count");
    rest3.AddCQSCommand<CRename>("rename");

    Table model[NFIELDS];
    Times us[NFIELDS];
    std::set<KeyPair> ever[NFIELDS];
    uint64_t logged = 0;
    storage->ReadWriteTransaction([&](MutableFields<S> f) {
             Num n;
             n.id = 1;
             f.hidden.Add(n);
           }).Wait();
    model[HIDDEN][{"1", ""}] = "{\"id\":1,\"v\":null}";
    ++logged;
    if (r.chance(50)) {
      // Rows and columns of more than a few entries.
      const uint64_t n = 2 + r.below(5);
      storage->ReadWriteTransaction([&](MutableFields<S> fs) {
               for (uint64_t i = 0; i < n; ++i) {
                 fs.like.Add(ParseJSON<Like>(MakeEntry(r, LIKE, {kStr[r.below(2)], std::to_string(i)})));
                 fs.like.Add(ParseJSON<Like>(MakeEntry(r, LIKE, {kStr[i], "1"})));
                 fs.own.Add(ParseJSON<Own>(MakeEntry(r, OWN, {kStr[0], kStr[i]})));
               }
             }).Wait();
      storage->ReadOnlyTransaction([&](ImmutableFields<S> fs) { Snapshot(fs, model, us); }).Wait();
      ++logged;
    }
    bool down = false;

    const int nreq = static_cast<int>(20 + r.below(40));
    for (int q = 0; q < nreq; ++q) {
      if (vh::TooMany()) return;
      const int wi = static_cast<int>(r.below(7)) % 4 == 3 && r.chance(50) ? 3 : static_cast<int>(r.below(3));
      const World& w = worlds[wi];
      const bool master = wi != 3, structured = w.flavor != 0;
      const int f = static_cast<int>(r.below(5));
      const std::string base = w.prefix + "/data/" + kField[f];
      KeyPair k = RandomKey(r, f);
      if (!model[f].empty() && r.chance(70)) {
        auto it = model[f].begin();
        std::advance(it, r.below(model[f].size()));
        k = it->first;
      }
      for (const auto& e : model[f]) ever[f].insert(e.first);
      if (ever[f].size() > model[f].size() && r.chance(15)) {
        // One that was there and is no more.
        std::vector<KeyPair> gone;
        for (const auto& e : ever[f]) if (!model[f].count(e)) gone.push_back(e);
        k = gone[r.below(gone.size())];
      }
      const bool exists = model[f].count(k) > 0;
      if (wi == 3) {
        // Let the follower catch up.
        const auto want = stream->Data()->LastPublishedIndexAndTimestamp().us;
        for (int i = 0; i < 100000 && follower->LastAppliedTimestamp() < want; ++i) ::usleep(20);
      }

      std::string verb = "GET", target, body, headers, kind;
      int want = 0;                    // Expected code.
      bool mutates = false;            // Whether a transaction should be logged.
      Table after[NFIELDS];
      for (int i = 0; i < NFIELDS; ++i) after[i] = model[i];
      std::vector<KeyPair> touched;    // Keys, of `f`, whose "last modified" may change.
      std::function<void(const vh::RespParser&)> more = [](const vh::RespParser&) {};
      auto bad = [&](const std::string& what, const vh::RespParser& resp) {
        vh::Violation("rest:" + what, "flavor=" + std::to_string(w.flavor) + (master ? "" : " follower") + " " + verb + " " + target + " " + headers + " body=" + body + " -> " + std::to_string(resp.code) + " " +
                                          resp.body.substr(0, 300));
      };

      // If-Unmodified-Since, in one of its two spellings.
      int ius = 0;  // 0 none, 1 passes, 2 fails, 3 malformed.
      auto condition = [&] {
        if (!r.chance(40)) return;
        // Nothing has ever been modified that recently if there is nothing.
        const int64_t t = exists && us[f].count(k) ? us[f][k] : r.chance(50) ? 10000000 : current::time::Now().count();
        switch (r.below(7)) {
          case 0: headers = "X-Current-If-Unmodified-Since: " + std::to_string(t) + "\r\n"; ius = 1; break;
          case 1: headers = "X-Current-If-Unmodified-Since: " + std::to_string(t - 1) + "\r\n"; ius = 2; break;
          case 2: headers = "If-Unmodified-Since: " + FormatDateTimeAsIMFFix(microseconds(t + 5000000)) + "\r\n"; ius = 1; break;
          case 3: headers = "If-Unmodified-Since: " + FormatDateTimeAsIMFFix(microseconds(t - 5000000)) + "\r\n"; ius = 2; break;
          case 4: headers = "X-Current-If-Unmodified-Since: junk\r\n"; ius = 3; break;
          case 5: headers = "If-Unmodified-Since: next Tuesday\r\n"; ius = 3; break;
          // The microsecond one takes precedence.
          case 6: headers = "If-Unmodified-Since: " + FormatDateTimeAsIMFFix(microseconds(t - 5000000)) + "\r\nX-Current-If-Unmodified-Since: " + std::to_string(t + 1) + "\r\n"; ius = 1; break;
        }
        if (!structured) ius = 0;
      };
      auto stamped = [&](const vh::RespParser& resp) {
        // The headers carry what the storage has on record.
        if (!structured) return;
        Times t[NFIELDS];
        Table dummy[NFIELDS];
        storage->ReadOnlyTransaction([&](ImmutableFields<S> fields) { Snapshot(fields, dummy, t); }).Wait();
        if (!t[f].count(k)) return;
        if (resp.Header("X-Current-Last-Modified") != std::to_string(t[f][k])) bad("last-modified-us", resp);
        if (resp.Header("Last-Modified") != FormatDateTimeAsIMFFix(microseconds(t[f][k]))) bad("last-modified", resp);
      };

      const int what = static_cast<int>(r.below(100));
      if (what < 15) {
        kind = "get";
        target = Target(r, base, f, k);
        bool brief = w.flavor == 2 && f == USER && r.chance(30);
        const bool exported = structured && !brief && r.chance(20);
        if (brief) target += std::string(target.find('?') == std::string::npos ? "?" : "&") + (r.chance(50) ? "brief" : "fields=brief");
        if (brief && r.chance(50)) target += "&full", brief = false;  // Asked for both, gets it all.
        const bool detailed = exported && r.chance(50);
        if (exported) target += std::string(target.find('?') == std::string::npos ? "?" : "&") + (detailed ? "export=detailed" : "export");
        want = exists ? 200 : 404;
        if (exists) {
          more = [&, brief, exported, detailed](const vh::RespParser& resp) {
            bool ok;
            if (detailed) {
              rapidjson::Document doc;
              std::vector<std::string> got;
              if (doc.Parse<0>(resp.body.c_str()).HasParseError() || !Detailed(doc, f, got) || got[0] != DetailedExpected(f, k, us[f][k], model[f][k])) bad("get-detailed", resp);
              return;
            }
            const std::string got = brief ? DataOf<UserBase>(w.flavor, resp.body, ok) : RecordOf(exported ? 0 : w.flavor, f, resp.body, ok);
            const std::string exp = brief ? ToBrief<User>(model[f][k]) : model[f][k];
            if (!ok || got != exp) bad("get-body", resp);
            if (!exported) stamped(resp);
          };
        }
      } else if (what < 40) {
        kind = "put";
        verb = "PUT";
        target = Target(r, base, f, k);
        condition();
        const int how = static_cast<int>(r.below(10));
        if (how == 0) {
          KeyPair other = RandomKey(r, f);
          body = MakeEntry(r, f, other);
          if (other != k) want = 400;
        } else if (how == 1) {
          static const char* junk[] = {"", "{", "[]", "null", "{\"key\":1}", "42", "{\"id\":\"x\"}", "{\"row\":[]}"};
          body = junk[r.below(8)];
          want = 400;
        } else {
          body = MakeEntry(r, f, k);
        }
        if (ius == 3) want = 400;
        if (!want && exists && ius == 2) want = 412;
        if (!want) {
          if (how == 0) body = MakeEntry(r, f, k);
          want = exists ? 200 : 201;
          mutates = true;
          ModelAdd(after, f, k, body);
          more = stamped;
        }
        if (!master) want = 405;
      } else if (what < 50) {
        kind = "post";
        verb = "POST";
        const bool can = f == USER || f == OWN;
        target = base;
        const int how = static_cast<int>(r.below(10));
        if (how == 0) {
          target = base + (Matrix(f) ? "/1/2" : "/1");
          body = MakeEntry(r, f, k);
          want = 400;
        } else if (how == 1) {
          static const char* junk[] = {"", "{", "[]", "null", "{\"key\":1}", "nope"};
          body = junk[r.below(6)];
          want = 400;
        } else {
          body = MakeEntry(r, f, k);
          const bool overwrite = r.chance(30);
          if (overwrite) target += "?overwrite";
          if (!can) {
            want = 405;
          } else {
            std::string final_body = body;
            if (f == USER) {
              User u = ParseJSON<User>(body);
              u.InitializeOwnKey();
              k = {u.key, ""};
              final_body = JSON(u);
            } else {
              Own o = ParseJSON<Own>(body);
              o.InitializeOwnKey();
              final_body = JSON(o);
            }
            if (model[f].count(k) && !overwrite) {
              want = 409;
            } else {
              want = 201;
              mutates = true;
              ModelAdd(after, f, k, final_body);
              more = [&](const vh::RespParser& resp) {
                stamped(resp);
                const std::string url = Matrix(f) ? k.first + '/' + k.second : k.first;
                if (structured) {
                  bool ok = false;
                  try {
                    const auto x = ParseJSON<generic::RESTResourceUpdateResponse>(resp.body);
                    ok = x.success && Exists(x.resource_url) && Value(x.resource_url).find("/data/" + std::string(kField[f]) + "/" + url) != std::string::npos;
                  } catch (const current::Exception&) {
                  }
                  if (!ok) bad("post-url", resp);
                } else if (resp.body != url) {
                  bad("post-url", resp);
                }
              };
            }
          }
        }
        if (!master) {
          want = 405;
          mutates = false;
        }
      } else if (what < 65) {
        kind = "patch";
        verb = "PATCH";
        target = Target(r, base, f, k);
        condition();
        const int how = static_cast<int>(r.below(6));
        std::string patched;
        if (how == 0) {
          static const char* junk[] = {"{", "[]", "null", "{\"name\":1,\"v\":1,\"text\":1,\"n\":\"x\"}", "garbage"};
          body = junk[r.below(5)];
        } else if (how == 1) {
          // An attempt to change the key.
          body = f == USER ? "{\"name\":\"evil\",\"key\":\"other\"}" : f == NUM ? "{\"id\":777}" : f == PAIR ? "{\"n\":5,\"row\":777}" : "{\"row\":\"other\"}";
        } else {
          const std::string s = kStr[r.below(kStr.size())];
          const int64_t n = static_cast<int64_t>(r.below(1000));
          auto exp = [&](auto e) { return JSON(e); };
          switch (f) {
            case USER: {
              User u = exists ? ParseJSON<User>(model[f][k]) : User();
              if (r.chance(50)) {
                body = "{\"age\":" + std::to_string(n) + "}";
                u.age = static_cast<int32_t>(n);
              } else {
                body = "{\"tags\":[" + JSON(s) + "],\"name\":" + JSON(s) + "}";
                u.tags = {s};
                u.name = s;
              }
              patched = exp(u);
              break;
            }
            case NUM: {
              Num x = exists ? ParseJSON<Num>(model[f][k]) : Num();
              if (r.chance(30)) {
                body = "{\"v\":null}";
                x.v = nullptr;
              } else if (r.chance(20)) {
                body = "{}";
              } else {
                body = "{\"v\":" + JSON(s) + ",\"id\":" + k.first + "}";
                x.v = s;
              }
              patched = exp(x);
              break;
            }
            case LIKE: {
              Like x = exists ? ParseJSON<Like>(model[f][k]) : Like();
              body = "{\"text\":" + JSON(s) + "}";
              x.text = s;
              patched = exp(x);
              break;
            }
            case OWN: {
              Own x = exists ? ParseJSON<Own>(model[f][k]) : Own();
              body = "{\"n\":" + std::to_string(n) + "}";
              x.n = n;
              patched = exp(x);
              break;
            }
            default: {
              Pair x = exists ? ParseJSON<Pair>(model[f][k]) : Pair();
              body = "{\"n\":" + std::to_string(n) + "}";
              x.n = n;
              patched = exp(x);
              break;
            }
          }
        }
        if (ius == 3) {
          want = 400;
        } else if (!exists) {
          want = 404;
        } else if (ius == 2) {
          want = 412;
        } else if (how <= 1) {
          want = 400;
        } else {
          want = 200;
          mutates = true;
          ModelAdd(after, f, k, patched);
          more = stamped;
        }
        if (!master) {
          want = 405;
          mutates = false;
        }
      } else if (what < 73) {
        kind = "delete";
        verb = "DELETE";
        target = Target(r, base, f, k);
        condition();
        want = ius == 3 ? 400 : (exists && ius == 2) ? 412 : 200;
        if (!master) want = 405;
        if (want == 200 && exists) {
          mutates = true;
          after[f].erase(k);
        }
      } else if (what < 83) {
        kind = "list";
        target = base;
        want = 200;
        if (w.flavor == 2) {
          vh::Eval();
          std::vector<std::string> got, exp;
          std::string why;
          bool ok = false;
          const uint64_t total = model[f].size();
          if (!down) {
            switch (f) {
              case USER: ok = Collect<User, UserBase>(w, base, r, got, total, why, true); break;
              case NUM: ok = Collect<Num, Num>(w, base, r, got, total, why, false); break;
              case LIKE: ok = Collect<Like, Like>(w, base, r, got, total, why, false); break;
              case OWN: ok = Collect<Own, Own>(w, base, r, got, total, why, false); break;
              default: ok = Collect<Pair, Pair>(w, base, r, got, total, why, false); break;
            }
            for (const auto& e : model[f]) exp.push_back(f == USER ? ToBrief<User>(e.second) : e.second);
            if (f != USER) {
              // Not in the order of keys as text.
              std::sort(got.begin(), got.end());
              std::sort(exp.begin(), exp.end());
            }
            if (!ok || got != exp) {
              vh::RespParser dummy;
              bad("collection " + why, dummy);
            }
          }
        } else {
          more = [&](const vh::RespParser& resp) {
            std::vector<std::string> got, exp;
            for (const auto& e : model[f]) {
              const std::string key = Matrix(f) ? e.first.first + (structured ? "/" : "\t") + e.first.second : e.first.first;
              exp.push_back(structured ? key : key + "\t" + e.second);
            }
            if (structured) {
              try {
                const auto x = ParseJSON<simple::SimpleRESTContainerResponse>(resp.body);
                for (const auto& u : x.data) {
                  const std::string b = std::string("/data/") + kField[f] + "/";
                  const auto p = u.find(b);
                  got.push_back(p == std::string::npos ? "?" + u : u.substr(p + b.size()));
                }
              } catch (const current::Exception&) {
                bad("list-body", resp);
              }
            } else {
              std::istringstream is(resp.body);
              std::string line;
              while (std::getline(is, line)) got.push_back(line);
            }
            std::sort(got.begin(), got.end());
            std::sort(exp.begin(), exp.end());
            if (got != exp) bad("list-body", resp);
          };
        }
      } else if (what < 88 && Matrix(f)) {
        kind = "rowcol";
        const bool row = r.chance(50);
        static const char* rs[] = {"1", "row", "left", "l", "L"};
        static const char* cs[] = {"2", "col", "right", "r", "R"};
        const std::string part = base + "." + (row ? rs[r.below(5)] : cs[r.below(5)]);
        if (r.chance(15)) {
          verb = r.chance(50) ? "PUT" : "DELETE";
          target = part;
          body = verb == "PUT" ? "{}" : "";
          want = 405;
        } else if (r.chance(50)) {
          const std::string key = row ? k.first : k.second;
          target = key.empty() ? part + "?key=" : part + "/" + Enc(key);
          std::vector<std::string> exp;
          for (const auto& e : model[f]) {
            if ((row ? e.first.first : e.first.second) == key) exp.push_back(e.second);
          }
          want = exp.empty() ? 404 : 200;
          std::sort(exp.begin(), exp.end());
          if (want == 200) {
            more = [&, exp](const vh::RespParser& resp) {
              std::vector<std::string> got;
              if (w.flavor == 0) {
                std::istringstream is(resp.body);
                std::string line;
                while (std::getline(is, line)) got.push_back(line);
                std::sort(got.begin(), got.end());
                if (got != exp) bad("rowcol-body", resp);
              } else if (w.flavor == 1) {
                try {
                  if (ParseJSON<simple::SimpleRESTContainerResponse>(resp.body).data.size() != exp.size()) bad("rowcol-body", resp);
                } catch (const current::Exception&) {
                  bad("rowcol-body", resp);
                }
              } else {
                for (const auto& e : exp) {
                  if (exp.size() <= 10 && resp.body.find(e) == std::string::npos) bad("rowcol-body", resp);
                }
                if (resp.body.find("\"total\":" + std::to_string(exp.size()) + ",") == std::string::npos) bad("rowcol-body", resp);
              }
            };
          }
        } else {
          target = part;
          want = 200;
          more = [&, row](const vh::RespParser& resp) {
            std::map<std::string, size_t> n;
            for (const auto& e : model[f]) ++n[row ? e.first.first : e.first.second];
            if (w.flavor == 0) {
              std::map<std::string, size_t> got;
              std::istringstream is(resp.body);
              std::string line;
              while (std::getline(is, line)) {
                const auto t = line.rfind('\t');
                if (t != std::string::npos) got[line.substr(0, t)] += strtoul(line.c_str() + t + 1, nullptr, 10);
              }
              if (got != n) bad("rowcols-body", resp);
            } else if (w.flavor == 1) {
              try {
                if (ParseJSON<simple::SimpleRESTContainerResponse>(resp.body).data.size() != n.size()) bad("rowcols-body", resp);
              } catch (const current::Exception&) {
                bad("rowcols-body", resp);
              }
            } else {
              if (resp.body.find("\"total\":" + std::to_string(n.size()) + ",") == std::string::npos) bad("rowcols-body", resp);
              // Every row (column) with how many entries it has, and up to three of them, each once.
              std::multiset<size_t> exp_totals, totals;
              std::set<std::string> all, previewed;
              for (const auto& e : n) exp_totals.insert(e.second);
              for (const auto& e : model[f]) all.insert(Normalized(e.second));
              rapidjson::Document doc;
              bool ok = !doc.Parse<0>(resp.body.c_str()).HasParseError() && doc.IsObject() && doc.HasMember("data") && doc["data"].IsArray();
              if (ok) {
                for (auto it = doc["data"].Begin(); it != doc["data"].End(); ++it) {
                  const auto& x = it->HasMember("data") ? (*it)["data"] : *it;
                  if (!(ok = ok && x.HasMember("total") && x.HasMember("preview"))) break;
                  totals.insert(x["total"].GetInt64());
                  if (x["preview"].Size() != std::min<size_t>(3, x["total"].GetInt64())) ok = false;
                  for (auto jt = x["preview"].Begin(); jt != x["preview"].End(); ++jt) {
                    const std::string e = Normalized(*jt);
                    if (!all.count(e) || !previewed.insert(e).second) ok = false;
                  }
                }
              }
              if (!ok || totals != exp_totals) bad("rowcols-preview", resp);
              vh::Count("previews", previewed.size());
              if (!totals.empty() && *totals.rbegin() > 3) vh::Count("previews_cut");
            }
          };
        }
      } else if (what < 92) {
        kind = "odd";
        switch (r.below(5)) {
          case 0: verb = r.chance(50) ? "OPTIONS" : "HEAD"; target = base; want = 405; break;
          case 1: target = w.prefix + "/data/hidden"; want = 404; break;
          case 2: verb = "DELETE"; target = w.prefix + "/data/hidden/1"; want = 404; break;
          case 3: verb = r.chance(50) ? "DELETE" : "PUT"; target = base; body = verb == "PUT" ? MakeEntry(r, f, k) : ""; want = master ? 400 : 405; break;
          default:
            if (w.flavor == 2) {
              // A page far away, and a page of every size.
              target = base + "?i=" + std::to_string(r.chance(50) ? 1000000u : r.below(3)) + "&n=" + (r.chance(50) ? "1000000000000000" : "18446744073709551615");
            } else {
              target = base;
            }
            want = 200;
        }
        if (want == 405 && verb == "HEAD") verb = "OPTIONS";
      } else if (what < 95 && structured) {
        kind = "export";
        const uint32_t shards = static_cast<uint32_t>(r.below(4));
        const bool detailed = r.chance(50);
        if (master) {
          target = base + (detailed ? "?export=detailed" : "?export");
          want = 403;
        } else if (detailed) {
          target = base + "?export=detailed";
          want = 200;
          more = [&](const vh::RespParser& resp) {
            rapidjson::Document doc;
            std::vector<std::string> got, exp;
            bool ok = !doc.Parse<0>(resp.body.c_str()).HasParseError() && doc.IsArray();
            if (ok) {
              for (auto it = doc.Begin(); it != doc.End(); ++it) ok = ok && Detailed(*it, f, got);
            }
            for (const auto& e : model[f]) exp.push_back(DetailedExpected(f, e.first, us[f][e.first], e.second));
            std::sort(got.begin(), got.end());
            std::sort(exp.begin(), exp.end());
            if (!ok || got != exp) bad("export-detailed", resp);
          };
        } else {
          // All the shards together are everything, once.
          std::vector<std::string> got, exp;
          for (const auto& e : model[f]) exp.push_back(e.second);
          bool ok = true;
          for (uint32_t s = 0; s < std::max(1u, shards); ++s) {
            target = base + "?export" + (shards ? "&nshards=" + std::to_string(shards) + "&shard=" + std::to_string(s) : "");
            if (s + 1 < std::max(1u, shards)) {
              const auto resp = vh::Fetch(w.port, "GET", target);
              ok = ok && resp.code == 200;
              std::istringstream is(resp.body);
              std::string line;
              while (std::getline(is, line)) got.push_back(line);
            }
          }
          want = 200;
          more = [&, got, exp, ok](const vh::RespParser& resp) mutable {
            std::istringstream is(resp.body);
            std::string line;
            while (std::getline(is, line)) got.push_back(line);
            // The export is in the minimalistic format.
            for (auto& e : exp) {
              switch (f) {
                case USER: e = JSON<JSONFormat::Minimalistic>(ParseJSON<User>(e)); break;
                case NUM: e = JSON<JSONFormat::Minimalistic>(ParseJSON<Num>(e)); break;
                default: break;
              }
            }
            std::sort(got.begin(), got.end());
            std::sort(exp.begin(), exp.end());
            if (!ok || got != exp) bad("export-body", resp);
          };
        }
      } else if (structured) {
        kind = "cqs";
        if (r.chance(40)) {
          const int how = static_cast<int>(r.below(8));
          const std::string pre = r.chance(50) ? "u:" : "";
          target = w.prefix + "/cqs/query/count?prefix=" + Enc(pre);
          want = 200;
          if (how == 0) { target += "&boom=1"; want = 500; }
          if (how == 1) { target += "&boom=2"; want = 500; }
          if (how == 2) { target = w.prefix + "/cqs/query/none"; want = 404; }
          if (how == 3) { target = w.prefix + "/cqs/query"; want = 404; }
          if (how == 4) { verb = "POST"; want = 405; }
          if (want == 200) {
            more = [&, pre](const vh::RespParser& resp) {
              size_t n = 0;
              for (const auto& u : model[USER]) n += u.first.first.compare(0, pre.size(), pre) == 0;
              if (resp.body != "n=" + std::to_string(n)) bad("query-body", resp);
            };
          }
        } else {
          static const char* verbs[] = {"POST", "PUT", "PATCH"};
          verb = verbs[r.below(3)];
          std::string from = kStr[r.below(kStr.size() - 1)], to = kStr[r.below(kStr.size() - 1)];
          if (!model[USER].empty() && r.chance(70)) from = model[USER].begin()->first.first;
          const int fail = static_cast<int>(r.below(7));
          target = w.prefix + "/cqs/command/rename";
          if (r.chance(50)) {
            target += "?from=" + Enc(from) + "&to=" + Enc(to) + "&fail=" + std::to_string(fail);
          } else {
            CRename c;
            c.from = from;
            c.to = to;
            c.fail = fail;
            body = JSON<JSONFormat::Minimalistic>(c);
          }
          const int how = static_cast<int>(r.below(12));
          const bool there = model[USER].count({from, ""}) > 0;
          if (how == 0) {
            static const char* others[] = {"GET", "DELETE", "OPTIONS"};
            verb = others[r.below(3)];
            body = "";
            want = 405;
          } else if (how == 1) {
            target = w.prefix + "/cqs/command";
            want = 404;
          } else if (how == 2) {
            target = w.prefix + "/cqs/command/none";
            want = 404;
          } else if (how == 3) {
            target = w.prefix + "/cqs/command/rename";
            body = "{\"from\":";
            want = 400;
          } else if (how == 4) {
            target = w.prefix + "/cqs/command/rename?from=1&fail=x";
            body = "";
            want = 400;
          } else if (!there) {
            want = 404;
          } else if (fail == 1) {
            want = 409;
          } else if (fail >= 2 && fail <= 4) {
            want = 500;
          } else {
            want = 200;
            mutates = true;
            User u = ParseJSON<User>(model[USER][{from, ""}]);
            after[USER].erase({from, ""});
            u.key = to;
            after[USER][{to, ""}] = JSON(u);
          }
          if (!master) {
            want = 503;
            mutates = false;
          }
        }
      } else {
        kind = "schema";
        static const char* suffix[] = {"", ".h", ".json", ".fs", ".rs", ".md"};
        target = w.prefix + "/schema/" + kField[f] + suffix[r.below(3)];
        want = 200;
        more = [&](const vh::RespParser& resp) {
          static const char* type[] = {"User", "Num", "Like", "Own", "Pair"};
          if (resp.body.find(type[f]) == std::string::npos) bad("schema-body", resp);
        };
      }
      if (kind == "list" && w.flavor == 2 && !down) continue;
      if (!master && verb != "GET") more = [](const vh::RespParser&) {};
      if (!master || want >= 300) mutates = false;

      if (down && master) {
        // The endpoints of the first three have all been told to answer with 503.
        if (kind == "odd" && want == 404) continue;
        want = 503;
        mutates = false;
        more = [](const vh::RespParser&) {};
      }
      const int64_t t0 = current::time::Now().count();
      const auto resp = vh::Fetch(w.port, verb, target, 15000, headers, body);
      const int64_t t1 = current::time::Now().count();
      vh::Eval();
      vh::Count("requests");
      vh::Count(kind + (mutates ? "_mutating" : ""));
      if (resp.malformed || resp.code != want) {
        bad("code want " + std::to_string(want), resp);
      }
      // The log, and the storage.
      const uint64_t size = stream->Data()->Size();
      if (size != logged + (mutates ? 1 : 0)) {
        bad(mutates ? "not-logged" : "logged", resp);
      }
      Table now[NFIELDS];
      Times now_us[NFIELDS];
      storage->ReadOnlyTransaction([&](ImmutableFields<S> fields) { Snapshot(fields, now, now_us); }).Wait();
      const auto& exp = mutates ? after : model;
      for (int i = 0; i < NFIELDS; ++i) {
        if (now[i] != exp[i]) {
          bad("effect", resp);
          break;
        }
      }
      for (int i = 0; i < NFIELDS; ++i) {
        for (const auto& e : now_us[i]) {
          const auto old = us[i].find(e.first);
          const bool same = old != us[i].end() && old->second == e.second;
          const bool target_of_this = mutates && (kind == "cqs" ? i == USER && (!model[i].count(e.first) || now[i][e.first] != model[i][e.first]) : i == f && e.first == k);
          if (target_of_this ? !(e.second > t0 && e.second < t1) : (!same && !(mutates && kind == "cqs"))) bad("modified-when", resp);
        }
        us[i] = now_us[i];
      }
      if (resp.code == want && !resp.malformed) {
        try {
          more(resp);
        } catch (const current::Exception& e) {
          bad("unparsable-body", resp);
        }
      }
      for (int i = 0; i < NFIELDS; ++i) model[i] = now[i];
      logged = size;
      vh::Distinct(vh::hash_str(std::to_string(w.flavor * 2 + master) + kind + verb + std::to_string(resp.code) + kField[f] + std::to_string(model[f].size()) + headers.substr(0, 12) + target.substr(w.prefix.size())));
      log_of_requests += verb + " " + target + "; ";
      if (!down && q > 15 && r.chance(2)) {
        rest0.SwitchHTTPEndpointsTo503s();
        rest1.SwitchHTTPEndpointsTo503s();
        rest2.SwitchHTTPEndpointsTo503s();
        down = true;
        for (int i = 1; i < 3; ++i) {
          const auto st = vh::Fetch(worlds[i].port, "GET", worlds[i].prefix + "/status");
          VH_CHECK(st.code == 503 && st.body.find("false") != std::string::npos, "rest:status", st.body);
          const auto top = vh::Fetch(worlds[i].port, "GET", worlds[i].prefix);
          VH_CHECK(top.code == 503, "rest:top-level", top.body);
        }
        vh::Count("shutdowns");
      }
    }
    if (!down) {
      for (int i = 1; i < 4; ++i) {
        const auto st = vh::Fetch(worlds[i].port, "GET", worlds[i].prefix + "/status");
        VH_CHECK(st.code == 200 && st.body.find("true") != std::string::npos, "rest:status", st.body);
        const auto top = vh::Fetch(worlds[i].port, "GET", worlds[i].prefix);
        VH_CHECK(top.code == 200, "rest:top-level", top.body);
        for (int f = 0; f < NFIELDS; ++f) {
          VH_CHECK((top.body.find(std::string("/data/") + kField[f] + "\"") != std::string::npos) == (f != HIDDEN), "rest:top-level", top.body);
        }
      }
      const auto sim = vh::Fetch(p3, "GET", tag + "/f/data/user");
      VH_CHECK(sim.code == 200, "rest:follower", sim.body);
    }
  }
  // Gone with the scope.
  const auto gone = vh::Fetch(p0, "GET", tag + "/p/data/user");
  VH_CHECK(gone.code == 404, "rest:outlives-its-scope", std::to_string(gone.code));
}
#endif

#if PARTS & 2
struct Seen {
  std::string key;
  int64_t us;
  int64_t n;
};
struct V {
  std::map<std::string, std::map<int64_t, int64_t>>& history;
  std::map<std::string, int64_t>& last;
  std::map<std::string, int>& users;
  void operator()(const EOwnUpdated& e) {
    const std::string k = e.data.col;
    if (last.count(k)) VH_CHECK(e.data.n == last[k] + 1, "restconc:lost-update", k + " " + std::to_string(last[k]) + " -> " + std::to_string(e.data.n));
    last[k] = e.data.n;
    history[k][e.us.count()] = e.data.n;
  }
  void operator()(const EUserUpdated& e) { ++users[e.data.name]; }
  template <typename T>
  void operator()(const T&) { vh::Violation("restconc:stray-mutation", ""); }
};
static void ConcCase(vh::Rng& r, uint64_t idx) {
  vh::perturb_level() = static_cast<int>(r.below(6));
  auto stream = S::stream_t::CreateStream();
  auto storage = S::CreateMasterStorageAtopExistingStream(stream);
  auto follower = S::CreateFollowingStorageAtopExistingStream(stream);
  const std::string tag = "/k" + std::to_string(idx);
  const int p0 = Port(0), p1 = Port(1), p2 = Port(2);
  const int clients = static_cast<int>(2 + r.below(4)), per = static_cast<int>(4 + r.below(8)), keys = static_cast<int>(1 + r.below(3));
  vh::Case("clients=" + std::to_string(clients) + " per=" + std::to_string(per) + " keys=" + std::to_string(keys));
  std::mutex m;
  std::vector<Seen> seen;
  std::map<std::string, int64_t> wins;       // Successful increments.
  std::map<std::string, int> created;        // Successful POSTs of a fresh name.
  std::map<std::string, int> posted;
  uint64_t order = 0;
  {
    auto rest0 = RESTfulStorage<S, rest::Hypermedia>(*storage, p0, tag + "/a", "");
    auto rest1 = RESTfulStorage<S, rest::Simple>(*storage, p1, tag + "/b", "");
    auto rest2 = RESTfulStorage<S, rest::Hypermedia>(*follower, p2, tag + "/f", "");
    for (int i = 0; i < keys; ++i) {
      const auto resp = vh::Fetch(p0, "PUT", tag + "/a/data/own/r/k" + std::to_string(i), 15000, "", "{\"row\":\"r\",\"col\":\"k" + std::to_string(i) + "\",\"n\":0}");
      VH_CHECK(resp.code == 201, "restconc:init", resp.body);
    }
    std::vector<std::thread> th;
    for (int c = 0; c < clients; ++c) {
      const uint64_t seed = r.next();
      th.emplace_back([&, c, seed] {
        vh::Rng rr(seed);
        for (int i = 0; i < per; ++i) {
          const bool second = rr.chance(50);
          const int port = second ? p1 : p0;
          const std::string pre = tag + (second ? "/b" : "/a");
          const int what = static_cast<int>(rr.below(100));
          const std::string key = "k" + std::to_string(rr.below(keys));
          if (what < 60) {
            // Optimistic concurrency: read, add one, write unless it has been changed in the meantime.
            const auto get = vh::Fetch(port, "GET", pre + "/data/own/r/" + key);
            const int64_t us = atoll(get.Header("X-Current-Last-Modified").c_str());
            bool ok;
            Own o;
            try {
              o = second ? ParseJSON<simple::SimpleRESTRecordResponse<Own>>(get.body).data : ParseJSON<rest::hypermedia::HypermediaRESTSingleRecordResponse<Own>>(get.body).data;
              ok = get.code == 200 && us > 0;
            } catch (const current::Exception&) {
              ok = false;
            }
            VH_CHECK(ok, "restconc:get", get.body);
            if (!ok) continue;
            {
              std::lock_guard<std::mutex> l(m);
              seen.push_back({key, us, o.n});
            }
            if (rr.chance(30)) ::usleep(rr.below(500));
            const bool patch = rr.chance(40);
            ++o.n;
            const std::string body = patch ? "{\"n\":" + std::to_string(o.n) + "}" : JSON(o);
            const auto put = vh::Fetch(port, patch ? "PATCH" : "PUT", pre + "/data/own/r/" + key, 15000, "X-Current-If-Unmodified-Since: " + std::to_string(us) + "\r\n", body);
            VH_CHECK(put.code == 200 || put.code == 412, "restconc:cas-code", std::to_string(put.code) + put.body);
            if (put.code == 200) {
              std::lock_guard<std::mutex> l(m);
              ++wins[key];
              seen.push_back({key, atoll(put.Header("X-Current-Last-Modified").c_str()), o.n});
              order = vh::hash_mix(order, c);
              vh::Count("cas_won");
            } else {
              vh::Count("cas_lost");
            }
          } else if (what < 80) {
            User u;
            u.name = "x" + std::to_string(rr.below(4));
            u.age = c;
            const auto post = vh::Fetch(port, "POST", pre + "/data/user", 15000, "", JSON(u));
            VH_CHECK(post.code == 201 || post.code == 409, "restconc:post-code", std::to_string(post.code));
            std::lock_guard<std::mutex> l(m);
            ++posted[u.name];
            if (post.code == 201) ++created[u.name];
          } else if (what < 90) {
            const auto get = vh::Fetch(p2, "GET", tag + "/f/data/own/r/" + key);
            if (get.code == 200) {
              try {
                const auto o = ParseJSON<rest::hypermedia::HypermediaRESTSingleRecordResponse<Own>>(get.body).data;
                std::lock_guard<std::mutex> l(m);
                seen.push_back({key, atoll(get.Header("X-Current-Last-Modified").c_str()), o.n});
                vh::Count("follower_reads");
              } catch (const current::Exception&) {
                vh::Violation("restconc:follower-body", get.body);
              }
            } else {
              VH_CHECK(get.code == 404, "restconc:follower-code", std::to_string(get.code));
            }
          } else {
            // Not over HTTP.
            bool did = false;
            storage->ReadWriteTransaction([&](MutableFields<S> f) {
                     did = false;
                     const auto v = f.own.Get("r", key);
                     if (Exists(v)) {
                       Own o = Value(v);
                       ++o.n;
                       f.own.Add(o);
                       did = true;
                     }
                   }).Wait();
            if (did) {
              std::lock_guard<std::mutex> l(m);
              ++wins[key];
              order = vh::hash_mix(order, 100 + c);
            }
          }
        }
      });
    }
    for (auto& t : th) t.join();
  }
  // Offline: the log.
  std::map<std::string, std::map<int64_t, int64_t>> history;  // key -> us -> n.
  std::map<std::string, int64_t> last;
  std::map<std::string, int> users;
  V v{history, last, users};
  for (const auto& e : stream->Data()->Iterate()) {
    for (const auto& mu : e.entry.mutations) mu.Call(v);
  }
  for (const auto& e : last) VH_CHECK(e.second == wins[e.first], "restconc:wins", e.first + " is " + std::to_string(e.second) + " after " + std::to_string(wins[e.first]) + " successful increments");
  for (const auto& e : posted) VH_CHECK(created[e.first] == 1 && users[e.first] == 1, "restconc:post-once", e.first + " was created " + std::to_string(created[e.first]) + " times");
  for (const auto& s : seen) {
    vh::Eval();
    const auto it = history[s.key].find(s.us);
    VH_CHECK(it != history[s.key].end() && it->second == s.n, "restconc:seen", s.key + " us=" + std::to_string(s.us) + " n=" + std::to_string(s.n) + (it == history[s.key].end() ? " never was" : " was " + std::to_string(it->second)));
  }
  vh::Distinct(order);
  vh::perturb_level() = 0;
}
#endif

int main(int argc, char** argv) {
  return vh::Main(argc, argv, [] {
    auto& o = vh::opt();
    vh::Rng seed(o.seed * 1000003 + o.shard * 7919 + vh::hash_str(o.mode));
    for (uint64_t c = 0; c < o.cases && !vh::TooMany(); ++c) {
      vh::Rng r(seed.next());
      vh::Case("case " + std::to_string(c));
#if PARTS & 1
      if (o.mode == "rest") RestCase(r, c);
#endif
#if PARTS & 2
      if (o.mode == "conc") ConcCase(r, c);
#endif
      vh::Count("cases");
    }
  });
}
