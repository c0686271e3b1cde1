// Transactional storage: exact model of transactions and containers, replay/follower equivalence, serializability.
// PARTS: 1 txn + cont, 2 replay, 4 conc.
#ifndef PARTS
#define PARTS 7
#endif
#include "vh.h"

#include <fstream>
#include <sstream>
#include <sys/stat.h>

#include "storage/storage.h"
#include "storage/api.h"
#include "storage/persister/stream.h"
#include "stream/replicator.h"

using namespace current;
using namespace current::storage;
using std::chrono::microseconds;

struct Custom : std::exception {
  int x;
  explicit Custom(int x) : x(x) {}
};


// ---------------------------------------------------------------------------------------------------------------
#if PARTS & 3
CURRENT_STRUCT(DRec) {
  CURRENT_FIELD(id, std::string);
  CURRENT_FIELD(v, int64_t, 0);
  CURRENT_FIELD(s, std::string);
  CURRENT_USE_FIELD_AS_KEY(id);
};
CURRENT_STRUCT(URec) {
  CURRENT_FIELD(num, int64_t, 0);
  CURRENT_FIELD(v, int64_t, 0);
  CURRENT_FIELD(s, std::string);
  CURRENT_USE_FIELD_AS_KEY(num);
};
CURRENT_STRUCT(CellA) {
  CURRENT_FIELD(a, int32_t, 0);
  CURRENT_FIELD(b, std::string);
  CURRENT_FIELD(v, int64_t, 0);
  CURRENT_FIELD(s, std::string);
  CURRENT_USE_FIELD_AS_ROW(a);
  CURRENT_USE_FIELD_AS_COL(b);
};
CURRENT_STRUCT(CellB) {
  CURRENT_FIELD(a, std::string);
  CURRENT_FIELD(b, std::chrono::microseconds, std::chrono::microseconds(0));
  CURRENT_FIELD(v, int64_t, 0);
  CURRENT_FIELD(s, std::string);
  CURRENT_USE_FIELD_AS_ROW(a);
  CURRENT_USE_FIELD_AS_COL(b);
};

CURRENT_STORAGE_FIELD_ENTRY(OrderedDictionary, DRec, EOD);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedDictionary, URec, EUD);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedManyToUnorderedMany, CellA, EUMUM);
CURRENT_STORAGE_FIELD_ENTRY(OrderedManyToOrderedMany, CellB, EOMOM);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedManyToOrderedMany, CellA, EUMOM);
CURRENT_STORAGE_FIELD_ENTRY(OrderedManyToUnorderedMany, CellB, EOMUM);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedOneToUnorderedOne, CellA, EUOUO);
CURRENT_STORAGE_FIELD_ENTRY(OrderedOneToOrderedOne, CellB, EOOOO);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedOneToOrderedOne, CellB, EUOOO);
CURRENT_STORAGE_FIELD_ENTRY(OrderedOneToUnorderedOne, CellA, EOOUO);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedOneToUnorderedMany, CellA, EUOUM);
CURRENT_STORAGE_FIELD_ENTRY(OrderedOneToOrderedMany, CellB, EOOOM);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedOneToOrderedMany, CellA, EUOOM);
CURRENT_STORAGE_FIELD_ENTRY(OrderedOneToUnorderedMany, CellB, EOOUM);

CURRENT_STORAGE(AllStorage) {
  CURRENT_STORAGE_FIELD(od, EOD);
  CURRENT_STORAGE_FIELD(ud, EUD);
  CURRENT_STORAGE_FIELD(umum, EUMUM);
  CURRENT_STORAGE_FIELD(omom, EOMOM);
  CURRENT_STORAGE_FIELD(umom, EUMOM);
  CURRENT_STORAGE_FIELD(omum, EOMUM);
  CURRENT_STORAGE_FIELD(uouo, EUOUO);
  CURRENT_STORAGE_FIELD(oooo, EOOOO);
  CURRENT_STORAGE_FIELD(uooo, EUOOO);
  CURRENT_STORAGE_FIELD(oouo, EOOUO);
  CURRENT_STORAGE_FIELD(uoum, EUOUM);
  CURRENT_STORAGE_FIELD(ooom, EOOOM);
  CURRENT_STORAGE_FIELD(uoom, EUOOM);
  CURRENT_STORAGE_FIELD(ooum, EOOUM);
};
static constexpr int NF = 14;
static const bool kOrderedRow[NF] = {true, false, false, true, false, true, false, true, false, true, false, true, false, true};
static const bool kOrderedCol[NF] = {true, false, false, true, true, false, false, true, true, false, false, true, true, false};
static const char* kName[NF] = {"od", "ud", "umum", "omom", "umom", "omum", "uouo", "oooo", "uooo", "oouo", "uoum", "ooom", "uoom", "ooum"};

#if PARTS & 1
using MemStorage = AllStorage<StreamInMemoryStreamPersister>;
#endif
using FileStorage = AllStorage<StreamStreamPersister>;
using Fields = std::remove_reference_t<MutableFields<FileStorage>>;
template <int I>
using field_t = typename decltype(std::declval<Fields>()(FieldTypeExtractor<I>()))::particular_field_t;
template <int I>
using entry_meta_t = typename decltype(std::declval<Fields>()(FieldEntryTypeExtractor<I>()))::particular_field_t;
template <int I>
using entry_of = typename field_t<I>::entry_t;
template <int I>
constexpr bool is_dict = std::is_same_v<typename field_t<I>::semantics_t, semantics::Dictionary>;
template <int I>
constexpr bool is_o2o = std::is_same_v<typename field_t<I>::semantics_t, semantics::OneToOne>;
template <int I>
constexpr bool is_o2m = std::is_same_v<typename field_t<I>::semantics_t, semantics::OneToMany>;
template <int I>
constexpr bool is_m2m = std::is_same_v<typename field_t<I>::semantics_t, semantics::ManyToMany>;

// ---- small key domains.
template <typename T>
struct Dom;
template <>
struct Dom<std::string> {
  static const std::vector<std::string>& all() {
    static const std::vector<std::string> v = {"", "a", "a b", "\"q\"\\\n", "\xd0\x96/?&", "zz"};
    return v;
  }
};
template <>
struct Dom<int64_t> {
  static const std::vector<int64_t>& all() {
    static const std::vector<int64_t> v = {0, 1, -1, std::numeric_limits<int64_t>::max(), std::numeric_limits<int64_t>::min(), 42};
    return v;
  }
};
template <>
struct Dom<int32_t> {
  static const std::vector<int32_t>& all() {
    static const std::vector<int32_t> v = {0, 7, -5, 2147483647, -2147483647 - 1};
    return v;
  }
};
template <>
struct Dom<microseconds> {
  static const std::vector<microseconds>& all() {
    static const std::vector<microseconds> v = {microseconds(0), microseconds(10), microseconds(1500000000000000ll), microseconds(3)};
    return v;
  }
};

struct MVal {
  int64_t v = 0;
  std::string s;
  bool operator==(const MVal& r) const { return v == r.v && s == r.s; }
};

template <int I, bool DICT = is_dict<I>>
struct KeyOf;
template <int I>
struct KeyOf<I, true> {
  using type = current::storage::sfinae::entry_key_t<entry_of<I>>;
};
template <int I>
struct KeyOf<I, false> {
  using type = std::pair<current::storage::sfinae::entry_row_t<entry_of<I>>, current::storage::sfinae::entry_col_t<entry_of<I>>>;
};
template <int I>
using key_of = typename KeyOf<I>::type;

template <typename K>
struct DomK {
  static const std::vector<K>& all() { return Dom<K>::all(); }
};
template <typename R, typename C>
struct DomK<std::pair<R, C>> {
  static const std::vector<std::pair<R, C>>& all() {
    static const std::vector<std::pair<R, C>> v = [] {
      std::vector<std::pair<R, C>> w;
      for (const auto& r : Dom<R>::all())
        for (const auto& c : Dom<C>::all()) w.emplace_back(r, c);
      return w;
    }();
    return v;
  }
};

template <int I>
key_of<I> EntryKey(const entry_of<I>& e) {
  if constexpr (is_dict<I>) {
    return current::storage::sfinae::GetKey(e);
  } else {
    return std::make_pair(current::storage::sfinae::GetRow(e), current::storage::sfinae::GetCol(e));
  }
}
template <int I>
entry_of<I> MakeEntry(const key_of<I>& k, const MVal& v) {
  entry_of<I> e;
  if constexpr (is_dict<I>) {
    current::storage::sfinae::SetKey(e, k);
  } else {
    current::storage::sfinae::SetRow(e, k.first);
    current::storage::sfinae::SetCol(e, k.second);
  }
  e.v = v.v;
  e.s = v.s;
  return e;
}
template <int I>
MVal ValOf(const entry_of<I>& e) {
  MVal v;
  v.v = e.v;
  v.s = e.s;
  return v;
}

template <int I>
struct FieldModel {
  std::map<key_of<I>, MVal> m;
  std::map<key_of<I>, int64_t> lm;
};

template <typename>
struct ModelTuple;
template <int... I>
struct ModelTuple<std::integer_sequence<int, I...>> {
  using type = std::tuple<FieldModel<I>...>;
};
using Model = typename ModelTuple<std::make_integer_sequence<int, NF>>::type;

template <typename F, int... I>
void ForEachImpl(F&& f, std::integer_sequence<int, I...>) {
  (f(std::integral_constant<int, I>()), ...);
}
template <typename F>
void ForEach(F&& f) {
  ForEachImpl(std::forward<F>(f), std::make_integer_sequence<int, NF>());
}
template <typename F>
void AtField(int i, F&& f) {
  ForEach([&](auto I) {
    if (I.value == i) f(I);
  });
}

template <typename K>
std::string KeyStr(const K& k) {
  return JSON(k);
}

// Canonical text of the complete observable state.
template <int I, typename FIELD>
void DumpField(const FIELD& f, std::string& o) {
  std::map<key_of<I>, MVal> m;
  for (auto it = f.begin(); it != f.end(); ++it) {
    m[EntryKey<I>(*it)] = ValOf<I>(*it);
  }
  o += std::string(kName[I]) + ":" + std::to_string(f.Size()) + "\n";
  for (const auto& e : m) o += KeyStr(e.first) + "=" + std::to_string(e.second.v) + "," + e.second.s + "\n";
  for (const auto& k : DomK<key_of<I>>::all()) {
    const auto lm = f.LastModified(k);
    if (Exists(lm)) o += "lm " + KeyStr(k) + "=" + std::to_string(Value(lm).count()) + "\n";
  }
}
template <typename FIELDS>
std::string Dump(const FIELDS& fields) {
  std::string o;
  ForEach([&](auto I) { DumpField<I.value>(fields(ImmutableFieldByIndex<I.value>()), o); });
  return o;
}
static std::string DumpModel(const Model& model) {
  std::string o;
  ForEach([&](auto I) {
    const auto& f = std::get<I.value>(model);
    o += std::string(kName[I.value]) + ":" + std::to_string(f.m.size()) + "\n";
    for (const auto& e : f.m) o += KeyStr(e.first) + "=" + std::to_string(e.second.v) + "," + e.second.s + "\n";
    for (const auto& k : DomK<key_of<I.value>>::all()) {
      const auto it = f.lm.find(k);
      if (it != f.lm.end()) o += "lm " + KeyStr(k) + "=" + std::to_string(it->second) + "\n";
    }
  });
  return o;
}
static std::string FirstDiff(const std::string& a, const std::string& b) {
  std::istringstream x(a), y(b);
  std::string l, m, field;
  while (true) {
    const bool p = static_cast<bool>(std::getline(x, l)), q = static_cast<bool>(std::getline(y, m));
    if (!p && !q) return "same";
    if (p && q && l == m) {
      if (l.find(':') < 6) field = l;
      continue;
    }
    return "[" + field + "] got `" + (p ? l : "-") + "` want `" + (q ? m : "-") + "`";
  }
}

// ---- consistency of every view of one container with the model.
#define FCHK(cond, what)                                                                     \
  do {                                                                                       \
    if (!(cond)) {                                                                           \
      vh::Violation(std::string("cont:") + what, std::string(kName[I]) + " " + when + " " #cond); \
      return;                                                                                \
    }                                                                                        \
  } while (false)

template <int I, typename OPT>
bool SameOpt(const OPT& got, bool want, const key_of<I>* k, const MVal* v) {
  if (Exists(got) != want) return false;
  if (!want) return true;
  return EntryKey<I>(Value(got)) == *k && ValOf<I>(Value(got)) == *v;
}

// A map accessor key -> entry: iteration, order, lookups.
template <int I, typename ACC, typename K>
bool CheckInner(const ACC& acc, const std::map<K, key_of<I>>& want, const FieldModel<I>& fm, bool ordered, std::string& why) {
  if (acc.Size() != want.size()) return why = "size", false;
  if (acc.Empty() != want.empty()) return why = "empty", false;
  if (acc.TotalElementsForHypermediaCollectionView() != static_cast<int64_t>(want.size())) return why = "total", false;
  std::set<K> seen;
  std::vector<K> order;
  for (auto it = acc.begin(); it != acc.end(); ++it) {
    const K k = it.key();
    const auto cit = want.find(k);
    if (cit == want.end()) return why = "stray key " + KeyStr(k), false;
    if (!(EntryKey<I>(*it) == cit->second) || !(ValOf<I>(*it) == fm.m.at(cit->second))) return why = "entry " + KeyStr(k), false;
    if (!seen.insert(k).second) return why = "twice " + KeyStr(k), false;
    order.push_back(k);
  }
  if (seen.size() != want.size()) return why = "missing", false;
  if (ordered && !std::is_sorted(order.begin(), order.end())) return why = "order", false;
  for (const auto& k : Dom<K>::all()) {
    if (acc.Has(k) != (want.count(k) > 0)) return why = "has " + KeyStr(k), false;
  }
  if constexpr (!current::stl_wrappers::sfinae::is_unordered_map<std::decay_t<decltype(acc.map_)>>::value) {
    // Reverse iteration and bounds, for what is ordered.
    std::vector<K> rev;
    for (auto it = acc.rbegin(); it != acc.rend(); ++it) rev.push_back(it.key());
    std::reverse(rev.begin(), rev.end());
    if (rev != order) return why = "reverse order", false;
    for (const auto& k : Dom<K>::all()) {
      const auto lb = acc.LowerBound(k), ub = acc.UpperBound(k);
      const auto wl = want.lower_bound(k), wu = want.upper_bound(k);
      if ((lb == acc.end()) != (wl == want.end()) || (lb != acc.end() && !(lb.key() == wl->first))) return why = "lower bound " + KeyStr(k), false;
      if ((ub == acc.end()) != (wu == want.end()) || (ub != acc.end() && !(ub.key() == wu->first))) return why = "upper bound " + KeyStr(k), false;
    }
  }
  return true;
}
// Outer accessor: key -> inner accessor.
template <int I, typename ACC, typename K, typename K2>
bool CheckOuter(const ACC& acc, const std::map<K, std::map<K2, key_of<I>>>& want, const FieldModel<I>& fm, bool ordered, bool inner_ordered, std::string& why) {
  if (acc.Size() != want.size()) return why = "outer size", false;
  if (acc.Empty() != want.empty()) return why = "outer empty", false;
  std::set<K> seen;
  std::vector<K> order;
  for (auto it = acc.begin(); it != acc.end(); ++it) {
    const K k = it.OuterKeyForPartialHypermediaCollectionView();
    const auto cit = want.find(k);
    if (cit == want.end()) return why = "outer stray " + KeyStr(k), false;
    if (!seen.insert(k).second) return why = "outer twice", false;
    if (it.TotalElementsForHypermediaCollectionView() != cit->second.size()) return why = "outer total", false;
    if (!CheckInner<I>(*it, cit->second, fm, inner_ordered, why)) return why = "in outer " + KeyStr(k) + " " + why, false;
    order.push_back(k);
  }
  if (seen.size() != want.size()) return why = "outer missing", false;
  if (ordered && !std::is_sorted(order.begin(), order.end())) return why = "outer order", false;
  for (const auto& k : Dom<K>::all()) {
    const auto cit = want.find(k);
    if (acc.Has(k) != (cit != want.end())) return why = "outer has " + KeyStr(k), false;
    const auto o = acc[k];
    if (Exists(o) != (cit != want.end())) return why = "outer [] " + KeyStr(k), false;
    if (Exists(o) && !CheckInner<I>(Value(o), cit->second, fm, inner_ordered, why)) return why = "outer [] " + KeyStr(k) + " " + why, false;
  }
  return true;
}

template <int I, typename FIELD>
void CheckField(const FIELD& f, const FieldModel<I>& fm, const std::string& when) {
  vh::Eval();
  FCHK(f.Size() == fm.m.size(), "size");
  FCHK(f.Empty() == fm.m.empty(), "empty");
  FCHK(f.FieldName() == kName[I], "name");
  std::set<key_of<I>> seen;
  std::vector<key_of<I>> order;
  for (auto it = f.begin(); it != f.end(); ++it) {
    const auto k = EntryKey<I>(*it);
    const auto cit = fm.m.find(k);
    FCHK(cit != fm.m.end(), "iter-stray");
    FCHK(it.key() == k, "iter-key");
    FCHK(ValOf<I>(*it) == cit->second, "iter-value");
    FCHK(seen.insert(k).second, "iter-twice");
    order.push_back(k);
  }
  FCHK(seen.size() == fm.m.size(), "iter-missing");
  if constexpr (is_dict<I>) {
    FCHK(!kOrderedRow[I] || std::is_sorted(order.begin(), order.end()), "iter-order");
  }
  for (const auto& k : DomK<key_of<I>>::all()) {
    const auto cit = fm.m.find(k);
    const bool has = cit != fm.m.end();
    const MVal* v = has ? &cit->second : nullptr;
    if constexpr (!is_o2o<I>) FCHK(f.Has(k) == has, "has");
    FCHK(SameOpt<I>(f[k], has, &k, v), "get");
    const auto lm = f.LastModified(k);
    const auto lit = fm.lm.find(k);
    FCHK(Exists(lm) == (lit != fm.lm.end()), "lm-exists");
    FCHK(!Exists(lm) || Value(lm).count() == lit->second, "lm");
    if constexpr (!is_dict<I>) {
      if constexpr (!is_o2o<I>) FCHK(f.Has(k.first, k.second) == has, "has2");
      FCHK(SameOpt<I>(f.Get(k.first, k.second), has, &k, v), "get2");
      const auto lm2 = f.LastModified(k.first, k.second);
      FCHK(Exists(lm2) == Exists(lm) && (!Exists(lm) || Value(lm) == Value(lm2)), "lm2");
    }
  }
  if constexpr (!is_dict<I>) {
    using R = typename key_of<I>::first_type;
    using C = typename key_of<I>::second_type;
    std::map<R, std::map<C, key_of<I>>> rows;
    std::map<C, std::map<R, key_of<I>>> cols;
    std::map<R, key_of<I>> row1;
    std::map<C, key_of<I>> col1;
    for (const auto& e : fm.m) {
      rows[e.first.first][e.first.second] = e.first;
      cols[e.first.second][e.first.first] = e.first;
      row1[e.first.first] = e.first;
      col1[e.first.second] = e.first;
    }
    std::string why;
    if constexpr (is_m2m<I> || is_o2m<I>) {
      FCHK((CheckOuter<I>(f.Rows(), rows, fm, kOrderedRow[I], kOrderedCol[I], why)), "rows " + why);
      for (const auto& r : Dom<R>::all()) {
        const auto cit = rows.find(r);
        FCHK((CheckInner<I>(f.Row(r), cit == rows.end() ? std::map<C, key_of<I>>() : cit->second, fm, kOrderedCol[I], why)), "row " + why);
      }
    } else {
      FCHK((CheckInner<I>(f.Rows(), row1, fm, kOrderedRow[I], why)), "rows " + why);
      for (const auto& r : Dom<R>::all()) {
        const auto cit = row1.find(r);
        const bool has = cit != row1.end();
        FCHK(SameOpt<I>(f.GetEntryFromRow(r), has, has ? &cit->second : nullptr, has ? &fm.m.at(cit->second) : nullptr), "from-row");
      }
    }
    if constexpr (is_m2m<I>) {
      FCHK((CheckOuter<I>(f.Cols(), cols, fm, kOrderedCol[I], kOrderedRow[I], why)), "cols " + why);
      for (const auto& c : Dom<C>::all()) {
        const auto cit = cols.find(c);
        FCHK((CheckInner<I>(f.Col(c), cit == cols.end() ? std::map<R, key_of<I>>() : cit->second, fm, kOrderedRow[I], why)), "col " + why);
      }
    } else {
      FCHK((CheckInner<I>(f.Cols(), col1, fm, kOrderedCol[I], why)), "cols " + why);
      for (const auto& c : Dom<C>::all()) {
        const auto cit = col1.find(c);
        const bool has = cit != col1.end();
        FCHK(SameOpt<I>(f.GetEntryFromCol(c), has, has ? &cit->second : nullptr, has ? &fm.m.at(cit->second) : nullptr), "from-col");
      }
      for (const auto& k : DomK<key_of<I>>::all()) {
        const bool want = is_o2o<I> ? (!row1.count(k.first) && !col1.count(k.second)) : !col1.count(k.second);
        FCHK(f.DoesNotConflict(k) == want, "conflict");
        FCHK(f.DoesNotConflict(k.first, k.second) == want, "conflict2");
      }
    }
  }
}

// ---- one random operation on one field, applied to both the storage and the model.
template <int I, typename FIELD>
void RandomOp(FIELD& f, FieldModel<I>& fm, vh::Rng& r, uint64_t& mutations, std::string& trace) {
  const auto& dom = DomK<key_of<I>>::all();
  key_of<I> k = dom[r.below(dom.size())];
  if (!fm.m.empty() && r.chance(40)) {
    auto it = fm.m.begin();
    std::advance(it, r.below(fm.m.size()));
    k = it->first;
  }
  int op = static_cast<int>(r.below(10));
  const int64_t before = current::time::Now().count();
  std::vector<key_of<I>> deleted;
  bool added = false;
  auto T = [&](const std::string& s) {
    if (trace.size() < 1500) trace += std::string(" ") + kName[I] + "." + s + KeyStr(k);
  };
  auto model_erase = [&](const key_of<I>& key) {
    if (fm.m.erase(key)) {
      deleted.push_back(key);
      ++mutations;
    }
  };
  auto model_add = [&](const MVal& v) {
    if (!fm.m.count(k)) {
      if constexpr (!is_dict<I>) {
        std::vector<key_of<I>> conf;
        for (const auto& e : fm.m) {
          if ((is_o2o<I> && e.first.first == k.first) || ((is_o2o<I> || is_o2m<I>)&&e.first.second == k.second)) conf.push_back(e.first);
        }
        for (const auto& c : conf) model_erase(c);
      }
    }
    fm.m[k] = v;
    ++mutations;
    added = true;
  };
  if (op < 5) {
    MVal v;
    v.v = static_cast<int64_t>(r.below(1000));
    v.s = std::string(r.below(40), static_cast<char>('a' + r.below(26)));
    T("add");
    f.Add(MakeEntry<I>(k, v));
    model_add(v);
  } else if (op == 5 && fm.m.count(k)) {
    // The object passed in lives in the container itself.
    T("addself");
    const MVal v = fm.m[k];
    f.Add(Value(f[k]));
    model_add(v);
  } else if (op == 6 && fm.m.count(k)) {
    // The key passed in lives in the container itself.
    T("eraseself");
    const auto o = f[k];
    if constexpr (is_dict<I>) {
      f.Erase(current::storage::sfinae::GetKey(Value(o)));
    } else {
      const auto& e = Value(o);
      f.Erase(current::storage::sfinae::GetRow(e), current::storage::sfinae::GetCol(e));
    }
    model_erase(k);
  } else if (op == 7 && (is_o2o<I> || is_o2m<I>)) {
    if constexpr (is_o2o<I> || is_o2m<I>) {
      T("erasecol");
      f.EraseCol(k.second);
      for (const auto& e : std::map<key_of<I>, MVal>(fm.m)) {
        if (e.first.second == k.second) model_erase(e.first);
      }
    }
  } else if (op == 8 && is_o2o<I>) {
    if constexpr (is_o2o<I>) {
      T("eraserow");
      f.EraseRow(k.first);
      for (const auto& e : std::map<key_of<I>, MVal>(fm.m)) {
        if (e.first.first == k.first) model_erase(e.first);
      }
    }
  } else {
    T("erase");
    if constexpr (is_dict<I>) {
      f.Erase(k);
    } else {
      if (r.chance(50)) {
        f.Erase(k);
      } else {
        f.Erase(k.first, k.second);
      }
    }
    model_erase(k);
  }
  const int64_t after = current::time::Now().count();
  auto observe = [&](const key_of<I>& key, bool is_new) {
    const auto lm = f.LastModified(key);
    if (!Exists(lm) || Value(lm).count() <= before || Value(lm).count() >= after) {
      vh::Violation("cont:lm-of-op", std::string(kName[I]) + " last modified of " + KeyStr(key) + " " + (Exists(lm) ? std::to_string(Value(lm).count()) : "none") +
                                         " not within (" + std::to_string(before) + "," + std::to_string(after) + ") is_new=" + std::to_string(is_new));
    } else {
      fm.lm[key] = Value(lm).count();
    }
  };
  for (const auto& d : deleted) observe(d, false);
  if (added) {
    observe(k, true);
    for (const auto& d : deleted) VH_CHECK(fm.lm[d] < fm.lm[k], "cont:lm-order", std::string(kName[I]));
  }
}

// ---- replays mutations of the log into a model.
struct Replayer {
  Model& m;
  int64_t min_us, max_us;
  std::string err;
  uint64_t n = 0;
  template <typename E>
  void operator()(const E& e) {
    Do<0, E>(e);
  }
  template <int I, typename E>
  void Do(const E& e) {
    if constexpr (I < NF) {
      if constexpr (std::is_same_v<typename E::storage_field_t, entry_meta_t<I>>) {
        ++n;
        auto& fm = std::get<I>(m);
        if (e.us.count() <= min_us || e.us.count() >= max_us) err = "mutation timestamp " + std::to_string(e.us.count()) + " not in (" + std::to_string(min_us) + "," + std::to_string(max_us) + ")";
        min_us = e.us.count();
        if constexpr (std::is_same_v<E, typename entry_meta_t<I>::update_event_t>) {
          const auto k = EntryKey<I>(e.data);
          fm.m[k] = ValOf<I>(e.data);
          fm.lm[k] = e.us.count();
        } else {
          fm.m.erase(e.key);
          fm.lm[e.key] = e.us.count();
        }
      } else {
        Do<I + 1, E>(e);
      }
    }
  }
};

// Everything known about the history so far.
struct World {
  Model model;
  uint64_t committed = 0;  // Non-empty, hence in the log.
  int64_t last_us = -1;
  std::vector<std::string> dumps;  // Of the state after each of the entries in the log.
  std::vector<std::map<std::string, std::string>> metas;
};

template <typename STORAGE>
void CheckAll(STORAGE& s, World& w, const std::string& when) {
  s.ReadOnlyTransaction([&](ImmutableFields<STORAGE> fields) {
     ForEach([&](auto I) { CheckField<I.value>(fields(ImmutableFieldByIndex<I.value>()), std::get<I.value>(w.model), when); });
   }).Wait();
}

template <typename STORAGE>
void CheckLog(STORAGE& s, World& w, uint64_t from, const std::string& when) {
  auto stream = s.BorrowUnderlyingStream();
  const auto size = stream->Data()->Size();
  VH_CHECK(size == w.committed, "txn:log-size", when + " size=" + std::to_string(size) + " want=" + std::to_string(w.committed));
  if (size != w.committed) return;
  for (uint64_t i = from; i < size; ++i) {
    for (const auto& e : stream->Data()->Iterate(i, i + 1)) {
      VH_CHECK(e.entry.meta.fields == w.metas[i], "txn:meta", when + " got " + JSON(e.entry.meta.fields) + " want " + JSON(w.metas[i]));
      VH_CHECK(e.entry.meta.begin_us < e.entry.meta.end_us && (i + 1 == size ? e.idx_ts.us.count() == w.last_us : true), "txn:us", when + JSON(e.entry.meta));
    }
  }
}

// Runs one random transaction.
template <typename STORAGE>
void RandomTransaction(STORAGE& s, World& w, vh::Rng& r, bool heavy_check) {
  const int outcome = static_cast<int>(r.below(14));
  const int nops = r.chance(15) ? 0 : static_cast<int>(1 + r.below(r.chance(10) ? 25 : 6));
  const std::string pre = heavy_check ? std::string() : std::string();
  Model work = w.model;
  uint64_t mutations = 0;
  std::map<std::string, std::string> meta;
  std::string trace = "outcome=" + std::to_string(outcome);
  const int focus = r.chance(60) ? static_cast<int>(r.below(NF)) : -1;
  uint64_t check_seed = r.next();
  auto body = [&](MutableFields<STORAGE> fields) {
    for (int i = 0; i < nops; ++i) {
      AtField(focus >= 0 ? focus : static_cast<int>(r.below(NF)), [&](auto I) {
        auto& f = fields(MutableFieldByIndex<I.value>());
        RandomOp<I.value>(f, std::get<I.value>(work), r, mutations, trace);
        if (heavy_check) CheckField<I.value>(f, std::get<I.value>(work), "within" + trace);
      });
      if (r.chance(8)) {
        const std::string k = std::string(1, static_cast<char>('k' + r.below(3)));
        const std::string v = "v\"" + std::to_string(r.below(100));
        fields.SetTransactionMetaField(k, v);
        meta[k] = v;
      }
      if (r.chance(4)) {
        const std::string k = std::string(1, static_cast<char>('k' + r.below(3)));
        fields.EraseTransactionMetaField(k);
        meta.erase(k);
      }
    }
  };
  bool want_commit = false;
  const int ret = static_cast<int>(r.below(1000));
  int called2 = 0, got2 = -1;
  vh::Case(trace);
  auto fail = [&](const std::string& what) { vh::Violation("txn:" + what, trace); };
  auto guarded = [&](auto&& f) {
    try {
      f();
    } catch (const Custom& e) {
      fail("exception-escaped");
    } catch (const std::exception& e) {
      vh::Violation("txn:unexpected-exception", trace + " " + e.what());
    }
  };
  switch (outcome) {
    case 0:
    case 1:
    case 2: {
      want_commit = true;
      guarded([&] {
        const auto res = s.ReadWriteTransaction([&](MutableFields<STORAGE> f) { body(f); }).Go();
        if (!WasCommitted(res)) fail("not-committed");
      });
      break;
    }
    case 3:
    case 4: {
      want_commit = true;
      guarded([&] {
        const auto res = s.ReadWriteTransaction([&](MutableFields<STORAGE> f) {
                            body(f);
                            return ret;
                          }).Go();
        if (!WasCommitted(res)) fail("not-committed");
        if (!Exists(res) || Value(res) != ret) fail("wrong-result");
      });
      break;
    }
    case 5: {
      guarded([&] {
        const auto res = s.ReadWriteTransaction([&](MutableFields<STORAGE> f) {
                            body(f);
                            CURRENT_STORAGE_THROW_ROLLBACK();
                          }).Go();
        if (WasCommitted(res)) fail("committed-though-rolled-back");
      });
      break;
    }
    case 6: {
      guarded([&] {
        const auto res = s.ReadWriteTransaction([&](MutableFields<STORAGE> f) -> int {
                            body(f);
                            CURRENT_STORAGE_THROW_ROLLBACK_WITH_VALUE(int, ret);
                          }).Go();
        if (WasCommitted(res)) fail("committed-though-rolled-back");
        if (!Exists(res) || Value(res) != ret) fail("wrong-rollback-value");
      });
      break;
    }
    case 7: {
      guarded([&] {
        const auto res = s.ReadWriteTransaction([&](MutableFields<STORAGE> f) -> int {
                            body(f);
                            CURRENT_STORAGE_THROW_ROLLBACK();
                          }).Go();
        if (WasCommitted(res)) fail("committed-though-rolled-back");
        if (Exists(res)) fail("value-from-nowhere");
      });
      break;
    }
    case 8: {
      guarded([&] {
        auto fut = s.ReadWriteTransaction([&](MutableFields<STORAGE> f) {
          body(f);
          throw Custom(ret);
        });
        try {
          fut.Go();
          fail("exception-lost");
        } catch (const Custom& e) {
          if (e.x != ret) fail("exception-changed");
        }
      });
      break;
    }
    case 9: {
      // A rollback exception of another type is not a rollback "with value" of this one.
      guarded([&] {
        auto fut = s.ReadWriteTransaction([&](MutableFields<STORAGE> f) -> int {
          body(f);
          CURRENT_STORAGE_THROW_ROLLBACK_WITH_VALUE(std::string, "nope");
        });
        try {
          fut.Go();
          fail("exception-lost");
        } catch (const current::storage::StorageRollbackException&) {
        }
      });
      break;
    }
    case 10: {
      want_commit = true;
      guarded([&] {
        const auto res = s.ReadWriteTransaction(
                              [&](MutableFields<STORAGE> f) {
                                body(f);
                                return ret;
                              },
                              [&](int x) {
                                ++called2;
                                got2 = x;
                              })
                             .Go();
        if (!WasCommitted(res)) fail("not-committed");
        if (called2 != 1 || got2 != ret) fail("second-step");
      });
      break;
    }
    case 11: {
      guarded([&] {
        const auto res = s.ReadWriteTransaction(
                              [&](MutableFields<STORAGE> f) -> int {
                                body(f);
                                CURRENT_STORAGE_THROW_ROLLBACK_WITH_VALUE(int, ret);
                              },
                              [&](int x) {
                                ++called2;
                                got2 = x;
                              })
                             .Go();
        if (WasCommitted(res)) fail("committed-though-rolled-back");
        if (called2 != 1 || got2 != ret) fail("second-step");
      });
      break;
    }
    case 12: {
      const int how = static_cast<int>(r.below(2));
      guarded([&] {
        auto fut = s.ReadWriteTransaction(
            [&](MutableFields<STORAGE> f) -> int {
              body(f);
              if (how) throw Custom(ret);
              CURRENT_STORAGE_THROW_ROLLBACK();
            },
            [&](int x) {
              ++called2;
              got2 = x;
            });
        try {
          const auto res = fut.Go();
          if (how) fail("exception-lost");
          if (WasCommitted(res)) fail("committed-though-rolled-back");
        } catch (const Custom& e) {
          if (!how || e.x != ret) fail("exception-changed");
        }
        if (called2) fail("second-step-of-nothing");
      });
      break;
    }
    case 13: {
      // The second step runs once the transaction is committed already: whatever it throws, it stays committed.
      want_commit = true;
      const int how = static_cast<int>(r.below(3));
      guarded([&] {
        auto fut = s.ReadWriteTransaction(
            [&](MutableFields<STORAGE> f) -> int {
              body(f);
              return ret;
            },
            [&](int x) {
              ++called2;
              got2 = x;
              if (how == 0) throw Custom(ret);
              if (how == 1) CURRENT_STORAGE_THROW_ROLLBACK();
              CURRENT_STORAGE_THROW_ROLLBACK_WITH_VALUE(int, ret);
            });
        try {
          const auto res = fut.Go();
          if (!WasCommitted(res)) {
            vh::Violation("txn:second-step-undoes", trace + " how=" + std::to_string(how) + " reported as rolled back, while it is committed");
          } else if (!how) {
            fail("exception-lost");
          }
        } catch (const Custom& e) {
          if (how || e.x != ret) fail("exception-changed");
        } catch (const current::storage::StorageRollbackException&) {
          if (!how) fail("exception-changed");
        }
        if (called2 != 1) fail("second-step-called-" + std::to_string(called2));
      });
      break;
    }
  }
  vh::Count("transactions");
  vh::Count("outcome_" + std::to_string(outcome));
  vh::Count("operations", nops);
  const uint64_t before = w.committed;
  if (want_commit) {
    if (mutations) {
      // The log must lead to the very same state, with the very same "last modified" for each of the keys.
      Model replayed = w.model;
      auto stream = s.BorrowUnderlyingStream();
      if (stream->Data()->Size() != w.committed + 1) {
        vh::Violation("txn:log-size", trace + " size=" + std::to_string(stream->Data()->Size()) + " want=" + std::to_string(w.committed + 1));
      } else {
        for (const auto& e : stream->Data()->Iterate(w.committed, w.committed + 1)) {
          Replayer rep{replayed, e.entry.meta.begin_us.count(), e.entry.meta.end_us.count(), ""};
          for (const auto& m : e.entry.mutations) m.Call(rep);
          VH_CHECK(rep.err.empty(), "txn:log-us", rep.err + " " + trace);
          VH_CHECK(rep.n == mutations, "txn:log-mutations", trace + " logged " + std::to_string(rep.n) + " want " + std::to_string(mutations));
          VH_CHECK(e.idx_ts.us > e.entry.meta.end_us && e.entry.meta.begin_us.count() > w.last_us, "txn:log-us2", trace);
          w.last_us = e.idx_ts.us.count();
        }
        const std::string a = DumpModel(replayed), b = DumpModel(work);
        VH_CHECK(a == b, "txn:log-content", trace + " " + FirstDiff(a, b));
        vh::Distinct(vh::hash_str(b));
      }
      ++w.committed;
      w.metas.push_back(meta);
      w.model = work;
      w.dumps.push_back(DumpModel(w.model));
    }
  } else {
    vh::Distinct(vh::hash_str(trace));
  }
  VH_CHECK(s.LastAppliedTimestamp().count() == w.last_us, "txn:last-applied", trace);
  CheckLog(s, w, before, trace);
  if (heavy_check || check_seed % 4 == 0) {
    CheckAll(s, w, "after " + trace);
  }
}

template <typename STORAGE>
void RandomReadOnly(STORAGE& s, World& w, vh::Rng& r) {
  const int ret = static_cast<int>(r.below(1000));
  const std::string want = DumpModel(w.model);
  std::string got;
  int called2 = 0;
  auto look = [&](ImmutableFields<STORAGE> f) { got = Dump(f); };
  try {
    switch (r.below(6)) {
      case 0: {
        const auto res = s.ReadOnlyTransaction([&](ImmutableFields<STORAGE> f) { look(f); }).Go();
        VH_CHECK(WasCommitted(res), "ro:result", "");
        break;
      }
      case 1: {
        const auto res = s.ReadOnlyTransaction([&](ImmutableFields<STORAGE> f) { look(f); return ret; }).Go();
        VH_CHECK(WasCommitted(res) && Exists(res) && Value(res) == ret, "ro:value", "");
        break;
      }
      case 2: {
        const auto res = s.ReadOnlyTransaction([&](ImmutableFields<STORAGE> f) -> int { look(f); CURRENT_STORAGE_THROW_ROLLBACK_WITH_VALUE(int, ret); }).Go();
        VH_CHECK(!WasCommitted(res) && Exists(res) && Value(res) == ret, "ro:rollback-value", "");
        break;
      }
      case 3: {
        const auto res = s.ReadOnlyTransaction([&](ImmutableFields<STORAGE> f) { look(f); return ret; }, [&](int x) { called2 += (x == ret); }).Go();
        VH_CHECK(WasCommitted(res) && called2 == 1, "ro:second-step", "");
        break;
      }
      case 4: {
        const auto res = s.ReadOnlyTransaction([&](ImmutableFields<STORAGE> f) -> int { look(f); CURRENT_STORAGE_THROW_ROLLBACK_WITH_VALUE(int, ret); },
                                               [&](int x) { called2 += (x == ret); }).Go();
        VH_CHECK(!WasCommitted(res) && called2 == 1, "ro:second-step-rollback", "");
        break;
      }
      case 5: {
        auto fut = s.ReadOnlyTransaction([&](ImmutableFields<STORAGE> f) { look(f); throw Custom(ret); });
        try {
          fut.Go();
          vh::Violation("ro:exception-lost", "");
        } catch (const Custom& e) {
          VH_CHECK(e.x == ret, "ro:exception", "");
        }
        break;
      }
    }
  } catch (const std::exception& e) {
    vh::Violation("ro:unexpected-exception", e.what());
  }
  VH_CHECK(got == want, "ro:state", FirstDiff(got, want));
  vh::Count("read_only");
}
#endif  // PARTS & 3

#if PARTS & 1
static void TxnCase(vh::Rng& r, bool heavy) {
  World w;
  auto s = MemStorage::CreateMasterStorage();
  VH_CHECK(s->IsMasterStorage(), "txn:master", "");
  const int n = static_cast<int>(heavy ? 3 + r.below(10) : 5 + r.below(40));
  for (int i = 0; i < n && !vh::TooMany(); ++i) {
    RandomTransaction(*s, w, r, heavy);
    if (r.chance(20)) RandomReadOnly(*s, w, r);
  }
  CheckAll(*s, w, "at the end");
  CheckLog(*s, w, 0, "at the end");
  if (r.chance(50)) {
    // Graceful shutdown: nothing else is executed.
    s->GracefulShutdown();
    int executed = 0;
    auto refused = [&](auto&& f) {
      try {
        f();
        vh::Violation("txn:after-shutdown", "a transaction was executed after GracefulShutdown()");
      } catch (const StorageInGracefulShutdownException&) {
      }
    };
    refused([&] { s->ReadWriteTransaction([&](MutableFields<MemStorage> f) { ++executed; f.od.Add(DRec()); }).Go(); });
    refused([&] { s->ReadWriteTransaction([&](MutableFields<MemStorage> f) { ++executed; f.od.Add(DRec()); return 1; }).Go(); });
    refused([&] { s->ReadWriteTransaction([&](MutableFields<MemStorage> f) { ++executed; f.od.Add(DRec()); return 1; }, [&](int) { ++executed; }).Go(); });
    refused([&] { s->ReadOnlyTransaction([&](ImmutableFields<MemStorage>) { ++executed; }).Go(); });
    refused([&] { s->ReadOnlyTransaction([&](ImmutableFields<MemStorage>) { ++executed; return 1; }).Go(); });
    refused([&] { s->ReadOnlyTransaction([&](ImmutableFields<MemStorage>) { ++executed; return 1; }, [&](int) { ++executed; }).Go(); });
    VH_CHECK(executed == 0, "txn:after-shutdown-executed", "");
    CheckLog(*s, w, 0, "after shutdown");
  }
}
#endif

// ---------------------------------------------------------------------------------------------------------------
#if PARTS & 2
static std::string ReadFile(const std::string& fn) {
  std::ifstream f(fn, std::ios::binary);
  std::ostringstream o;
  o << f.rdbuf();
  return o.str();
}
static void WriteFile(const std::string& fn, const std::string& s) {
  std::ofstream f(fn, std::ios::binary | std::ios::trunc);
  f << s;
}
template <typename STORAGE>
static bool WaitApplied(STORAGE& s, int64_t us) {
  for (int i = 0; i < 30000; ++i) {
    if (s.LastAppliedTimestamp().count() >= us) return true;
    std::this_thread::sleep_for(std::chrono::milliseconds(1));
  }
  return false;
}
template <typename STORAGE>
static std::string Snapshot(STORAGE& s) {
  std::string d;
  s.ReadOnlyTransaction([&](ImmutableFields<STORAGE> f) { d = Dump(f); }).Wait();
  return d;
}

static void ReplayCase(vh::Rng& r, int port, uint64_t idx) {
  using S = FileStorage;
  const std::string fn = vh::opt().scratch + "/st_" + std::to_string(idx), fn2 = fn + "_replica", fn3 = fn + "_torn";
  World w;
  const std::string empty_dump = DumpModel(Model());
  std::string what = "storage";
  auto cmp = [&](S& s, const std::string& who) {
    if (!WaitApplied(s, w.last_us)) {
      vh::Violation("replay:stuck", who + " applied up to " + std::to_string(s.LastAppliedTimestamp().count()) + " want " + std::to_string(w.last_us));
      return;
    }
    VH_CHECK(s.LastAppliedTimestamp().count() == w.last_us, "replay:last-applied", who);
    const std::string got = Snapshot(s), want = DumpModel(w.model);
    VH_CHECK(got == want, "replay:state", who + " " + FirstDiff(got, want));
    CheckAll(s, w, who);
    vh::Count("replicas_compared");
    vh::Distinct(vh::hash_str(who + want));
  };
  auto some = [&](S& s) {
    const int n = static_cast<int>(1 + r.below(12));
    for (int i = 0; i < n && !vh::TooMany(); ++i) RandomTransaction(s, w, r, false);
  };
  const int rounds = static_cast<int>(1 + r.below(3));
  for (int round = 0; round < rounds && !vh::TooMany(); ++round) {
    // First: a master, followers joining at random moments, and a remote replica.
    auto stream = S::stream_t::CreateStream(fn);
    {
      auto s = S::CreateMasterStorageAtopExistingStream(stream);
      VH_CHECK(s->IsMasterStorage(), "replay:master", "reopened");
      cmp(*s, "reopened as master, round " + std::to_string(round));
      some(*s);
      const bool follow = r.chance(70);
      if (follow) {
        auto f = S::CreateFollowingStorageAtopExistingStream(stream);
        VH_CHECK(!f->IsMasterStorage(), "replay:follower-role", "");
        cmp(*f, "joined follower");
        try {
          f->ReadWriteTransaction([](MutableFields<S> x) { x.od.Add(DRec()); }).Wait();
          vh::Violation("replay:follower-rw", "a follower executed a read-write transaction");
        } catch (const current::storage::ReadWriteTransactionInFollowerStorageException&) {
        }
        {
          // Readers of the follower, which is being updated: each sees some prefix of the log, and they never go back.
          std::atomic_bool stop{false};
          std::vector<std::string> seen[2];
          std::vector<std::thread> readers;
          for (int t = 0; t < 2; ++t) {
            readers.emplace_back([&, t] {
              while (!stop) {
                const int64_t us = f->LastAppliedTimestamp().count();
                std::string d = Snapshot(*f);
                if (seen[t].empty() || seen[t].back() != d) seen[t].push_back(std::move(d));
                VH_CHECK(f->LastAppliedTimestamp().count() >= us, "replay:last-applied-back", "");
                std::this_thread::sleep_for(std::chrono::microseconds(200));  // Not to starve the follower.
              }
            });
          }
          some(*s);
          WaitApplied(*f, w.last_us);
          stop = true;
          for (auto& t : readers) t.join();
          for (int t = 0; t < 2; ++t) {
            size_t at = 0;  // The number of the entries of the log applied.
            for (const std::string& d : seen[t]) {
              while (at <= w.dumps.size() && (at ? w.dumps[at - 1] : empty_dump) != d) ++at;
              if (at > w.dumps.size()) {
                vh::Violation("replay:follower-not-a-prefix", "a read-only transaction of a follower saw what no prefix of the log results in, or the state went back");
                break;
              }
            }
            vh::Count("states_seen_by_readers_of_a_live_follower", seen[t].size());
          }
        }
        cmp(*f, "live follower");
        cmp(*s, "master of a live follower");
      }
      if (r.chance(40)) {
        // A remote replica over HTTP, atop which the follower is then made the master.
        ::unlink(fn2.c_str());
        const std::string route = "/log" + std::to_string(idx) + "_" + std::to_string(round);
        s->ExposeRawLogViaHTTP(port, route);
        auto rstream = S::stream_t::CreateStream(fn2);
        auto replicator = std::make_unique<current::stream::StreamReplicator<S::stream_t>>(rstream);
        auto rs = S::CreateFollowingStorageAtopExistingStream(rstream);
        World w2;
        {
          current::stream::SubscribableRemoteStream<S::transaction_t> remote("http://localhost:" + std::to_string(port) + route);
          const auto scope = remote.Subscribe(*replicator);
          some(*s);
          cmp(*rs, "remote replica");
        }
        replicator = nullptr;
        rs->FlipToMaster();
        VH_CHECK(rs->IsMasterStorage(), "replay:flip-role", "");
        try {
          rs->FlipToMaster();
          vh::Violation("replay:flip-twice", "");
        } catch (const StorageIsAlreadyMasterException&) {
        }
        cmp(*rs, "flipped replica");
        // The history forks.
        w2 = w;
        for (int i = 0; i < 5 && !vh::TooMany(); ++i) RandomTransaction(*rs, w2, r, false);
        VH_CHECK(Snapshot(*rs) == DumpModel(w2.model), "replay:state", "flipped replica, after its own transactions");
        some(*s);
        cmp(*s, "original of a flipped replica");
        vh::Count("remote_replicas");
      }
    }
    if (r.chance(50)) {
      // The master is gone, a follower atop the same stream takes over.
      auto f = S::CreateFollowingStorageAtopExistingStream(stream);
      if (r.chance(50)) WaitApplied(*f, static_cast<int64_t>(r.below(2)) ? w.last_us : -1);
      f->FlipToMaster();
      VH_CHECK(f->IsMasterStorage(), "replay:takeover-role", "");
      cmp(*f, "took over");
      some(*f);
      cmp(*f, "took over and proceeded");
      vh::Count("takeovers");
    }
  }
  // Own stream, following.
  if (r.chance(40)) {
    auto f = S::CreateFollowingStorage(fn);
    cmp(*f, "own stream follower");
  }
  {
    auto s = S::CreateMasterStorage(fn);
    cmp(*s, "own stream");
    some(*s);
    cmp(*s, "own stream continued");
  }
  // Torn files: any prefix of the file leads to the state after some prefix of the history.
  const std::string bytes = ReadFile(fn);
  std::vector<size_t> ends;  // Offsets past each of the transactions' lines.
  for (size_t p = 0, q; (q = bytes.find('\n', p)) != std::string::npos; p = q + 1) {
    if (bytes[p] != '#') ends.push_back(q + 1);
  }
  VH_CHECK(ends.size() == w.committed, "replay:file-lines", std::to_string(ends.size()) + " vs " + std::to_string(w.committed));
  const size_t head = bytes.find('\n') + 1;
  for (int t = 0; t < 6 && !vh::TooMany(); ++t) {
    size_t cut = head + r.below(bytes.size() - head + 1);
    if (!ends.empty() && r.chance(40)) {
      // Around the boundary of a transaction.
      const int64_t at = static_cast<int64_t>(ends[r.below(ends.size())]) + r.range(-2, 1);
      if (at >= static_cast<int64_t>(head) && at <= static_cast<int64_t>(bytes.size())) cut = static_cast<size_t>(at);
    }
    size_t k = 0;
    while (k < ends.size() && ends[k] <= cut) ++k;
    WriteFile(fn3, bytes.substr(0, cut));
    vh::Case("torn at " + std::to_string(cut) + " of " + std::to_string(bytes.size()));
    std::string next;
    {
    auto s = S::CreateMasterStorage(fn3);
    // If all but the new line of a transaction is there, it may be there or not.
    const std::string got = Snapshot(*s);
    auto state = [&](size_t i) { return i ? w.dumps[i - 1] : empty_dump; };
    const bool ok = got == state(k) || (k < ends.size() && cut + 1 == ends[k] && got == state(k + 1));
    VH_CHECK(ok, "replay:torn", "cut at " + std::to_string(cut) + " with " + std::to_string(k) + " complete transactions " + FirstDiff(got, state(k)));
    vh::Count("torn_files");
    vh::Eval();
    // And the storage works from there on.
    s->ReadWriteTransaction([](MutableFields<S> f) {
       DRec d;
       d.id = "after";
       f.od.Add(d);
     }).Wait();
    next = Snapshot(*s);
    }
    auto s2 = S::CreateMasterStorage(fn3);
    const std::string again = Snapshot(*s2);
    VH_CHECK(again == next, "replay:torn-continued", "cut at " + std::to_string(cut) + " " + FirstDiff(again, next));
  }
  ::unlink(fn.c_str());
  ::unlink(fn2.c_str());
  ::unlink(fn3.c_str());
}
#endif

// ---------------------------------------------------------------------------------------------------------------
#if PARTS & 4
CURRENT_STRUCT(Acc) {
  CURRENT_FIELD(id, int64_t, 0);
  CURRENT_FIELD(balance, int64_t, 0);
  CURRENT_USE_FIELD_AS_KEY(id);
};
CURRENT_STRUCT(Ctr) {
  CURRENT_FIELD(name, std::string);
  CURRENT_FIELD(n, int64_t, 0);
  CURRENT_USE_FIELD_AS_KEY(name);
};
CURRENT_STRUCT(Pos) {
  CURRENT_FIELD(r, int64_t, 0);
  CURRENT_FIELD(c, int64_t, 0);
  CURRENT_FIELD(who, std::string);
  CURRENT_USE_FIELD_AS_ROW(r);
  CURRENT_USE_FIELD_AS_COL(c);
};
CURRENT_STORAGE_FIELD_ENTRY(UnorderedDictionary, Acc, EAcc);
CURRENT_STORAGE_FIELD_ENTRY(OrderedDictionary, Ctr, ECtr);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedOneToOrderedOne, Pos, EPos);
CURRENT_STORAGE(Bank) {
  CURRENT_STORAGE_FIELD(acc, EAcc);
  CURRENT_STORAGE_FIELD(ctr, ECtr);
  CURRENT_STORAGE_FIELD(pos, EPos);
};

static std::atomic<uint64_t> g_ticket{1};
static uint64_t Ticket() { return g_ticket.fetch_add(1, std::memory_order_relaxed); }

template <typename FIELDS>
static uint64_t BankHash(const FIELDS& f) {
  uint64_t h = 0;
  for (const auto& a : f.acc) h += vh::hash_mix(vh::hash_mix(1, a.id), a.balance);
  for (const auto& p : f.pos) h += vh::hash_mix(vh::hash_mix(2, p.r), p.c);
  return h;
}
static const int64_t kAccounts = 6, kInitial = 1000;

struct OpRec {
  uint64_t start = 0, finish = 0;
  int64_t n = -1;        // The counter as seen.
  uint64_t hash = 0;     // Of the state as seen.
  bool rw = false, committed = false, refused = false, follower = false, in_f2 = false;
  int64_t sum = 0;
  std::string tag;
};

template <typename S>
static void BankCase(vh::Rng& r, uint64_t idx) {
  vh::perturb_level() = static_cast<int>(r.below(8));
  constexpr bool file = std::is_same_v<S, Bank<StreamStreamPersister>>;
  const std::string fn = vh::opt().scratch + "/bank_" + std::to_string(idx);
  ::unlink(fn.c_str());
  const int nthreads = static_cast<int>(2 + r.below(4)), per = static_cast<int>(8 + r.below(30));
  const bool shutdown = r.chance(40), followers = r.chance(60), flip = r.chance(50);
  vh::Case(std::string(file ? "file" : "mem") + " threads=" + std::to_string(nthreads) + " per=" + std::to_string(per) + (shutdown ? " shutdown" : "") + (followers ? " followers" : "") + (flip ? " flip" : ""));
  Optional<Owned<typename S::stream_t>> ostream;
  if constexpr (file) {
    ostream = S::stream_t::CreateStream(fn);
  } else {
    ostream = S::stream_t::CreateStream();
  }
  auto& stream = Value(ostream);
  std::vector<std::vector<OpRec>> recs;
  std::mutex recs_mutex;
  std::atomic<uint64_t> shutdown_ticket{0};

  auto init = [&](S& s) {
    s.ReadWriteTransaction([&](MutableFields<S> f) {
       for (int64_t i = 0; i < kAccounts; ++i) {
         Acc a;
         a.id = i;
         a.balance = kInitial;
         f.acc.Add(a);
       }
       Ctr c;
       c.name = "n";
       c.n = 1;
       f.ctr.Add(c);
       f.SetTransactionMetaField("tag", "init");
     }).Wait();
  };
  auto see = [&](const auto& f, OpRec& o) {
    const auto c = f.ctr["n"];
    o.n = Exists(c) ? Value(c).n : 0;
    o.hash = BankHash(f);
    o.sum = 0;
    for (const auto& a : f.acc) o.sum += a.balance;
  };
  std::atomic<uint64_t> acknowledged{0};
  auto rw = [&](S& s, vh::Rng& rr, OpRec& o) {
    o.rw = true;
    const int how = static_cast<int>(rr.below(8));
    const int64_t from = static_cast<int64_t>(rr.below(kAccounts)), to = static_cast<int64_t>(rr.below(kAccounts)), amount = static_cast<int64_t>(rr.below(50));
    const int64_t pr = static_cast<int64_t>(rr.below(4)), pc = static_cast<int64_t>(rr.below(4));
    auto body = [&](MutableFields<S> f) {
      see(f, o);
      f.SetTransactionMetaField("tag", o.tag);
      auto put = [&](int64_t id, int64_t d) {
        Acc a = Value(f.acc[id]);
        a.balance += d;
        f.acc.Add(a);
      };
      put(from, -amount);
      if (rr.chance(20)) std::this_thread::yield();
      if (how == 0) CURRENT_STORAGE_THROW_ROLLBACK();
      put(to, amount);
      Pos p;
      p.r = pr;
      p.c = pc;
      p.who = o.tag;
      f.pos.Add(p);
      if (how == 1) throw Custom(1);
      Ctr c = Value(f.ctr["n"]);
      ++c.n;
      f.ctr.Add(c);
    };
    o.start = Ticket();
    try {
      if (how == 2) {
        bool in2 = false;
        const auto res = s.ReadWriteTransaction([&](MutableFields<S> f) { body(f); return 1; }, [&](int) { in2 = true; }).Go();
        o.committed = WasCommitted(res);
        VH_CHECK(in2 == o.committed, "conc:second-step", o.tag);
      } else {
        const auto res = s.ReadWriteTransaction([&](MutableFields<S> f) { body(f); }).Go();
        o.committed = WasCommitted(res);
      }
      VH_CHECK(o.committed == (how != 0), "conc:outcome", o.tag);
      if (o.committed) {
        // What is known to be committed is in the log already.
        const uint64_t n = ++acknowledged;
        VH_CHECK(stream->Data()->Size() >= n, "conc:acknowledged, not in the log", o.tag);
      }
    } catch (const Custom&) {
      VH_CHECK(how == 1, "conc:outcome", o.tag);
    } catch (const StorageInGracefulShutdownException&) {
      o.refused = true;
    } catch (const current::storage::ReadWriteTransactionInFollowerStorageException&) {
      o.refused = true;
      o.follower = true;
    }
    o.finish = Ticket();
  };
  auto ro = [&](S& s, vh::Rng& rr, OpRec& o, bool follower) {
    o.follower = follower || !s.IsMasterStorage();
    o.start = Ticket();
    try {
      if (rr.chance(30)) {
        s.ReadOnlyTransaction([&](ImmutableFields<S> f) { see(f, o); return 1; }, [&](int) { o.in_f2 = true; }).Wait();
      } else {
        s.ReadOnlyTransaction([&](ImmutableFields<S> f) { see(f, o); if (rr.chance(10)) std::this_thread::yield(); }).Go();
      }
    } catch (const StorageInGracefulShutdownException&) {
      o.refused = true;
    }
    if (o.n < 0) o.refused = true;
    o.finish = Ticket();
  };
  auto worker = [&](S& s, int id, uint64_t seed, int ops, bool follower_only) {
    vh::Rng rr(seed);
    std::vector<OpRec> mine;
    for (int i = 0; i < ops; ++i) {
      OpRec o;
      o.tag = std::to_string(id) + ":" + std::to_string(i);
      if (!follower_only && rr.chance(60)) {
        rw(s, rr, o);
      } else {
        ro(s, rr, o, follower_only);
      }
      mine.push_back(o);
    }
    std::lock_guard<std::mutex> l(recs_mutex);
    recs.push_back(std::move(mine));
  };
  auto follower_life = [&](int id, uint64_t seed, int ops) {
    // Followers come and go while the master is at work.
    vh::Rng rr(seed);
    ::usleep(rr.below(2000));
    auto f = S::CreateFollowingStorageAtopExistingStream(stream);
    const uint64_t reader_seed = rr.next();
    std::thread reader([&] { worker(*f, id, reader_seed, ops, true); });
    auto last = std::chrono::microseconds(-1);
    for (int i = 0; i < 5; ++i) {
      const auto us = f->LastAppliedTimestamp();
      VH_CHECK(us >= last, "conc:last-applied-went-back", "");
      last = us;
      VH_CHECK(!f->IsMasterStorage(), "conc:follower-role", "");
      ::usleep(rr.below(300));
    }
    reader.join();
  };

  uint64_t after_phase1 = 0;
  {
    auto s = S::CreateMasterStorageAtopExistingStream(stream);
    init(*s);
    std::vector<std::thread> th;
    for (int t = 0; t < nthreads; ++t) {
      const uint64_t seed = r.next();
      th.emplace_back([&, t, seed] { worker(*s, t, seed, per, false); });
    }
    if (followers) {
      const int nf = static_cast<int>(1 + r.below(2));
      for (int t = 0; t < nf; ++t) {
        const uint64_t seed = r.next();
        th.emplace_back([&, t, seed] { follower_life(100 + t, seed, per); });
      }
    }
    if (shutdown) {
      ::usleep(r.below(4000));
      s->GracefulShutdown();
      shutdown_ticket = Ticket();
    }
    for (auto& t : th) t.join();
    after_phase1 = stream->Data()->Size();
    if (!shutdown) {
      VH_CHECK(s->LastAppliedTimestamp() == stream->Data()->LastPublishedIndexAndTimestamp().us, "conc:last-applied", "master");
    }
  }
  if (flip) {
    // A follower takes over while it is being read from and asked to write.
    auto f = S::CreateFollowingStorageAtopExistingStream(stream);
    std::vector<std::thread> th;
    for (int t = 0; t < 2; ++t) {
      const uint64_t seed = r.next();
      th.emplace_back([&, t, seed] { worker(*f, 200 + t, seed, per / 2 + 1, t == 1); });
    }
    th.emplace_back([&] {
      auto last = std::chrono::microseconds(-1);
      bool master = false;
      for (int i = 0; i < 20; ++i) {
        const auto us = f->LastAppliedTimestamp();
        VH_CHECK(us >= last, "conc:last-applied-went-back", "");
        last = us;
        const bool m = f->IsMasterStorage();
        VH_CHECK(m || !master, "conc:flipped-back", "");
        master = m;
      }
    });
    ::usleep(r.below(1500));
    f->FlipToMaster();
    VH_CHECK(f->IsMasterStorage(), "conc:flip-role", "");
    for (auto& t : th) t.join();
    OpRec o;
    o.tag = "300:0";
    vh::Rng rr(r.next());
    rw(*f, rr, o);
    VH_CHECK(!o.refused, "conc:flip-refuses", "a transaction after FlipToMaster() returned was refused");
    std::lock_guard<std::mutex> l(recs_mutex);
    recs.push_back({o});
  }

  // Offline: the log is the serialization order.
  std::map<std::string, uint64_t> where;     // tag -> index in the log.
  std::vector<uint64_t> hashes{0};           // [n] = hash of the state with the counter of `n`.
  std::vector<int64_t> balances(kAccounts, 0);
  {
    std::map<int64_t, int64_t> acc;
    std::map<std::pair<int64_t, int64_t>, int> pos;
    int64_t n = 0;
    struct V {
      std::map<int64_t, int64_t>& acc;
      std::map<std::pair<int64_t, int64_t>, int>& pos;
      int64_t& n;
      void operator()(const EAccUpdated& e) { acc[e.data.id] = e.data.balance; }
      void operator()(const EAccDeleted& e) { acc.erase(e.key); }
      void operator()(const ECtrUpdated& e) { n = e.data.n; }
      void operator()(const ECtrDeleted&) {}
      void operator()(const EPosUpdated& e) { pos[{e.data.r, e.data.c}] = 1; }
      void operator()(const EPosDeleted& e) { pos.erase(e.key); }
    } v{acc, pos, n};
    uint64_t i = 0;
    for (const auto& e : stream->Data()->Iterate()) {
      for (const auto& m : e.entry.mutations) m.Call(v);
      const auto tit = e.entry.meta.fields.find("tag");
      const std::string tag = tit == e.entry.meta.fields.end() ? "?" : tit->second;
      VH_CHECK(where.emplace(tag, i).second, "conc:logged-twice", tag);
      VH_CHECK(n == static_cast<int64_t>(i + 1), "conc:lost-update", "counter " + std::to_string(n) + " at log index " + std::to_string(i));
      int64_t sum = 0;
      for (const auto& a : acc) sum += a.second;
      VH_CHECK(sum == kAccounts * kInitial, "conc:sum", "sum " + std::to_string(sum) + " at log index " + std::to_string(i));
      uint64_t h = 0;
      for (const auto& a : acc) h += vh::hash_mix(vh::hash_mix(1, a.first), a.second);
      for (const auto& p : pos) h += vh::hash_mix(vh::hash_mix(2, p.first.first), p.first.second);
      hashes.push_back(h);
      ++i;
    }
  }
  std::vector<const OpRec*> committed;
  uint64_t order_hash = 0;
  std::set<std::string> tags;
  for (const auto& v : recs) {
    int64_t last_n = -1;
    for (const auto& o : v) {
      vh::Eval();
      const bool logged = where.count(o.tag) > 0;
      if (o.rw) {
        tags.insert(o.tag);
        VH_CHECK(logged == o.committed, "conc:log-vs-result", o.tag + " committed=" + std::to_string(o.committed) + " logged=" + std::to_string(logged));
        if (o.committed && logged) {
          committed.push_back(&o);
          VH_CHECK(o.n == static_cast<int64_t>(where[o.tag]), "conc:read-write-not-serial", o.tag + " saw " + std::to_string(o.n) + " and is at " + std::to_string(where[o.tag]));
        }
      }
      if (o.n >= 0) {
        VH_CHECK(o.n < static_cast<int64_t>(hashes.size()) && hashes[o.n] == o.hash, "conc:state", o.tag + " saw a state that never was; n=" + std::to_string(o.n) + (o.follower ? " follower" : ""));
        VH_CHECK(o.n == 0 || o.sum == kAccounts * kInitial, "conc:sum-seen", o.tag);
        VH_CHECK(o.n >= last_n, "conc:went-back", o.tag);
        last_n = o.n;
      }
      if (shutdown_ticket && o.start > shutdown_ticket && !o.follower && o.tag.find("00:") == std::string::npos) {
        VH_CHECK(o.refused, "conc:after-shutdown", o.tag);
      }
      if (!shutdown && !o.follower) VH_CHECK(!o.refused, "conc:refused", o.tag);
      vh::Count(o.rw ? (o.committed ? "rw_committed" : "rw_not") : (o.follower ? "ro_follower" : "ro"));
      order_hash = vh::hash_mix(order_hash, o.n);
    }
  }
  for (const auto& e : where) VH_CHECK(e.first == "init" || tags.count(e.first), "conc:log-stray", e.first);
  // Real time: what was over before something else began precedes it.
  for (const auto* o : committed) {
    for (const auto& v : recs) {
      for (const auto& q : v) {
        if (q.n < 0 || q.refused) continue;
        const int64_t idx = static_cast<int64_t>(where[o->tag]);
        if (!q.follower) VH_CHECK(!(o->finish < q.start && q.n <= idx), "conc:stale", q.tag + " saw " + std::to_string(q.n) + " after " + o->tag + " was committed at " + std::to_string(idx));
        VH_CHECK(!(q.finish < o->start && q.n > idx), "conc:from-the-future", q.tag);
      }
    }
  }
  vh::Distinct(order_hash);
  vh::Count("serialized_transactions", where.size());
  vh::perturb_level() = 0;
  (void)after_phase1;
  ::unlink(fn.c_str());
}
#endif

int main(int argc, char** argv) {
  return vh::Main(argc, argv, [] {
    auto& o = vh::opt();
    vh::Rng seed(o.seed * 1000003 + o.shard * 7919 + vh::hash_str(o.mode));
#if PARTS & 2
    int port = 0;
    if (o.mode == "replay") {
      auto p = current::net::ReserveLocalPort();
      port = p;
      HTTP(std::move(p));
    }
#endif
    for (uint64_t i = 0; i < o.cases && !vh::TooMany(); ++i) {
      vh::Rng r = seed.fork();
      vh::Count("cases");
#if PARTS & 1
      if (o.mode == "txn") TxnCase(r, false);
      if (o.mode == "cont") TxnCase(r, true);
#endif
#if PARTS & 2
      if (o.mode == "replay") ReplayCase(r, port, o.shard * 100000 + i);
#endif
#if PARTS & 4
      if (o.mode == "conc") {
        if (r.chance(30)) {
          BankCase<Bank<StreamStreamPersister>>(r, o.shard * 100000 + i);
        } else {
          BankCase<Bank<StreamInMemoryStreamPersister>>(r, i);
        }
      }
#endif
    }
  });
}
