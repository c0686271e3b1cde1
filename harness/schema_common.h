// The parts of the programs made by gen_types.py which do not depend on the types.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <fstream>
#include <iostream>
#include <random>
#include <thread>

#include "bricks/file/file.h"

using namespace current;
using current::reflection::CurrentTypeID;
using current::reflection::Language;
using current::reflection::SchemaInfo;
using current::reflection::StructSchema;
using current::reflection::TypeID;

inline std::mt19937_64& G() {
  static std::mt19937_64 g(12345);
  return g;
}
inline uint64_t Rnd(uint64_t n) { return G()() % n; }

template <typename T, typename ENABLE = void>
struct FillImpl;
template <typename T>
void Fill(T& x, int depth) {
  FillImpl<T>::Go(x, depth);
}
template <typename T>
struct FillImpl<T, std::enable_if_t<std::is_integral_v<T>>> {
  static void Go(T& x, int) { x = Rnd(3) ? static_cast<T>(Rnd(100)) : static_cast<T>(G()()); }
};
template <>
struct FillImpl<bool> {
  static void Go(bool& x, int) { x = Rnd(2); }
};
template <>
struct FillImpl<char> {
  static void Go(char& x, int) { x = static_cast<char>('a' + Rnd(26)); }
};
template <typename T>
struct FillImpl<T, std::enable_if_t<std::is_floating_point_v<T>>> {
  static void Go(T& x, int) { x = static_cast<T>(static_cast<int>(Rnd(2000)) - 1000) / 8; }
};
template <typename T>
struct FillImpl<T, std::enable_if_t<std::is_enum_v<T>>> {
  static void Go(T& x, int) { x = static_cast<T>(Rnd(4) * 3); }
};
template <>
struct FillImpl<std::string> {
  static void Go(std::string& x, int) {
    x.clear();
    for (size_t n = Rnd(6); n; --n) x += static_cast<char>(' ' + Rnd(95));
  }
};
template <>
struct FillImpl<std::chrono::microseconds> {
  static void Go(std::chrono::microseconds& x, int) { x = std::chrono::microseconds(Rnd(1ull << 50)); }
};
template <>
struct FillImpl<std::chrono::milliseconds> {
  static void Go(std::chrono::milliseconds& x, int) { x = std::chrono::milliseconds(Rnd(1ull << 40)); }
};
template <typename T, size_t N>
struct FillImpl<std::array<T, N>> {
  static void Go(std::array<T, N>& x, int d) {
    for (auto& e : x) Fill(e, d - 1);
  }
};
template <typename T>
struct FillImpl<std::vector<T>> {
  static void Go(std::vector<T>& x, int d) {
    x.resize(d > 0 ? Rnd(4) : 0);
    for (auto& e : x) Fill(e, d - 1);
  }
};
template <typename T, typename V>
void FillDict(T& x, int d) {
  x.clear();
  for (size_t n = d > 0 ? Rnd(4) : 0; n; --n) {
    typename T::key_type k;
    Fill(k, d - 1);
    Fill(x[k], d - 1);
  }
}
template <typename K, typename V>
struct FillImpl<std::map<K, V>> {
  static void Go(std::map<K, V>& x, int d) { FillDict<std::map<K, V>, V>(x, d); }
};
template <typename K, typename V>
struct FillImpl<std::unordered_map<K, V>> {
  // Of one element at most, to not depend on the order.
  static void Go(std::unordered_map<K, V>& x, int d) {
    x.clear();
    if (d > 0 && Rnd(3)) {
      K k;
      Fill(k, d - 1);
      Fill(x[k], d - 1);
    }
  }
};
template <typename T>
struct FillImpl<std::set<T>> {
  static void Go(std::set<T>& x, int d) {
    x.clear();
    for (size_t n = Rnd(4); n; --n) {
      T k;
      Fill(k, d - 1);
      x.insert(k);
    }
  }
};
template <typename T>
struct FillImpl<std::unordered_set<T>> {
  static void Go(std::unordered_set<T>& x, int d) {
    x.clear();
    if (Rnd(3)) {
      T k;
      Fill(k, d - 1);
      x.insert(k);
    }
  }
};
template <typename A, typename B>
struct FillImpl<std::pair<A, B>> {
  static void Go(std::pair<A, B>& x, int d) {
    Fill(x.first, d - 1);
    Fill(x.second, d - 1);
  }
};
template <typename T>
struct FillImpl<Optional<T>> {
  static void Go(Optional<T>& x, int d) {
    if (d > 0 && Rnd(2)) {
      T y;
      Fill(y, d - 1);
      x = std::move(y);
    } else {
      x = nullptr;
    }
  }
};
template <typename NAME, typename... TS>
struct FillImpl<VariantImpl<NAME, TypeListImpl<TS...>>> {
  static void Go(VariantImpl<NAME, TypeListImpl<TS...>>& x, int d) {
    const size_t which = Rnd(sizeof...(TS));
    size_t i = 0;
    const auto Try = [&](auto* p) {
      if (i++ == which) {
        std::decay_t<decltype(*p)> y;
        Fill(y, d - 1);
        x = std::move(y);
      }
    };
    (Try(static_cast<TS*>(nullptr)), ...);
  }
};
struct FieldFiller {
  int d;
  template <typename T>
  void operator()(const char*, T& x) const {
    Fill(x, d - 1);
  }
};
template <typename T>
void FillStruct(T& x, int d) {
  if constexpr (!std::is_same_v<T, CurrentStruct>) {
    FillStruct(static_cast<current::reflection::SuperType<T>&>(x), d);
    current::reflection::VisitAllFields<T, current::reflection::FieldNameAndMutableValue>::WithObject(x, FieldFiller{d});
  }
}
template <typename T>
struct FillImpl<T, std::enable_if_t<IS_CURRENT_STRUCT(T)>> {
  static void Go(T& x, int d) { FillStruct(x, d); }
};

inline void Report(const std::string& key, const std::string& detail) {
  std::string d = detail;
  for (char& c : d) {
    if (c == '\n' || c == '\t') c = ' ';
  }
  std::cout << "VIOLATION " << key << '\t' << d << std::endl;
}

struct DescribeAll {
  const SchemaInfo& s;
  std::string& out;
  template <Language L>
  void PerLanguage() {
    out += s.Describe<L>();
    out += '\f';
    out += s.Describe<L>(false, current::reflection::NamespaceToExpose("Exposed"));
    out += '\f';
  }
};
inline std::string Everything(const SchemaInfo& s) {
  std::string out;
  current::reflection::ForEachLanguage(DescribeAll{s, out});
  return out;
}

struct Stage1 {
  std::vector<uint64_t (*)()> id_of;
  std::vector<uint64_t> ids;
  std::vector<void (*)(StructSchema&)> add;
  std::ofstream data{"data.txt"};
  template <typename T>
  void Type(int) {
    id_of.push_back(+[] { return static_cast<uint64_t>(CurrentTypeID<T>()); });
  }
  void TypesDone() {
    for (auto f : id_of) ids.push_back(f());
    for (size_t i = 0; i < ids.size(); ++i) std::cout << "TYPE " << i << ' ' << ids[i] << '\n';
    // The same ids for every thread, whichever is the first one it looks at.
    std::vector<std::thread> threads;
    std::atomic_int ready{0};
    for (int t = 0; t < 6; ++t) {
      std::vector<size_t> p(ids.size());
      for (size_t i = 0; i < p.size(); ++i) p[i] = i;
      std::shuffle(p.begin(), p.end(), G());
      threads.emplace_back([this, p, &ready] {
        ++ready;
        while (ready < 6) std::this_thread::yield();
        for (size_t i : p) {
          const uint64_t x = id_of[i]();
          if (x != ids[i]) Report("schema:typeid order", std::to_string(i) + " " + std::to_string(x) + " " + std::to_string(ids[i]));
        }
      });
    }
    for (auto& t : threads) t.join();
  }
  template <typename T>
  void Root(int i) {
    add.push_back(+[](StructSchema& s) { s.AddType<T>(); });
    StructSchema s;
    s.AddType<T>();
    const SchemaInfo& info = s.GetSchemaInfo();
    const std::string json = JSON<JSONFormat::Minimalistic>(info);
    std::cout << "SCHEMA " << i << ' ' << json << std::endl;
    if (info.Describe<Language::InternalFormat>() != json) Report("schema:internal", json);
    const std::string all = Everything(info);
    const SchemaInfo parsed = ParseJSON<SchemaInfo, JSONFormat::Minimalistic>(json);
    if (JSON(parsed) != JSON(info) || Everything(parsed) != all) Report("schema:parsed", json);
    const SchemaInfo again = ParseJSON<SchemaInfo>(JSON(info));
    if (JSON(again) != JSON(info) || Everything(again) != all) Report("schema:parsed, full", json);
    StructSchema loaded(parsed);
    loaded.AddType<T>();
    if (JSON(loaded.GetSchemaInfo()) != JSON(info)) Report("schema:added again", json);
    // Another thread, which has reflected nothing yet.
    std::string other;
    std::thread([&] {
      StructSchema s2;
      s2.AddType<T>();
      other = JSON<JSONFormat::Minimalistic>(s2.GetSchemaInfo());
    }).join();
    if (other != json) Report("schema:thread", other + " instead of " + json);
    for (int k = 0; k < 12; ++k) {
      T x;
      Fill(x, 5);
      data << i << '\t' << JSON(x) << '\n';
    }
    data << "id" << i << '\t' << static_cast<uint64_t>(CurrentTypeID<T>()) << '\n';
    data << "schema" << i << '\t' << json << '\n';
  }
  int Done(uint64_t seed) {
    StructSchema s;
    // By four threads at once.
    std::vector<std::thread> threads;
    std::string js[4];
    StructSchema ss[4];
    for (int k = 0; k < 4; ++k) {
      std::shuffle(add.begin(), add.end(), G());
      threads.emplace_back([&js, &ss, k, order = add] {
        for (auto f : order) f(ss[k]);
        js[k] = JSON(ss[k].GetSchemaInfo().types);
      });
    }
    for (auto& t : threads) t.join();
    for (int k = 1; k < 4; ++k) {
      if (js[k] != js[0]) Report("schema:joint", js[k] + " instead of " + js[0]);
    }
    s = ss[3];
    const SchemaInfo& info = s.GetSchemaInfo();
    const auto Write = [](const std::string& f, const std::string& c) { FileSystem::WriteStringToFile(c, f.c_str()); };
    Write("all.h", info.Describe<Language::Current>(true, current::reflection::NamespaceToExpose("Gen")));
    Write("cpp.h", info.Describe<Language::CPP>(false));
    Write("schema.ts", info.Describe<Language::TypeScript>());
    Write("schema.md", info.Describe<Language::Markdown>());
    Write("schema.fs", info.Describe<Language::FSharp>());
    Write("schema.json", info.Describe<Language::JSON>());
    std::cout << "DONE" << std::endl;
    return 0;
  }
};

struct Stage2 {
  std::map<std::string, std::vector<std::string>> data;
  uint64_t evals = 0, evolved = 0;
  Stage2() {
    std::ifstream f("data.txt");
    std::string s;
    while (std::getline(f, s)) {
      const size_t t = s.find('\t');
      data[s.substr(0, t)].push_back(s.substr(t + 1));
    }
  }
  template <typename ORIG, typename T>
  void Root(int i) {
    const std::string n = std::to_string(i);
    const std::string id = std::to_string(static_cast<uint64_t>(CurrentTypeID<T>()));
    if (id != data["id" + n].at(0)) Report("schema:generated typeid", data["schema" + n].at(0));
    StructSchema s;
    s.AddType<T>();
    if (JSON<JSONFormat::Minimalistic>(s.GetSchemaInfo()) != data["schema" + n].at(0)) Report("schema:generated schema", JSON<JSONFormat::Minimalistic>(s.GetSchemaInfo()) + " instead of " + data["schema" + n].at(0));
    for (const std::string& j : data[n]) {
      ++evals;
      try {
        const T x = ParseJSON<T>(j);
        const std::string k = JSON(x);
        if (k != j) Report("schema:generated data", k + " instead of " + j);
      } catch (const current::Exception& e) {
        Report("schema:generated data", e.DetailedDescription() + " for " + j);
      }
    }
  }
  template <typename FROM, typename INTO, typename T, typename ORIG>
  void EvolveRoot(int i) {
    for (const std::string& j : data[std::to_string(i)]) {
      ++evals;
      ++evolved;
      const T x = ParseJSON<T>(j);
      ORIG y;
      ::current::type_evolution::Evolve<FROM, T, ::current::type_evolution::NaturalEvolver>::template Go<INTO>(x, y);
      const std::string k = JSON(y);
      if (k != j) Report("schema:evolved", k + " instead of " + j);
    }
  }
  int Done() {
    std::cout << "EVAL " << evals << "\nCOUNT evolved " << evolved << "\nDONE" << std::endl;
    return 0;
  }
};
