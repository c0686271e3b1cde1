// C34: the filesystem wrapper against an in-memory model of a tree of files, directories and symbolic links.
// Runs unprivileged, inside the scratch directory only.
#include "vh.h"

#include "bricks/file/file.h"

#include <algorithm>
#include <dirent.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>

using current::FileSystem;

static std::string R;  // Scratch root; all the paths of the model are relative to it.

struct Node {
  char kind;         // 'f', 'd', 'l'.
  std::string data;  // Contents or the (absolute, within the model) target.
  bool operator==(const Node& o) const { return kind == o.kind && data == o.data; }
};
using Tree = std::map<std::string, Node>;

static void WalkReal(const std::string& rel, Tree& t) {
  DIR* d = ::opendir((R + rel).c_str());
  if (!d) return;
  std::vector<std::string> names;
  while (struct dirent* e = ::readdir(d)) {
    if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name);
  }
  ::closedir(d);
  for (const auto& n : names) {
    const std::string p = rel + "/" + n;
    struct stat st;
    if (::lstat((R + p).c_str(), &st)) continue;
    if (S_ISDIR(st.st_mode)) {
      t[p] = Node{'d', ""};
      WalkReal(p, t);
    } else if (S_ISLNK(st.st_mode)) {
      char b[4096];
      const ssize_t k = ::readlink((R + p).c_str(), b, sizeof(b));
      std::string s(b, k < 0 ? 0 : k);
      t[p] = Node{'l', s.compare(0, R.size(), R) == 0 ? s.substr(R.size()) : "?" + s};
    } else {
      std::string s;
      int fd = ::open((R + p).c_str(), O_RDONLY);
      char b[65536];
      ssize_t k;
      while (fd >= 0 && (k = ::read(fd, b, sizeof(b))) > 0) s.append(b, k);
      if (fd >= 0) ::close(fd);
      t[p] = Node{'f', s};
    }
  }
}
static std::string Show(const Tree& t) {
  std::string s;
  for (const auto& x : t) s += x.first + ":" + x.second.kind + (x.second.kind == 'd' ? "" : "(" + x.second.data.substr(0, 20) + ")") + " ";
  return s.substr(0, 900);
}

struct Res {
  int err;         // 0 if it is (or its parent is) there.
  std::string at;  // The path with all the links followed.
  bool exists;
};
static Res Resolve(const Tree& t, const std::string& path, bool follow_last, int depth = 0) {
  if (depth > 30) return {ELOOP, "", false};
  std::string cur;
  size_t i = 0;
  while (i < path.size()) {
    while (i < path.size() && path[i] == '/') ++i;
    if (i >= path.size()) break;
    size_t j = path.find('/', i);
    if (j == std::string::npos) j = path.size();
    const std::string name = path.substr(i, j - i);
    if (name.size() > 255) return {ENAMETOOLONG, "", false};
    const bool last = path.find_first_not_of('/', j) == std::string::npos;
    const std::string next = cur + "/" + name;
    const auto it = t.find(next);
    if (it == t.end()) return last ? Res{0, next, false} : Res{ENOENT, "", false};
    if (it->second.kind == 'l' && (!last || follow_last)) {
      Res r = Resolve(t, it->second.data, true, depth + 1);
      if (r.err) return r;
      if (last) return r;
      if (!r.exists) return {ENOENT, "", false};
      if (t.at(r.at).kind != 'd') return {ENOTDIR, "", false};
      cur = r.at;
    } else {
      if (!last && it->second.kind != 'd') return {ENOTDIR, "", false};
      cur = next;
      if (last) return {0, next, true};
    }
    i = j;
  }
  return {0, cur, true};
}
static bool IsUnder(const std::string& p, const std::string& dir) { return p.size() > dir.size() && p.compare(0, dir.size() + 1, dir + "/") == 0; }
static std::string Parent(const std::string& p) { return p.substr(0, p.find_last_of('/')); }
static std::string Base(const std::string& p) { return p.substr(p.find_last_of('/') + 1); }
static std::vector<std::string> Children(const Tree& t, const std::string& dir) {
  std::vector<std::string> v;
  for (auto it = t.lower_bound(dir + "/"); it != t.end() && IsUnder(it->first, dir); ++it) {
    if (Parent(it->first) == dir) v.push_back(it->first);
  }
  return v;
}
static void EraseUnder(Tree& t, const std::string& dir) {
  for (auto it = t.lower_bound(dir + "/"); it != t.end() && IsUnder(it->first, dir);) it = t.erase(it);
}

static std::vector<std::string> Lines(const std::string& s) {
  std::vector<std::string> v;
  size_t i = 0;
  while (i < s.size()) {
    size_t j = s.find('\n', i);
    if (j == std::string::npos) j = s.size();
    v.push_back(s.substr(i, j - i));
    i = j + 1;
  }
  return v;
}

static std::string RandomName(vh::Rng& r) {
  static const char* n[] = {"a", "b", "c", "..a", "...", ".h", "x y", "-rf", "*", "\n", "\xff\xfe", "a.txt", "%s%n", "$HOME", "~"};
  if (r.chance(3)) return std::string(200 + r.below(60), 'n');
  return n[r.below(r.chance(60) ? 4 : sizeof(n) / sizeof(n[0]))];
}
static std::string RandomPath(vh::Rng& r, const Tree& t, bool mostly_existing) {
  std::vector<std::string> all;
  for (const auto& x : t) {
    if (x.first != "/w" && !IsUnder(x.first, "/v") && x.first != "/v") all.push_back(x.first);
  }
  if (!all.empty() && r.chance(mostly_existing ? 85 : 30)) return all[r.below(all.size())];
  // A child of some node: of a directory most of the time.
  std::vector<std::string> dirs{"/w"};
  for (const auto& p : all) {
    if (t.at(p).kind != 'f' || r.chance(8)) dirs.push_back(p);
  }
  std::string d = dirs[r.below(dirs.size())];
  if (r.chance(5)) d += "/" + RandomName(r);
  return d + "/" + RandomName(r);
}
static std::string RandomData(vh::Rng& r) {
  std::string s;
  const size_t n = r.chance(5) ? r.below(200000) : r.below(40);
  static const char a[] = {'\n', '\n', '\r', '\0', 'x', ' ', '\xff', 'a', '1'};
  for (size_t i = 0; i < n; ++i) s += a[r.below(sizeof(a))];
  return s;
}

enum Thrown { None, File, CannotRead, Dir, Mk, NoDir, NotDir, NotEmpty, Other };
template <typename F>
static Thrown Try(F&& f) {
  try {
    f();
    return None;
  } catch (const current::CannotReadFileException&) {
    return CannotRead;
  } catch (const current::MkDirException&) {
    return Mk;
  } catch (const current::DirDoesNotExistException&) {
    return NoDir;
  } catch (const current::PathNotDirException&) {
    return NotDir;
  } catch (const current::DirNotEmptyException&) {
    return NotEmpty;
  } catch (const current::DirException&) {
    return Dir;
  } catch (const current::FileException&) {
    return File;
  } catch (const std::exception&) {
    return Other;
  }
}
static size_t OpenFds() {
  size_t n = 0;
  DIR* d = ::opendir("/proc/self/fd");
  while (d && ::readdir(d)) ++n;
  if (d) ::closedir(d);
  return n;
}

struct Stop {};

static std::string g_log;
#define EXPECT_THROWN(got, want, key) \
  VH_CHECK((got) == (want), key, "thrown kind " + std::to_string(got) + ", expected " + std::to_string(want) + " in " + g_log)

using Item = std::tuple<std::string, std::string, std::string, bool, std::vector<std::string>>;
static void ExpectedScan(const Tree& t, const std::string& dir, const std::string& real, int mask, bool recursive, std::vector<std::string> comps, std::multiset<Item>& out) {
  for (const auto& c : Children(t, real)) {
    const Res at = Resolve(t, c, true);
    const bool is_dir = !at.err && at.exists && t.at(at.at).kind == 'd';
    if (mask & (is_dir ? 2 : 1)) {
      out.insert(Item(R + dir, Base(c), R + dir + "/" + Base(c), is_dir, comps));
    }
    if (recursive && is_dir) {
      auto cc = comps;
      cc.push_back(Base(c));
      ExpectedScan(t, dir + "/" + Base(c), at.at, mask, true, cc, out);
    }
  }
}

static void TreeCase(vh::Rng& r) {
  // The root is left clean by the previous case, checked at its end.
  Tree t;
  t["/w"] = Node{'d', ""};
  t["/v"] = Node{'d', ""};
  t["/v/d"] = Node{'d', ""};
  t["/v/d/precious"] = Node{'f', "keep"};
  t["/v/f"] = Node{'f', "keep me"};
  for (const auto& x : t) {
    if (x.second.kind == 'd') {
      ::mkdir((R + x.first).c_str(), 0755);
    } else {
      int fd = ::open((R + x.first).c_str(), O_CREAT | O_WRONLY, 0644);
      if (::write(fd, x.second.data.data(), x.second.data.size()) < 0) abort();
      ::close(fd);
    }
  }
  const size_t fds = OpenFds();
  g_log.clear();
  const int steps = 8 + r.below(50);
  uint64_t h = 0;
  for (int s = 0; s < steps; ++s) {
    const int op = r.below(20);
    h = vh::hash_mix(h, op);
    switch (op) {
      case 0:
      case 1:
      case 2: {
        const std::string p = RandomPath(r, t, false);
        const bool silent = r.chance(30);
        g_log += "mkdir" + std::to_string(silent) + " " + p + "; ";
        const Res a = Resolve(t, p, false);
        const bool ok = !a.err && !a.exists;
        const Thrown e = Try([&] { FileSystem::MkDir(R + p, silent ? FileSystem::MkDirParameters::Silent : FileSystem::MkDirParameters::ThrowExceptionOnError); });
        EXPECT_THROWN(e, ok || silent ? None : Mk, "file:mkdir");
        if (ok) t[a.at] = Node{'d', ""};
      } break;
      case 3:
      case 4:
      case 5: {
        const std::string p = RandomPath(r, t, r.chance(40));
        const bool append = r.chance(50);
        const std::string data = RandomData(r);
        g_log += "write" + std::to_string(append) + "[" + std::to_string(data.size()) + "] " + p + "; ";
        const Res a = Resolve(t, p, true);
        const bool ok = !a.err && (!a.exists || t.at(a.at).kind == 'f') && !IsUnder(a.at, "/v");
        if (!a.err && IsUnder(a.at, "/v")) break;
        const Thrown e = Try([&] { FileSystem::WriteStringToFile(data, (R + p).c_str(), append); });
        EXPECT_THROWN(e, ok ? None : File, "file:write");
        if (ok) {
          if (!append || !a.exists) t[a.at] = Node{'f', ""};
          t[a.at].data += data;
        }
      } break;
      case 6: {
        const std::string p = RandomPath(r, t, true);
        g_log += "read " + p + "; ";
        const Res a = Resolve(t, p, true);
        const bool ok = !a.err && a.exists && t.at(a.at).kind == 'f';
        std::string got;
        const Thrown e = Try([&] { got = FileSystem::ReadFileAsString(R + p); });
        EXPECT_THROWN(e, ok ? None : CannotRead, ok || a.err || !a.exists ? "file:read" : "file:read directory");
        if (ok) VH_CHECK(got == t.at(a.at).data, "file:contents", g_log);
      } break;
      case 7: {
        const std::string p = RandomPath(r, t, true);
        g_log += "lines " + p + "; ";
        const Res a = Resolve(t, p, true);
        const bool ok = !a.err && a.exists && t.at(a.at).kind == 'f';
        std::vector<std::string> got;
        const Thrown e = Try([&] { FileSystem::ReadFileByLines(R + p, [&](std::string&& s) { got.push_back(std::move(s)); }); });
        EXPECT_THROWN(e, ok ? None : CannotRead, ok || a.err || !a.exists ? "file:lines" : "file:lines directory");
        if (ok) VH_CHECK(got == Lines(t.at(a.at).data), "file:lines contents", g_log);
      } break;
      case 8:
      case 9: {
        const std::string p = RandomPath(r, t, true), q = RandomPath(r, t, r.chance(30));
        g_log += "rename " + p + " -> " + q + "; ";
        const Res a = Resolve(t, p, false), b = Resolve(t, q, false);
        bool ok = !a.err && a.exists && !b.err;
        bool move = true;
        if (ok) {
          const Node n = t.at(a.at);
          if (a.at == b.at) {
            move = false;
          } else if (IsUnder(b.at, a.at) || IsUnder(a.at, b.at)) {
            ok = false;
          } else if (b.exists) {
            const Node m = t.at(b.at);
            if (n.kind == 'd') {
              ok = m.kind == 'd' && Children(t, b.at).empty();
            } else {
              ok = m.kind != 'd';
            }
          }
          if (ok && move && (IsUnder(b.at, "/v") || IsUnder(a.at, "/v"))) break;
        }
        const Thrown e = Try([&] { FileSystem::RenameFile(R + p, R + q); });
        EXPECT_THROWN(e, ok ? None : File, "file:rename");
        if (ok && move) {
          t.erase(b.at);
          Tree moved;
          moved[b.at] = t.at(a.at);
          for (const auto& x : t) {
            if (IsUnder(x.first, a.at)) moved[b.at + x.first.substr(a.at.size())] = x.second;
          }
          EraseUnder(t, a.at);
          t.erase(a.at);
          for (const auto& x : moved) t[x.first] = x.second;
        }
      } break;
      case 10: {
        const std::string p = RandomPath(r, t, true);
        const Res a = Resolve(t, p, false);
        if (!a.err && a.exists && (t.at(a.at).kind == 'd' || IsUnder(a.at, "/v") || a.at == "/v")) break;
        const bool silent = r.chance(30);
        g_log += "rm" + std::to_string(silent) + " " + p + "; ";
        const bool ok = !a.err && a.exists;
        const Thrown e = Try([&] { FileSystem::RmFile(R + p, silent ? FileSystem::RmFileParameters::Silent : FileSystem::RmFileParameters::ThrowExceptionOnError); });
        EXPECT_THROWN(e, ok || silent ? None : File, "file:rm");
        if (ok) t.erase(a.at);
      } break;
      case 11:
      case 12: {
        const std::string p = RandomPath(r, t, true);
        const Res a = Resolve(t, p, false);
        const bool silent = r.chance(30);
        if (!a.err && (IsUnder(a.at, "/v") || a.at == "/v")) break;
        g_log += "rmdir" + std::to_string(silent) + " " + p + "; ";
        Thrown want = None;
        if (a.err && a.err != ENOENT) {
          want = File;
        } else if (a.err || !a.exists) {
          want = NoDir;
        } else if (t.at(a.at).kind != 'd') {
          want = File;
        } else if (!Children(t, a.at).empty()) {
          want = NotEmpty;
        }
        if (r.chance(30)) {
          // Scoped, and only if empty by then.
          EXPECT_THROWN(Try([&] { FileSystem::ScopedRmDir scope(R + p, r.chance(50), FileSystem::RmDirRecursive::No); }), None, "file:scoped rmdir");
        } else {
          const Thrown e = Try([&] { FileSystem::RmDir(R + p, silent ? FileSystem::RmDirParameters::Silent : FileSystem::RmDirParameters::ThrowExceptionOnError); });
          EXPECT_THROWN(e, silent ? None : want, "file:rmdir");
        }
        if (want == None) t.erase(a.at);
      } break;
      case 13: {
        // Recursively, never through the links inside. Not of a link itself.
        const std::string p = RandomPath(r, t, true);
        const Res a = Resolve(t, p, false);
        if (!a.err && a.exists && (t.at(a.at).kind == 'l' || IsUnder(a.at, "/v") || a.at == "/v")) break;
        if (!a.err && !a.exists && IsUnder(a.at, "/v")) break;
        const int how = r.below(4);
        g_log += "rmrf" + std::to_string(how) + " " + p + "; ";
        Thrown want = None;
        if (a.err) {
          want = a.err == ENOENT ? NoDir : a.err == ENOTDIR ? NotDir : File;
        } else if (!a.exists) {
          want = NoDir;
        } else if (t.at(a.at).kind != 'd') {
          want = NotDir;
        }
        Thrown e = None;
        if (how <= 1) {
          e = Try([&] { FileSystem::RmDir(R + p, how ? FileSystem::RmDirParameters::Silent : FileSystem::RmDirParameters::ThrowExceptionOnError, FileSystem::RmDirRecursive::Yes); });
        } else {
          const bool now = how == 2;
          e = Try([&] {
            FileSystem::ScopedRmDir scope(R + p, now);
            Tree got;
            WalkReal("", got);
            Tree m = t;
            if (now && want == None) {
              EraseUnder(m, a.at);
              m.erase(a.at);
            }
            VH_CHECK(got == m, "file:scoped rmdir", g_log + " got " + Show(got) + " expected " + Show(m));
          });
        }
        EXPECT_THROWN(e, how ? None : want, "file:rmrf");
        if (want == None) {
          EraseUnder(t, a.at);
          t.erase(a.at);
        }
      } break;
      case 14:
      case 15: {
        std::string p = r.chance(30) ? std::string("/w") : RandomPath(r, t, true);
        const Res a = Resolve(t, p, true);
        const int mask = 1 + r.below(3);
        bool recursive = r.chance(60);
        Thrown want = None;
        if (a.err) {
          want = a.err == ENOENT ? NoDir : a.err == ENOTDIR ? NotDir : File;
        } else if (!a.exists) {
          want = NoDir;
        } else if (t.at(a.at).kind != 'd') {
          want = NotDir;
        } else {
          for (const auto& x : t) {
            if (x.second.kind == 'l') {
              const Res b = Resolve(t, x.first, true);
              // Links to directories may form cycles.
              if (!b.err && b.exists && t.at(b.at).kind == 'd') recursive = false;
            }
          }
        }
        const int how = r.below(4);
        g_log += "scan" + std::to_string(mask) + std::to_string(recursive) + std::to_string(how) + " " + p + "; ";
        std::multiset<Item> got, want_items;
        if (want == None) ExpectedScan(t, p, a.at, mask, recursive, {}, want_items);
        const size_t stop = how ? ~size_t(0) : r.below(want_items.size() + 2);
        size_t seen = 0;
        bool stopped = false, after_stop = false;
        const auto F = [&](const FileSystem::ScanDirItemInfo& i) {
          if (stopped) after_stop = true;
          got.insert(Item(i.dirname, i.basename, i.pathname, i.is_directory, i.path_components_cref));
          ++seen;
        };
        Thrown e;
        const auto P = static_cast<FileSystem::ScanDirParameters>(mask);
        const auto Q = recursive ? FileSystem::ScanDirRecursive::Yes : FileSystem::ScanDirRecursive::No;
        if (how == 0) {
          e = Try([&] {
            FileSystem::ScanDirUntil(R + p, [&](const FileSystem::ScanDirItemInfo& i) {
              F(i);
              if (seen >= stop) stopped = true;
              return !stopped;
            }, P, Q);
          });
        } else if (how == 1) {
          e = Try([&] {
            try {
              FileSystem::ScanDir(R + p, [&](const FileSystem::ScanDirItemInfo& i) {
                F(i);
                throw Stop();
              }, P, Q);
            } catch (const Stop&) {
              stopped = true;
            }
          });
          VH_CHECK(seen == std::min<size_t>(1, want_items.size()), "file:scan exception", g_log);
        } else {
          e = Try([&] { FileSystem::ScanDir(R + p, F, P, Q); });
        }
        EXPECT_THROWN(e, want, "file:scan");
        VH_CHECK(!after_stop, "file:scan until", "called again after it was told to stop, in " + g_log);
        if (how >= 2 || (how == 0 && stop > want_items.size())) {
          VH_CHECK(got == want_items, "file:scan items", std::to_string(got.size()) + " items, expected " + std::to_string(want_items.size()) + " in " + g_log + Show(t));
        } else if (how == 0) {
          VH_CHECK(seen == std::min(std::max<size_t>(stop, 1), want_items.size()), "file:scan stop", g_log);
          VH_CHECK(std::includes(want_items.begin(), want_items.end(), got.begin(), got.end()), "file:scan part", g_log);
        }
      } break;
      case 16: {
        const std::string p = RandomPath(r, t, true);
        g_log += "stat " + p + "; ";
        const Res a = Resolve(t, p, true);
        const bool ok = !a.err && a.exists;
        bool is_dir = false;
        uint64_t size = 0;
        Thrown e = Try([&] { is_dir = FileSystem::IsDir(R + p); });
        EXPECT_THROWN(e, ok ? None : File, "file:isdir");
        if (ok) VH_CHECK(is_dir == (t.at(a.at).kind == 'd'), "file:isdir value", g_log);
        e = Try([&] { size = FileSystem::GetFileSize(R + p); });
        EXPECT_THROWN(e, ok && !is_dir ? None : File, "file:size");
        if (ok && !is_dir) VH_CHECK(size == t.at(a.at).data.size(), "file:size value", g_log);
      } break;
      case 17: {
        const std::string p = RandomPath(r, t, false);
        const Res a = Resolve(t, p, false);
        if (a.err || a.exists) break;
        if (IsUnder(a.at, "/v")) break;
        std::string target = r.chance(40) ? (r.chance(50) ? "/v/d" : "/v/f") : RandomPath(r, t, r.chance(70));
        if (target.find('\n') != std::string::npos && r.chance(50)) target = "/w";
        g_log += "symlink " + p + " -> " + target + "; ";
        if (!::symlink((R + target).c_str(), (R + p).c_str())) t[a.at] = Node{'l', target};
      } break;
      case 18: {
        const std::string p = RandomPath(r, t, false);
        const Res a = Resolve(t, p, false);
        if (!a.err && a.exists && t.at(a.at).kind != 'f') break;
        if (!a.err && IsUnder(a.at, "/v")) break;
        g_log += "scoped " + p + "; ";
        const bool now = r.chance(50);
        {
          FileSystem::ScopedRmFile scope(R + p, now);
          Tree got;
          WalkReal("", got);
          Tree m = t;
          if (now && !a.err) m.erase(a.at);
          VH_CHECK(got == m, "file:scoped rm", g_log);
          if (r.chance(70)) Try([&] { FileSystem::WriteStringToFile("temporary", (R + p).c_str()); });
        }
        if (!a.err) t.erase(a.at);
      } break;
      case 19: {
        // A failing write must be reported: a file size limit as a full disk.
        const std::string p = RandomPath(r, t, r.chance(60));
        const Res a = Resolve(t, p, true);
        if (a.err || IsUnder(a.at, "/v") || (a.exists && t.at(a.at).kind != 'f')) break;
        const bool append = r.chance(50);
        const size_t before = append && a.exists ? t.at(a.at).data.size() : 0;
        const std::string data = std::string(1 + r.below(r.chance(50) ? 50 : 20000), 'd');
        const size_t limit = before + r.below(data.size() + 20);
        struct rlimit old;
        ::getrlimit(RLIMIT_FSIZE, &old);
        // The harness' own output is way above the limit, hence nothing is reported within.
        struct rlimit lim = old;
        lim.rlim_cur = limit;
        ::setrlimit(RLIMIT_FSIZE, &lim);
        const Thrown e = Try([&] { FileSystem::WriteStringToFile(data, (R + p).c_str(), append); });
        ::setrlimit(RLIMIT_FSIZE, &old);
        const bool fits = before + data.size() <= limit;
        g_log += "limited " + std::to_string(limit) + " write" + std::to_string(append) + "[" + std::to_string(data.size()) + "] " + p + "; ";
        EXPECT_THROWN(e, fits ? None : File, "file:full disk");
        if (fits && e == None) {
          if (!append || !a.exists) t[a.at] = Node{'f', ""};
          t[a.at].data += data;
        } else {
          // Any part of it.
          Tree got;
          WalkReal("", got);
          const std::string was = before ? t.at(a.at).data : "";
          if (got.count(a.at)) {
            VH_CHECK((was + data).compare(0, got[a.at].data.size(), got[a.at].data) == 0 && got[a.at].data.size() >= was.size(), "file:partial", g_log);
            t[a.at] = got[a.at];
          } else {
            t.erase(a.at);
          }
        }
      } break;
    }
    Tree got;
    WalkReal("", got);
    if (!(got == t)) {
      vh::Violation("file:tree", "after " + g_log + ": " + Show(got) + " expected " + Show(t));
      break;
    }
    vh::Eval();
    vh::Distinct(vh::hash_mix(h, vh::hash_str(Show(t))));
  }
  VH_CHECK(OpenFds() == fds, "file:descriptors leaked", g_log);
  // The rest of it.
  g_log += "the end; ";
  // Of the links inside, none may be followed.
  EXPECT_THROWN(Try([] { FileSystem::RmDir(R + "/w", FileSystem::RmDirParameters::ThrowExceptionOnError, FileSystem::RmDirRecursive::Yes); }), None, "file:rmrf");
  Tree got;
  WalkReal("", got);
  EraseUnder(t, "/w");
  t.erase("/w");
  VH_CHECK(got == t, "file:rmrf tree", "after " + g_log + ": " + Show(got) + " expected " + Show(t));
  Try([] { FileSystem::RmDir(R + "/v", FileSystem::RmDirParameters::ThrowExceptionOnError, FileSystem::RmDirRecursive::Yes); });
}

// What is locked stays, and nothing else.
static void LockedCase(vh::Rng& r) {
  if (!::geteuid()) return;
  Tree t;
  const auto D = [&](const std::string& p) {
    t[p] = Node{'d', ""};
    ::mkdir((R + p).c_str(), 0755);
  };
  D("/w");
  std::vector<std::string> dirs{"/w"};
  for (int i = 0; i < 10; ++i) {
    const std::string p = dirs[r.below(dirs.size())] + "/" + std::to_string(i);
    if (r.chance(60)) {
      D(p);
      dirs.push_back(p);
    } else {
      t[p] = Node{'f', "x"};
      Try([&] { FileSystem::WriteStringToFile("x", (R + p).c_str()); });
    }
  }
  const std::string locked = dirs[r.below(dirs.size())];
  ::chmod((R + locked).c_str(), 0);
  EXPECT_THROWN(Try([&] { FileSystem::ScanDir(R + locked, [](const FileSystem::ScanDirItemInfo&) {}); }), File, "file:locked scan");
  FileSystem::RmDir(R + "/w", FileSystem::RmDirParameters::Silent, FileSystem::RmDirRecursive::Yes);
  ::chmod((R + locked).c_str(), 0755);
  Tree want, got;
  for (const auto& x : t) {
    // The locked one with everything inside, and those above.
    if (x.first == locked || IsUnder(x.first, locked) || IsUnder(locked, x.first)) want.insert(x);
  }
  WalkReal("", got);
  VH_CHECK(got == want, "file:locked", Show(got) + " expected " + Show(want));
  if (r.chance(50)) {
    // Throws and leaves the locked one.
    ::chmod((R + locked).c_str(), 0);
    const Thrown e = Try([] { FileSystem::RmDir(R + "/w", FileSystem::RmDirParameters::ThrowExceptionOnError, FileSystem::RmDirRecursive::Yes); });
    VH_CHECK(e == File, "file:locked throw", std::to_string(e));
    ::chmod((R + locked).c_str(), 0755);
  }
  FileSystem::RmDir(R + "/w", FileSystem::RmDirParameters::Silent, FileSystem::RmDirRecursive::Yes);
  got.clear();
  WalkReal("", got);
  VH_CHECK(got.empty(), "file:unlocked", Show(got));
  vh::Eval();
}

static void PureCase(vh::Rng& r) {
  static const char a[] = {'/', '.', 'a', 'b', '\\', ' ', '\0'};
  const auto S = [&] {
    std::string s;
    for (size_t n = r.below(7); n; --n) s += a[r.below(sizeof(a))];
    return s;
  };
  const std::string x = S(), y = S();
  std::string got;
  const Thrown e = Try([&] { got = FileSystem::JoinPath(x, y); });
  EXPECT_THROWN(e, y.empty() ? File : None, "file:join throw");
  if (!y.empty()) {
    const std::string want = y[0] == '/' || x.empty() ? y : x + (x[x.size() - 1] == '/' ? "" : "/") + y;
    VH_CHECK(got == want, "file:join", x + " + " + y + " = " + got);
  }
  std::string ext;
  for (size_t i = x.size(); i-- > 0;) {
    if (x[i] == '/' || x[i] == '\\') break;
    if (x[i] == '.') {
      ext = x.substr(i + 1);
      break;
    }
  }
  VH_CHECK(FileSystem::GetFileExtension(x) == ext, "file:extension", x);
  vh::Eval(2);
  vh::Distinct(vh::hash_mix(vh::hash_str(x), vh::hash_str(y)));
}

static void BigCase(vh::Rng& r) {
  FileSystem::MkDir(R + "/big");
  const int n = 1000 + r.below(3000);
  std::set<std::string> names;
  for (int i = 0; i < n; ++i) {
    const std::string name = std::string(r.below(60), 'q') + std::to_string(i);
    names.insert(name);
    if (i % 3) {
      int fd = ::open((R + "/big/" + name).c_str(), O_CREAT | O_WRONLY, 0644);
      ::close(fd);
    } else {
      ::mkdir((R + "/big/" + name).c_str(), 0755);
    }
  }
  std::multiset<std::string> got;
  FileSystem::ScanDir(R + "/big", [&](const FileSystem::ScanDirItemInfo& i) { got.insert(i.basename); }, FileSystem::ScanDirParameters::ListFilesAndDirs, FileSystem::ScanDirRecursive::Yes);
  VH_CHECK(got.size() == names.size() && std::equal(names.begin(), names.end(), got.begin()), "file:big scan", "");
  EXPECT_THROWN(Try([] { FileSystem::RmDir(R + "/big", FileSystem::RmDirParameters::ThrowExceptionOnError, FileSystem::RmDirRecursive::Yes); }), None, "file:big rm");
  struct stat st;
  VH_CHECK(::lstat((R + "/big").c_str(), &st), "file:big left", "");
  vh::Eval(n);
}

static void DeviceCase() {
  if (::access("/dev/full", W_OK)) return;
  EXPECT_THROWN(Try([] { FileSystem::WriteStringToFile("x", "/dev/full"); }), File, "file:full device");
  EXPECT_THROWN(Try([] { FileSystem::WriteStringToFile("x", FileSystem::NullDeviceName().c_str()); }), None, "file:null device");
  const std::string text("tmp\0\n", 5);
  const std::string name = FileSystem::WriteStringToTmpFile(text);
  VH_CHECK(FileSystem::ReadFileAsString(name) == text, "file:tmp", name);
  ::unlink(name.c_str());
  std::set<std::string> names;
  for (int i = 0; i < 100; ++i) names.insert(FileSystem::GenTmpFileName());
  VH_CHECK(names.size() > 98, "file:tmp unique", "");
}

int main(int argc, char** argv) {
  return vh::Main(argc, argv, [] {
    auto& o = vh::opt();
    vh::Rng r(o.seed);
    ::signal(SIGXFSZ, SIG_IGN);
    R = o.scratch + "/root";
    ::mkdir(R.c_str(), 0755);
    DeviceCase();
    for (uint64_t i = 0; i < o.cases && !vh::TooMany(); ++i) {
      vh::Case("case " + std::to_string(i));
      TreeCase(r);
      if (i % 4 == 0) LockedCase(r);
      for (int k = 0; k < 20; ++k) PureCase(r);
      if (i % 50 == 0) BigCase(r);
      vh::Count("cases");
    }
  });
}
