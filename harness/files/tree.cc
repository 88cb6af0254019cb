// Histories of operations on a directory tree against a map of names.
#include <string.h>

#include <algorithm>
#include <set>
#include <string>
#include <vector>

#include "tachyon/base/files/file_enumerator.h"
#include "tachyon/base/files/file_util.h"
#include "tachyon/base/files/scoped_temp_dir.h"
#include "verif/files/scratch.h"
#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace {

using namespace pbt;    // NOLINT
using namespace files;  // NOLINT
using tachyon::base::File;
using tachyon::base::FileEnumerator;
using tachyon::base::FilePath;
using tachyon::base::ScopedTempDir;
namespace tb = tachyon::base;

const char* const kNames[] = {"a", "b", "c.txt", "d.tar.gz", ".e", "ab", "x y"};

std::string Up(const std::string& p) {
  size_t i = p.rfind('/');
  return i == std::string::npos ? "" : p.substr(0, i);
}
std::string Last(const std::string& p) {
  size_t i = p.rfind('/');
  return i == std::string::npos ? p : p.substr(i + 1);
}
bool Under(const std::string& dir, const std::string& p) {
  return dir.empty() || (p.size() > dir.size() && p.compare(0, dir.size(), dir) == 0 && p[dir.size()] == '/');
}
std::string Cat(const std::string& dir, const std::string& name) { return dir.empty() ? name : dir + "/" + name; }

struct World {
  Case& c;
  Scratch dir;
  Tree t;

  bool Is(const std::string& p, Node::Kind k) const {
    if (p.empty()) return k == Node::kDir;
    auto it = t.find(p);
    return it != t.end() && it->second.kind == k;
  }
  bool Has(const std::string& p) const { return p.empty() || t.count(p); }
  // What is below |p|.
  std::vector<std::string> Below(const std::string& p) const {
    std::vector<std::string> v;
    for (auto& [q, n] : t) if (Under(p, q)) v.push_back(q);
    return v;
  }
  // No part of |p| above its last is something else than a directory.
  bool Reachable(const std::string& p) const {
    for (std::string q = Up(p); !q.empty(); q = Up(q)) if (Has(q) && !Is(q, Node::kDir)) return false;
    return true;
  }
  std::string Existing() {
    if (t.empty()) return "";
    auto it = t.begin();
    std::advance(it, static_cast<long>(c.Draw(t.size() - 1)));
    return it->first;
  }
  std::string Dir() {
    std::vector<std::string> v{""};
    for (auto& [q, n] : t) if (n.kind == Node::kDir) v.push_back(q);
    return v[c.Draw(v.size() - 1)];
  }
  // A name somewhere, there or not.
  std::string Any() {
    switch (c.Draw(3)) {
      case 0: return Existing();
      case 1: return Cat(Cat(Dir(), kNames[c.Draw(6)]), kNames[c.Draw(6)]);
      default: return Cat(Dir(), kNames[c.Draw(6)]);
    }
  }
  FilePath P(const std::string& p) {
    // At times with more separators than needed.
    std::string full = dir(p);
    if (c.OneIn(8) && !p.empty()) full.insert(dir.root().size(), "/");
    return FilePath(full);
  }
  // Links are followed by nothing here: a name through one is not used.
  bool ThroughLink(const std::string& p) const {
    for (std::string q = Up(p); !q.empty(); q = Up(q)) if (Is(q, Node::kLink)) return true;
    return false;
  }
};

bool Match(const char* p, const char* s) {
  if (!*p) return !*s;
  if (*p == '*') return Match(p + 1, s) || (*s && Match(p, s + 1));
  return *s && (*p == '?' || *p == *s) && Match(p + 1, s + 1);
}

void Enumerate(World& w) {
  Case& c = w.c;
  std::string at = w.Dir();
  bool recursive = c.Bool();
  int kinds = 1 + static_cast<int>(c.Draw(2));
  static const char* kPatterns[] = {"", "", "*", "a*", "*.txt", "?", "*b*", "d.tar.gz", "zz"};
  std::string pattern = kPatterns[c.Draw(8)];
  auto policy = c.Bool() ? FileEnumerator::FolderSearchPolicy::ALL : FileEnumerator::FolderSearchPolicy::MATCH_ONLY;
  c.Note("enumerate \"", at, "\" recursive=", recursive, " kinds=", kinds, " pattern=\"", pattern, "\" all=", policy == FileEnumerator::FolderSearchPolicy::ALL);
  auto matched = [&](const std::string& n) { return pattern.empty() || Match(pattern.c_str(), n.c_str()); };
  std::set<std::string> want;
  for (auto& p : w.Below(at)) {
    std::string rel = at.empty() ? p : p.substr(at.size() + 1);
    if (!recursive && rel.find('/') != std::string::npos) continue;
    bool is_dir = w.t.at(p).kind == Node::kDir;
    if (!(kinds & (is_dir ? FileEnumerator::DIRECTORIES : FileEnumerator::FILES))) continue;
    bool yes;
    if (recursive && policy == FileEnumerator::FolderSearchPolicy::MATCH_ONLY) yes = matched(rel.substr(0, rel.find('/')));
    else yes = matched(Last(p));
    if (yes) want.insert(p);
  }
  FileEnumerator e(w.P(at), recursive, kinds | FileEnumerator::SHOW_SYM_LINKS, pattern, policy);
  std::set<std::string> got;
  for (FilePath f = e.Next(); !f.empty(); f = e.Next()) {
    std::string full = f.value();
    // Without doubled separators.
    for (size_t i; (i = full.find("//")) != std::string::npos;) full.erase(i, 1);
    PBT_TM(full.size() > w.dir.root().size() + 1 && full.compare(0, w.dir.root().size(), w.dir.root()) == 0, "enumerate_outside", full);
    std::string p = full.substr(w.dir.root().size() + 1);
    PBT_TM(got.insert(p).second, "enumerate_twice", p);
    auto info = e.GetInfo();
    PBT_TM(w.Has(p) && info.GetName().value() == Last(p) && info.IsDirectory() == w.Is(p, Node::kDir), "enumerate_info", p);
    if (w.Is(p, Node::kFile)) PBT_T(info.GetSize() == static_cast<int64_t>(w.t.at(p).data.size()), "enumerate_size");
  }
  PBT_TM(got == want, "enumerate", got.size() << " of " << want.size());
  if (c.OneIn(3)) {
    std::set<std::string> names;
    FileEnumerator n(w.P(at), false, FileEnumerator::NAMES_ONLY);
    n.ForEach([&](const FilePath& f) { names.insert(f.BaseName().value()); });
    std::set<std::string> all;
    for (auto& p : w.Below(at)) if (Up(p) == at) all.insert(Last(p));
    PBT_T(names == all, "names_only");
  }
}

void Ask(World& w) {
  Case& c = w.c;
  std::string p = w.Any();
  FilePath f = w.P(p);
  c.Note("ask \"", p, "\"");
  if (w.ThroughLink(p)) return;
  PBT_T(tb::IsLink(f) == w.Is(p, Node::kLink), "is_link");
  if (w.Is(p, Node::kLink)) {
    FilePath target;
    PBT_T(tb::ReadSymbolicLink(f, &target) && target.value() == w.t.at(p).data, "read_link");
    return;
  }
  bool has = w.Has(p);
  PBT_T(tb::PathExists(f) == has && tb::PathIsReadable(f) == has && tb::PathIsWritable(f) == has, "exists");
  PBT_T(tb::DirectoryExists(f) == w.Is(p, Node::kDir), "directory_exists");
  File::Info info;
  PBT_T(tb::GetFileInfo(f, &info) == has, "info");
  if (has) PBT_T(info.is_directory == w.Is(p, Node::kDir) && !info.is_symbolic_link, "info_kind");
  FilePath target("x");
  PBT_T(!tb::ReadSymbolicLink(f, &target), "read_no_link");
  FilePath normal;
  PBT_T(tb::NormalizeFilePath(f, &normal) == w.Is(p, Node::kFile), "normalize");
  if (w.Is(p, Node::kFile)) PBT_T(normal.value() == w.dir(p), "normalized");
  FilePath abs = tb::MakeAbsoluteFilePath(f);
  PBT_T(abs.value() == (has ? w.dir(p) : ""), "absolute");
  // The first name not taken, next to it.
  if (!p.empty()) {
    std::string unique = tb::GetUniquePath(f).value();
    if (!has) {
      PBT_T(unique == f.value() && tb::GetUniquePathNumber(f) == 0, "unique_free");
    } else {
      FilePath u(unique);
      PBT_T(!unique.empty() && !tb::PathExists(u) && u.DirName() == f.DirName(), "unique");
      std::string n = " (" + std::to_string(tb::GetUniquePathNumber(f)) + ")";
      size_t i = unique.rfind(n);
      PBT_TM(i != std::string::npos && unique.substr(0, i) + unique.substr(i + n.size()) == f.value(), "unique_name", unique);
    }
  }
  if (w.Is(p, Node::kDir)) {
    int64_t size = 0;
    bool links = false;
    for (auto& q : w.Below(p)) {
      if (w.Is(q, Node::kFile)) size += static_cast<int64_t>(w.t.at(q).data.size());
      if (w.Is(q, Node::kLink)) links = true;
    }
    if (!links) {
      PBT_T(tb::ComputeDirectorySize(f) == size, "directory_size");
      PBT_T(tb::IsDirectoryEmpty(f) == w.Below(p).empty(), "directory_empty");
    }
  }
}

void History(Case& c) {
  World w{c, {}, {}};
  size_t steps = c.Size(1, 30), did = 0;
  for (size_t step = 0; step < steps; ++step) {
    Tree& t = w.t;
    Tree next = t;
    switch (c.Draw(13)) {
      case 0:
      case 1: {
        std::string p = w.Any();
        bool ok = w.Reachable(p) && !w.Is(p, Node::kFile) && !w.Is(p, Node::kLink);
        if (w.ThroughLink(p) || w.Is(p, Node::kLink)) continue;
        c.Note("make \"", p, "\"");
        File::Error error = File::FILE_OK;
        bool got = c.Bool() ? tb::CreateDirectory(w.P(p)) : tb::CreateDirectoryAndGetError(w.P(p), &error);
        PBT_T(got == ok, "create_directory");
        if (ok) for (std::string q = p; !q.empty(); q = Up(q)) next[q] = {Node::kDir, ""};
        break;
      }
      case 2:
      case 3: {
        std::string p = w.Any(), s = std::string(c.Draw(30), static_cast<char>('a' + c.Draw(25)));
        if (w.ThroughLink(p) || w.Is(p, Node::kLink) || p.empty()) continue;
        bool ok = w.Is(Up(p), Node::kDir) && !w.Is(p, Node::kDir);
        c.Note("write \"", p, "\"");
        PBT_T(tb::WriteFile(w.P(p), s) == ok, "write");
        if (ok) next[p] = {Node::kFile, s};
        break;
      }
      case 4: {
        // To something near, to nothing, or upwards within the directory.
        std::string p = Cat(w.Dir(), kNames[c.Draw(6)]), target = kNames[c.Draw(6)];
        if (w.Has(p)) continue;
        if (c.Bool()) target = w.dir(w.Any());
        c.Note("link \"", p, "\"");
        PBT_T(tb::CreateSymbolicLink(FilePath(target), w.P(p)), "link");
        next[p] = {Node::kLink, target};
        break;
      }
      case 5: {
        std::string p = w.Any();
        if (w.ThroughLink(p) || p.empty()) continue;
        c.Note("delete \"", p, "\"");
        bool ok = !w.Is(p, Node::kDir) || w.Below(p).empty();
        // Below a file there is nothing; either answer is right.
        if (!w.Reachable(p) && !w.Has(p)) {
          (void)tb::DeleteFile(w.P(p));
          break;
        }
        PBT_T(tb::DeleteFile(w.P(p)) == ok, "delete");
        if (ok) next.erase(p);
        break;
      }
      case 6: {
        std::string p = w.Any();
        if (w.ThroughLink(p) || p.empty()) continue;
        c.Note("delete all \"", p, "\"");
        bool got = tb::DeletePathRecursively(w.P(p));
        if (w.Reachable(p) || w.Has(p)) PBT_T(got, "delete_all");
        for (auto& q : w.Below(p)) next.erase(q);
        next.erase(p);
        break;
      }
      case 7: {
        std::string p = w.Any(), q = w.Any();
        if (w.ThroughLink(p) || w.ThroughLink(q) || p.empty() || q.empty() || p == q || Under(p, q) || Under(q, p)) continue;
        if (w.Is(p, Node::kLink) || w.Is(q, Node::kLink)) continue;
        bool replace = c.Bool();
        c.Note(replace ? "replace \"" : "move \"", p, "\" to \"", q, "\"");
        // A file over a file or a directory over an empty one or nothing.
        bool ok = w.Has(p) && w.Is(Up(q), Node::kDir) &&
                  (!w.Has(q) || (w.Is(p, Node::kFile) && w.Is(q, Node::kFile)) ||
                   (w.Is(p, Node::kDir) && w.Is(q, Node::kDir) && w.Below(q).empty()));
        // What Move() does to a full directory depends on the platform.
        if (!ok && w.Has(p) && w.Has(q)) continue;
        File::Error error = File::FILE_OK;
        bool got = replace ? tb::ReplaceFile(w.P(p), w.P(q), &error) : tb::Move(w.P(p), w.P(q));
        PBT_T(got == ok, "move");
        if (replace && !ok) PBT_TM(error != File::FILE_OK, "replace_error", error);
        if (ok) {
          next[q] = next[p];
          for (auto& x : w.Below(p)) {
            next[q + x.substr(p.size())] = next[x];
            next.erase(x);
          }
          next.erase(p);
        }
        break;
      }
      case 8: {
        std::string p = w.Any(), q = w.Any();
        if (w.ThroughLink(p) || w.ThroughLink(q) || p == q || w.Is(p, Node::kLink) || w.Is(q, Node::kLink) || q.empty()) continue;
        if (w.Is(p, Node::kDir)) continue;
        c.Note("copy \"", p, "\" to \"", q, "\"");
        bool ok = w.Is(p, Node::kFile) && w.Is(Up(q), Node::kDir) && !w.Is(q, Node::kDir);
        PBT_T(tb::CopyFile(w.P(p), w.P(q)) == ok, "copy");
        if (ok) next[q] = next[p];
        break;
      }
      case 9:
      case 10: {
        std::string p = w.Dir(), q = w.Any();
        bool recursive = c.Bool(), excl = c.OneIn(3);
        if (w.ThroughLink(q) || p.empty() || q.empty() || p == q || w.Is(q, Node::kLink) || Under(p, q) || Under(q, p)) continue;
        if (w.Is(q, Node::kFile) || !w.Is(Up(q), Node::kDir)) continue;
        auto below = w.Below(p);
        bool links = false;
        for (auto& x : below) if (w.Is(x, Node::kLink)) links = true;
        if (links) continue;
        // Into an existing directory the whole goes under its own name.
        std::string to = recursive && w.Is(q, Node::kDir) ? Cat(q, Last(p)) : q;
        if (!recursive && !w.Has(q)) {
          // A directory for it may or may not have to be there.
          continue;
        }
        if (w.Has(to) && !w.Is(to, Node::kDir)) continue;
        if (Under(p, to) || Under(to, p) || p == to) continue;
        bool clash = false;
        for (auto& x : below) {
          if (!recursive && (w.Is(x, Node::kDir) || Up(x) != p)) continue;
          std::string y = to + x.substr(p.size());
          if (w.Has(y) && (excl || !w.Is(y, w.t.at(x).kind))) clash = true;
        }
        if (clash || (excl && w.Has(to))) continue;
        c.Note(excl ? "copy all anew \"" : "copy all \"", p, "\" to \"", q, "\" recursive=", recursive);
        PBT_T(excl ? tb::CopyDirectoryExcl(w.P(p), w.P(q), recursive) : tb::CopyDirectory(w.P(p), w.P(q), recursive), "copy_directory");
        if (!next.count(to)) next[to] = {Node::kDir, ""};
        for (auto& x : below) {
          if (!recursive && (w.Is(x, Node::kDir) || Up(x) != p)) continue;
          next[to + x.substr(p.size())] = t.at(x);
        }
        break;
      }
      case 11: Enumerate(w); break;
      case 12: {
        // Something temporary.
        std::string at = w.Dir();
        FilePath made;
        if (c.Bool()) {
          PBT_T(tb::CreateTemporaryFileInDir(w.P(at), &made) && tb::PathExists(made) && !tb::DirectoryExists(made), "temporary_file");
          PBT_T(w.P(at).IsParent(made), "temporary_place");
          if (c.Bool()) {
            File f = tb::CreateAndOpenTemporaryFileInDir(w.P(at), &made);
            PBT_T(f.IsValid() && f.GetLength() == 0, "temporary_open");
          }
          for (auto& [p, n] : w.dir.Look()) {
            if (w.Has(p)) continue;
            PBT_T(n == (Node{Node::kFile, ""}) && Up(p) == at && tb::DeleteFile(FilePath(w.dir(p))), "temporary_empty");
          }
        } else {
          FilePath path;
          bool taken = c.Bool();
          {
            ScopedTempDir d;
            PBT_T(!d.IsValid(), "temp_dir_fresh");
            PBT_T(d.CreateUniqueTempDirUnderPath(w.P(at)) && d.IsValid(), "temp_dir");
            path = d.GetPath();
            PBT_T(w.P(at).IsParent(path) && tb::DirectoryExists(path) && tb::IsDirectoryEmpty(path), "temp_dir_place");
            PBT_T(tb::WriteFile(path.Append("f"), "x") && tb::CreateDirectory(path.Append("g/h")), "temp_dir_use");
            if (taken) PBT_T(d.Take() == path && !d.IsValid(), "temp_dir_take");
            else if (c.Bool()) PBT_T(d.Delete() && !d.IsValid() && !tb::PathExists(path), "temp_dir_delete");
          }
          PBT_T(tb::PathExists(path) == taken, "temp_dir_after");
          if (taken) PBT_T(tb::DeletePathRecursively(path) && !tb::PathExists(path), "temp_dir_removed");
        }
        break;
      }
      default: Ask(w); break;
    }
    ++did;
    Tree got = w.dir.Look();
    for (auto& [p, n] : got) {
      if (!next.count(p)) c.Fail("appeared", p);
      else if (!(next[p] == n)) c.Fail("changed", p);
    }
    for (auto& [p, n] : next) if (!got.count(p)) c.Fail("lost", p);
    w.t = next;
  }
  c.Nontrivial(did > 5);
}

// Names relative to where the process is.
void Relative(Case& c) {
  Scratch dir;
  char old[4096];
  if (!getcwd(old, sizeof old)) abort();
  struct Back {
    const char* to;
    ~Back() { if (chdir(to)) abort(); }
  } back{old};
  PBT_T(tb::SetCurrentDirectory(FilePath(dir.root())), "set_current");
  FilePath here;
  PBT_T(tb::GetCurrentDirectory(&here) && here.value() == dir.root(), "current");
  std::string p;
  size_t n = 1 + c.Draw(3);
  for (size_t i = 0; i < n; ++i) p = Cat(p, kNames[c.Draw(6)]);
  if (c.OneIn(3)) p = "./" + p;
  c.Note("\"", p, "\"");
  c.Nontrivial(true);
  FilePath f(p);
  PBT_T(tb::CreateDirectory(f) && tb::DirectoryExists(f), "create");
  PBT_T(tb::MakeAbsoluteFilePath(f).value() == dir(p.substr(p[0] == '.' && p[1] == '/' ? 2 : 0)), "absolute");
  FilePath file = f.Append("file");
  PBT_T(tb::WriteFile(file, p), "write");
  FilePath to("copy");
  PBT_T(tb::CopyDirectory(f, to, true), "copy_directory");
  PBT_T(Slurp(dir("copy/file")) == p, "copied");
  PBT_T(tb::DeletePathRecursively(f) && !tb::PathExists(f), "delete");
  PBT_T(Slurp(dir("copy/file")) == p, "kept");
}

void RegisterAll() {
  pbt::Register("tree.history", 100, 10000, History);
  pbt::Register("tree.relative", 20, 2000, Relative);
}
PBT_INIT(RegisterAll);

}  // namespace
