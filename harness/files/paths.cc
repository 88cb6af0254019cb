// Path algebra against strings split at separators.
#include <string>
#include <vector>

#include "tachyon/base/files/file_path.h"
#include "tachyon/base/files/file_path_flag.h"
#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace {

using namespace pbt;  // NOLINT
using tachyon::base::FilePath;

std::string Name(Case& c) {
  static const char* kNames[] = {"a",    "foo",      ".",       "..",    "b.txt",  "x.tar.gz", ".rc",   "n.",
                                 "...",  "a..b",     "user.js", "c d",   "..foo",  "bar..",    ".a.b",  "x.Z",
                                 "a.tar", "q.longer.gz", "w.e.zst", "t.tar.GZ", "-",   "~"};
  if (!c.OneIn(4)) return kNames[c.Draw(sizeof(kNames) / sizeof(kNames[0]) - 1)];
  std::string s;
  for (size_t n = 1 + c.Draw(6); n; --n) s += "ab.. \xc3*\\"[c.Draw(7)];
  return s;
}

// Components and separators of any number, at either end too.
std::string Any(Case& c, bool relative = false) {
  std::string s;
  if (!relative && c.OneIn(2)) s += std::string(1 + (c.OneIn(4) ? c.Draw(2) : 0), '/');
  size_t n = c.Draw(5);
  for (size_t i = 0; i < n; ++i) {
    if (i) s += std::string(1 + (c.OneIn(5) ? c.Draw(2) : 0), '/');
    s += Name(c);
  }
  if (c.OneIn(5) && (n || !relative)) s += std::string(1 + c.Draw(1), '/');
  return s;
}

// The reference: "/" first when absolute, then what lies between separators.
std::vector<std::string> Parts(const std::string& s) {
  std::vector<std::string> v;
  if (!s.empty() && s[0] == '/') v.push_back("/");
  std::string cur;
  for (char ch : s + "/") {
    if (ch != '/') { cur += ch; continue; }
    if (!cur.empty()) v.push_back(cur);
    cur.clear();
  }
  return v;
}
std::string Base(const std::string& s) {
  size_t i = s.rfind('/');
  return i == std::string::npos ? s : s.substr(i + 1);
}
bool Special(const std::string& base) { return base.empty() || base == "." || base == ".."; }

void Components(Case& c) {
  std::string s = Any(c);
  FilePath p(s);
  c.Note("\"", s, "\"");
  auto parts = Parts(s);
  c.Nontrivial(parts.size() > 1);
  PBT_T(p.value() == s && p.empty() == s.empty(), "value");
  PBT_T(p.GetComponents() == parts, "components");
  PBT_T(p.IsAbsolute() == (!s.empty() && s[0] == '/'), "absolute");
  PBT_T(p.IsRoot() == (!s.empty() && s.find_first_not_of('/') == std::string::npos), "root");
  PBT_T(p.BaseName().value() == Base(s), "base_name");
  FilePath d = p.DirName();
  if (s.find('/') == std::string::npos) PBT_T(d.empty(), "dir_of_name");
  // What precedes the base name, without the separator; the root is its own.
  std::vector<std::string> want = Parts(s.substr(0, s.rfind('/') == std::string::npos ? 0 : s.rfind('/') + 1));
  PBT_T(d.GetComponents() == want, "dir_components");
  PBT_T(d.IsAbsolute() == p.IsAbsolute(), "dir_absolute");
  FilePath copy(p), moved(std::move(copy)), assigned;
  assigned = moved;
  PBT_T(moved == p && assigned == p && !(assigned != p) && !(p < assigned), "copies");
  std::string other = Any(c);
  PBT_T((FilePath(other) == p) == (other == s) && (FilePath(other) < p) == (other < s), "order");
  FilePath parsed;
  std::string reason;
  PBT_T(tachyon::base::FlagValueTraits<FilePath>::ParseValue(s, &parsed, &reason) && parsed == p, "flag");
  assigned.clear();
  PBT_T(assigned.empty(), "clear");
}

void Separators(Case& c) {
  std::string s = Any(c);
  FilePath p(s);
  c.Note("\"", s, "\"");
  c.Nontrivial(s.size() > 1);
  bool ends = !s.empty() && s.back() == '/';
  PBT_T(p.EndsWithSeparator() == ends, "ends");
  PBT_T(p.AsEndingWithSeparator().value() == (s.empty() || ends ? s : s + "/"), "as_ending");
  std::string t = s;
  while (t.size() > 1 && t.back() == '/') t.pop_back();
  PBT_TM(p.StripTrailingSeparators().value() == t, "strip", "gives " << p.StripTrailingSeparators().value().size() << " bytes");
  PBT_T(FilePath::IsSeparator('/') && !FilePath::IsSeparator('a') && !FilePath::IsSeparator('\0'), "is_separator");
}

void Join(Case& c) {
  std::string s = Any(c), t = Any(c, !c.OneIn(8));
  FilePath p(s), q(t);
  c.Note("\"", s, "\" and \"", t, "\"");
  c.Nontrivial(!s.empty() && !t.empty());
  FilePath j = p.Append(t);
  FilePath in_place = p, in_place2 = p;
  in_place /= t;
  in_place2 /= q;
  PBT_T(j == p.Append(q) && j == p / t && j == p / q && j == in_place && j == in_place2, "spellings");
  if (!t.empty() && t[0] == '/') {
    PBT_T(j.empty(), "absolute_refused");
    return;
  }
  auto want = Parts(s);
  for (auto& x : Parts(t)) want.push_back(x);
  PBT_TM(j.GetComponents() == want, "components", "\"" << j.value() << "\"");
  if (!s.empty()) PBT_T(j.value().substr(0, s.size()) == s, "prefix");
  PBT_T(j.value().size() >= t.size() && j.value().substr(j.value().size() - t.size()) == t, "suffix");
  PBT_T(j.value().size() <= s.size() + t.size() + 1, "no_excess");
  if (!Special(t) && t.find('/') == std::string::npos) {
    PBT_T(j.BaseName().value() == t, "base");
    PBT_T(j.DirName().GetComponents() == Parts(s), "dir");
  }
}

void Parent(Case& c) {
  std::string s = Any(c), t = c.OneIn(3) ? Any(c) : "";
  if (t.empty()) {
    // Below, above, beside.
    auto parts = Parts(s);
    size_t keep = c.OneIn(3) ? c.Draw(parts.size()) : parts.size();
    for (size_t i = 0; i < keep; ++i) t += (t.empty() || t.back() == '/' ? "" : "/") + (parts[i] == "/" ? std::string("/") : parts[i]);
    if (c.OneIn(6)) t += Name(c);
    for (size_t k = c.Draw(3); k; --k) t += (t.empty() || t.back() == '/' ? "" : "/") + Name(c);
  }
  FilePath p(s), q(t);
  c.Note("\"", s, "\" above \"", t, "\"");
  auto a = Parts(s), b = Parts(t);
  bool parent = !a.empty() && a.size() < b.size() && std::equal(a.begin(), a.end(), b.begin());
  c.Nontrivial(parent);
  PBT_T(p.IsParent(q) == parent, "is_parent");
  PBT_T(!p.IsParent(p), "own_parent");
  std::string onto = Any(c);
  FilePath r(onto);
  PBT_T(p.AppendRelativePath(q, &r) == parent, "append_relative");
  if (!parent) {
    PBT_T(r.value() == onto, "untouched");
    return;
  }
  auto want = Parts(onto);
  want.insert(want.end(), b.begin() + static_cast<long>(a.size()), b.end());
  PBT_TM(r.GetComponents() == want, "relative", "\"" << r.value() << "\"");
}

void Extensions(Case& c) {
  std::string s = Any(c);
  if (c.OneIn(2)) s += Name(c);
  FilePath p(s);
  c.Note("\"", s, "\"");
  std::string base = Base(s), final_ext = p.FinalExtension(), ext = p.Extension();
  size_t dot = Special(base) ? std::string::npos : base.rfind('.');
  c.Nontrivial(dot != std::string::npos);
  std::string want = dot == std::string::npos ? "" : base.substr(dot);
  PBT_TM(final_ext == want, "final_extension", final_ext);
  PBT_TM(p.RemoveFinalExtension().value() + final_ext == s, "remove_final", p.RemoveFinalExtension().value());
  PBT_TM(ext == want, "extension", ext);
  // All of the extension goes, and only that.
  std::string stem = p.RemoveExtension().value();
  PBT_TM(s.substr(0, stem.size()) == stem, "remove", stem);
  std::string gone = s.substr(stem.size());
  PBT_TM(gone.size() <= base.size() && gone.empty() == ext.empty() && (gone.empty() || gone[0] == '.') &&
             gone.size() >= ext.size() && gone.substr(gone.size() - ext.size()) == ext, "removed_part", gone);
  c.LabelIf(gone != ext, "double_extension");
  std::string suffix = c.OneIn(5) ? "" : c.OneIn(2) ? " (1)" : Name(c);
  std::string in = p.InsertBeforeExtension(suffix).value();
  if (suffix.empty()) PBT_T(in == s, "insert_nothing");
  else if (Special(base)) PBT_T(in.empty(), "insert_special");
  else PBT_TM(in == stem + suffix + gone, "insert", in);
}

void Parents(Case& c) {
  std::string s = Any(c);
  FilePath p(s);
  c.Note("\"", s, "\"");
  bool sure = false, maybe = false;
  for (auto& x : Parts(s)) {
    if (x == "..") sure = true;
    // Dots and white space may be taken for it.
    if (x.find("..") != std::string::npos && x.find_first_not_of(". \n\r\t") == std::string::npos) maybe = true;
  }
  c.Nontrivial(s.find("..") != std::string::npos);
  if (sure) PBT_T(p.ReferencesParent(), "missed");
  if (!sure && !maybe) PBT_T(!p.ReferencesParent(), "imagined");
}

void RegisterAll() {
  pbt::Register("path.components", 3000, 300000, Components);
  pbt::Register("path.separators", 2000, 200000, Separators);
  pbt::Register("path.join", 3000, 300000, Join);
  pbt::Register("path.parent", 3000, 300000, Parent);
  pbt::Register("path.extensions", 3000, 300000, Extensions);
  pbt::Register("path.references_parent", 2000, 200000, Parents);
}
PBT_INIT(RegisterAll);

}  // namespace
