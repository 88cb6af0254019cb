// A directory of this process, and a way to touch nothing outside it.
#ifndef VERIF_FILES_SCRATCH_H_
#define VERIF_FILES_SCRATCH_H_

#include <dirent.h>
#include <stdlib.h>
#include <sys/fsuid.h>
#include <sys/stat.h>
#include <unistd.h>

#include <fstream>
#include <iterator>
#include <map>
#include <string>

namespace files {

constexpr unsigned kNobody = 65534;

// What |path| is: nothing, a directory, a file with its contents, or a link
// with its target.
struct Node {
  enum Kind { kDir, kFile, kLink } kind = kDir;
  std::string data;
  bool operator==(const Node& o) const { return kind == o.kind && data == o.data; }
};
using Tree = std::map<std::string, Node>;  // relative path -> node

inline std::string Slurp(const std::string& path) {
  std::ifstream in(path, std::ios::binary);
  return std::string(std::istreambuf_iterator<char>(in), {});
}
inline void Spill(const std::string& path, const std::string& data) {
  std::ofstream out(path, std::ios::binary | std::ios::trunc);
  out.write(data.data(), static_cast<std::streamsize>(data.size()));
}

inline void Walk(const std::string& root, const std::string& rel, Tree* out) {
  DIR* d = opendir((root + "/" + rel).c_str());
  if (!d) return;
  std::string names;
  std::map<std::string, Node> here;
  while (dirent* e = readdir(d)) {
    std::string name = e->d_name;
    if (name == "." || name == "..") continue;
    std::string sub = rel.empty() ? name : rel + "/" + name, full = root + "/" + sub;
    struct stat st;
    if (lstat(full.c_str(), &st)) continue;
    if (S_ISDIR(st.st_mode)) {
      here[sub] = {Node::kDir, ""};
    } else if (S_ISLNK(st.st_mode)) {
      char buf[4096];
      ssize_t n = readlink(full.c_str(), buf, sizeof buf);
      here[sub] = {Node::kLink, std::string(buf, n > 0 ? static_cast<size_t>(n) : 0)};
    } else {
      here[sub] = {Node::kFile, Slurp(full)};
    }
  }
  closedir(d);
  for (auto& [sub, node] : here) {
    (*out)[sub] = node;
    if (node.kind == Node::kDir) Walk(root, sub, out);
  }
}

inline void Wipe(const std::string& dir) {
  Tree t;
  Walk(dir, "", &t);
  for (auto it = t.rbegin(); it != t.rend(); ++it) {
    std::string full = dir + "/" + it->first;
    if (it->second.kind == Node::kDir) rmdir(full.c_str());
    else unlink(full.c_str());
  }
}

// The directory, made once and removed when the process ends. It belongs to an
// unprivileged user, whose rights the code under test is given.
inline const std::string& Root() {
  struct Dir {
    std::string path;
    Dir() {
      const char* at = getenv("VERIF_SCRATCH");
      path = std::string(at && *at ? at : "/tmp") + "/verif_files_XXXXXX";
      if (!mkdtemp(path.data())) abort();
      if (path.empty()) abort();
      if (geteuid() == 0 && chown(path.c_str(), kNobody, kNobody)) abort();
    }
    ~Dir() {
      Wipe(path);
      rmdir(path.c_str());
    }
  };
  static Dir dir;
  return dir.path;
}

// For its lifetime the thread accesses files as nobody, in an empty directory.
class Scratch {
 public:
  Scratch() : root_(Root()) {
    Wipe(root_);
    if (geteuid() == 0) {
      setfsgid(kNobody);
      setfsuid(kNobody);
    }
  }
  ~Scratch() {
    if (geteuid() == 0) {
      setfsuid(0);
      setfsgid(0);
    }
  }
  std::string operator()(const std::string& rel) const { return rel.empty() ? root_ : root_ + "/" + rel; }
  const std::string& root() const { return root_; }
  Tree Look() const {
    Tree t;
    Walk(root_, "", &t);
    return t;
  }

 private:
  std::string root_;
};

}  // namespace files

#endif  // VERIF_FILES_SCRATCH_H_
