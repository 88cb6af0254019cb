// Command line of every harness.
//
//   H --list
//   H --run --seed S --tier quick|thorough --shard I --shards N --out F
//           [--only SUBSTR] [--scale X]
//   H --shrink PROP --choices FILE --out FILE [--budget N]
//   H --replay PROP --choices FILE     exit 0: passes, 1: fails, prints why
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <set>
#include <unordered_set>

#include "verif/pbt/pbt.h"

namespace pbt {

ChoiceLog* g_log = nullptr;

std::vector<Prop>& Props() {
  static std::vector<Prop> props;
  return props;
}
static std::vector<void (*)()>& Inits() {
  static std::vector<void (*)()> v;
  return v;
}
static std::vector<void (*)(uint64_t)>& Befores() {
  static std::vector<void (*)(uint64_t)> v;
  return v;
}
int Register(std::string name, uint64_t quick, uint64_t thorough, Fn fn) {
  Props().push_back({std::move(name), quick, thorough, fn});
  return 0;
}
int RegisterInit(void (*fn)()) {
  Inits().push_back(fn);
  return 0;
}
int RegisterBeforeCase(void (*fn)(uint64_t)) {
  Befores().push_back(fn);
  return 0;
}
static bool g_thorough = false;
bool Thorough() { return g_thorough; }

namespace {

uint64_t HashStr(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (char ch : s) h = (h ^ static_cast<uint8_t>(ch)) * 1099511628211ull;
  return h;
}

std::string Json(const std::string& s) {
  std::string r = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      r += '\\';
      r += ch;
    } else if (ch == '\n') {
      r += "\\n";
    } else if (ch < 0x20 || ch >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      r += b;
    } else {
      r += ch;
    }
  }
  return r + "\"";
}

struct Outcome {
  bool ok = true;
  std::string tag, msg;
};

// What a case was: its notes, the choices it was generated from, its labels.
std::string Sample(const Case& c) {
  std::ostringstream ss;
  ss << c.notes();
  if (!c.notes().empty()) ss << "; ";
  ss << "drawn from";
  size_t n = 0;
  for (uint64_t v : c.taken()) {
    if (++n > 24) {
      ss << " ... (" << c.taken().size() << " choices)";
      break;
    }
    ss << ' ' << v;
  }
  for (const char* l : c.labels()) ss << " [" << l << ']';
  return ss.str();
}

Outcome RunCase(const Prop& p, Case& c) {
  // The first choice seeds the randomness the library draws on its own.
  uint64_t salt = c.Draw(255);
  for (auto* f : Befores()) f(salt);
  try {
    p.fn(c);
    return {};
  } catch (const Failure& f) {
    return {false, f.tag, f.msg};
  } catch (const std::exception& e) {
    return {false, "exception", std::string("uncaught exception: ") + e.what()};
  }
}

// Shared with the supervising parent: what the child is doing.
struct Shared {
  volatile uint64_t prop;
  volatile uint64_t index;
  volatile uint64_t beat;
  volatile uint64_t done;
};

struct PropStat {
  uint64_t evals = 0, nontrivial = 0;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
};

struct Args {
  std::string mode, out, prop, choices, only;
  uint64_t seed = 1, shard = 0, shards = 1, budget = 400;
  double scale = 1;
  uint64_t hang_s = 150;
};

uint64_t Count(const Prop& p, const Args& a) {
  uint64_t n = g_thorough ? p.thorough : p.quick;
  double d = n * a.scale;
  return d < 1 ? (n ? 1 : 0) : static_cast<uint64_t>(d);
}

bool Selected(const Prop& p, const Args& a) {
  return a.only.empty() || p.name.find(a.only) != std::string::npos;
}

uint64_t CaseSeed(const Args& a, const Prop& p, uint64_t i) {
  return Mix(Mix(a.seed ^ HashStr(p.name)) ^ i);
}

std::vector<uint64_t> Logged() {
  if (g_log->n > ChoiceLog::kMax) return {};
  return std::vector<uint64_t>(g_log->v, g_log->v + g_log->n);
}

void WriteFailure(FILE* f, const Prop& p, uint64_t idx, uint64_t case_seed,
                  const std::string& tag, const std::string& msg) {
  fprintf(f, "{\"kind\":\"failure\",\"prop\":%s,\"index\":%llu,"
             "\"seed\":%llu,\"tag\":%s,\"msg\":%s}\n",
          Json(p.name).c_str(), static_cast<unsigned long long>(idx),
          static_cast<unsigned long long>(case_seed), Json(tag).c_str(),
          Json(msg.substr(0, 4000)).c_str());
  fflush(f);
}

// The child: runs cases from (p0, i0) on, until the end or a crash.
void Child(const Args& a, Shared* sh, uint64_t p0, uint64_t i0, bool p0_dead) {
  FILE* f = fopen(a.out.c_str(), "a");
  auto& props = Props();
  // Interleaving props one after another keeps |index| meaningful.
  for (uint64_t pi = p0; pi < props.size(); ++pi) {
    const Prop& p = props[pi];
    if (!Selected(p, a)) continue;
    if (pi == p0 && p0_dead) continue;
    uint64_t n = Count(p, a);
    PropStat st;
    std::unordered_set<uint64_t> seen;
    uint64_t start = pi == p0 ? i0 : a.shard;
    bool failed = false;
    for (uint64_t i = start; i < n && !failed; i += a.shards) {
      sh->prop = pi;
      sh->index = i;
      sh->beat = sh->beat + 1;
      Case c(CaseSeed(a, p, i));
      bool want_sample = st.samples.size() < 2;
      c.set_verbose(want_sample);
      Outcome o = RunCase(p, c);
      ++st.evals;
      for (const char* l : c.labels()) ++st.labels[l];
      if (c.nontrivial() && seen.insert(c.Hash()).second) {
        ++st.nontrivial;
        if (want_sample) st.samples.push_back(Sample(c));
      }
      if (!o.ok) {
        WriteFailure(f, p, i, CaseSeed(a, p, i), o.tag, o.msg);
        failed = true;  // one failure per property and worker is enough
      }
    }
    std::string s = "{\"kind\":\"stat\",\"prop\":" + Json(p.name) +
                    ",\"evals\":" + std::to_string(st.evals) +
                    ",\"nontrivial\":" + std::to_string(st.nontrivial) +
                    ",\"labels\":{";
    bool first = true;
    for (auto& [k, v] : st.labels) {
      s += (first ? "" : ",") + Json(k) + ":" + std::to_string(v);
      first = false;
    }
    s += "},\"samples\":[";
    first = true;
    for (auto& x : st.samples) {
      s += (first ? "" : ",") + Json(x);
      first = false;
    }
    s += "]}\n";
    fputs(s.c_str(), f);
    fflush(f);
  }
  sh->done = 1;
  fclose(f);
  _exit(0);
}

int Quiet() {
  int saved = dup(2);
  int n = open("/dev/null", O_WRONLY);
  dup2(n, 2);
  close(n);
  return saved;
}

double Now() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

std::string StatusText(int st) {
  if (WIFSIGNALED(st))
    return std::string("killed by signal ") + strsignal(WTERMSIG(st));
  return "exited with " + std::to_string(WEXITSTATUS(st));
}

// Waits for |pid|, watching |sh->beat|; returns the status, or -1 after a hang.
int WaitWatching(pid_t pid, Shared* sh, double hang_s) {
  uint64_t beat = sh->beat;
  double last = Now();
  int st;
  for (;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) return st;
    if (sh->beat != beat) {
      beat = sh->beat;
      last = Now();
    } else if (Now() - last > hang_s) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      return -1;
    }
    usleep(2000);
  }
}

int Run(const Args& a) {
  Shared* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared),
                                         PROT_READ | PROT_WRITE,
                                         MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  Quiet();
  uint64_t p0 = 0, i0 = a.shard;
  bool dead = false;
  for (;;) {
    sh->prop = p0;
    sh->index = i0;
    sh->done = 0;
    pid_t pid = fork();
    if (pid == 0) Child(a, sh, p0, i0, dead);
    int st = WaitWatching(pid, sh, a.hang_s);
    if (st == 0 && sh->done) return 0;
    // The child died inside a case: that case failed.
    FILE* f = fopen(a.out.c_str(), "a");
    const Prop& p = Props()[sh->prop];
    std::string msg = st == -1 ? "no answer after " +
                                     std::to_string(a.hang_s) + " s"
                               : "the process was " + StatusText(st);
    WriteFailure(f, p, sh->index, CaseSeed(a, p, sh->index),
                 st == -1 ? "hang" : "crash", msg);
    fclose(f);
    p0 = sh->prop;
    i0 = sh->index;
    dead = true;  // go on with the next property
  }
}

// Runs one case in a child process.
// The child reports through a pipe: "ok", or tag \0 msg \0 notes; the choices
// actually taken go to |taken|.
struct Reply {
  bool ok = false;
  std::string tag, msg, notes;
  std::vector<uint64_t> taken;
};

Reply RunForked(const Prop& p, Case c, double hang_s, bool verbose) {
  int fd[2];
  if (pipe(fd)) abort();
  Shared* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared),
                                         PROT_READ | PROT_WRITE,
                                         MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  char tmp[] = "/tmp/pbt_XXXXXX";
  int tfd = mkstemp(tmp);
  unlink(tmp);
  if (!g_log)
    g_log = static_cast<ChoiceLog*>(mmap(nullptr, sizeof(ChoiceLog),
                                         PROT_READ | PROT_WRITE,
                                         MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  g_log->n = 0;
  pid_t pid = fork();
  if (pid == 0) {
    c.set_verbose(verbose);
    Outcome o = RunCase(p, c);
    std::string s;
    auto put = [&s](const std::string& x) {
      uint64_t n = x.size();
      s.append(reinterpret_cast<char*>(&n), 8);
      s += x;
    };
    put(o.ok ? "ok" : "fail");
    put(o.tag);
    put(o.msg);
    put(c.notes());
    put(std::string(reinterpret_cast<const char*>(c.taken().data()),
                    c.taken().size() * 8));
    size_t off = 0;
    while (off < s.size()) {
      ssize_t w = write(tfd, s.data() + off, s.size() - off);
      if (w <= 0) break;
      off += w;
    }
    sh->done = 1;
    _exit(0);
  }
  close(fd[0]);
  close(fd[1]);
  int st = WaitWatching(pid, sh, hang_s);
  Reply r;
  if (st == 0 && sh->done) {
    std::string s;
    lseek(tfd, 0, SEEK_SET);
    char buf[65536];
    ssize_t n;
    while ((n = read(tfd, buf, sizeof buf)) > 0) s.append(buf, n);
    size_t off = 0;
    auto get = [&]() {
      uint64_t len;
      memcpy(&len, s.data() + off, 8);
      off += 8;
      std::string x = s.substr(off, len);
      off += len;
      return x;
    };
    r.ok = get() == "ok";
    r.tag = get();
    r.msg = get();
    r.notes = get();
    std::string t = get();
    r.taken.resize(t.size() / 8);
    memcpy(r.taken.data(), t.data(), t.size());
  } else {
    r.tag = st == -1 ? "hang" : "crash";
    r.msg = st == -1 ? "no answer" : "the process was " + StatusText(st);
    r.taken = Logged();
  }
  close(tfd);
  munmap(sh, sizeof(Shared));
  return r;
}

const Prop* Find(const std::string& name) {
  for (auto& p : Props())
    if (p.name == name) return &p;
  return nullptr;
}

// The file holds the choices, or "seed S" for a case never recorded.
Case ReadCase(const std::string& path) {
  std::vector<uint64_t> v;
  std::ifstream in(path);
  std::string t;
  while (in >> t) {
    if (t == "seed") {
      uint64_t s = 0;
      in >> s;
      return Case(s);
    }
    v.push_back(strtoull(t.c_str(), nullptr, 10));
  }
  return Case(v);
}

int Replay(const Args& a) {
  const Prop* p = Find(a.prop);
  if (!p) {
    printf("no such property: %s\n", a.prop.c_str());
    return 3;
  }
  Reply r = RunForked(*p, ReadCase(a.choices), a.hang_s, true);
  if (r.ok) {
    printf("PASS %s\n%s\n", a.prop.c_str(), r.notes.c_str());
    return 0;
  }
  printf("FAIL %s\ntag: %s\nmsg: %s\ncase: %s\n", a.prop.c_str(),
         r.tag.c_str(), r.msg.c_str(), r.notes.c_str());
  return 1;
}

// --shrink: writes the smallest failing list of choices found.
int Shrink(const Args& a) {
  const Prop* p = Find(a.prop);
  if (!p) return 3;
  Quiet();
  double limit = 40;
  double t0 = Now();
  Reply r0 = RunForked(*p, ReadCase(a.choices), a.hang_s, false);
  if (r0.ok) {
    printf("NOREPRO\n");
    return 2;
  }
  std::vector<uint64_t> best = r0.taken;
  std::string tag = r0.tag;
  double one = Now() - t0;
  t0 = Now();
  if (best.empty() || tag == "hang") {
    printf("KEPT\n");
    return 2;
  }
  uint64_t budget = a.budget, used = 0;
  double hang = std::min<double>(a.hang_s, 20 + one * 20);
  auto fails = [&](const std::vector<uint64_t>& v) {
    if (used >= budget || Now() - t0 > limit) return false;
    ++used;
    Reply r = RunForked(*p, Case(v), hang, false);
    if (r.ok) return false;
    if (r.tag != tag) return false;
    best = r.taken.size() <= v.size() && !r.taken.empty() ? r.taken : v;
    return true;
  };
  {
    bool improved = true;
    while (improved && used < budget && Now() - t0 < limit) {
      improved = false;
      for (size_t k = best.size(); k >= 1; k /= 2) {
        for (size_t i = 0; i + k <= best.size() && used < budget;) {
          auto v = best;
          v.erase(v.begin() + i, v.begin() + i + k);
          if (fails(v)) {
            improved = true;
          } else {
            bool zero = true;
            for (size_t j = i; j < i + k; ++j) zero &= best[j] == 0;
            if (!zero) {
              v = best;
              for (size_t j = i; j < i + k; ++j) v[j] = 0;
              if (fails(v)) improved = true;
            }
            i += k;
          }
        }
      }
      for (size_t i = 0; i < best.size() && used < budget; ++i) {
        uint64_t lo = 0;
        while (i < best.size() && best[i] > lo && used < budget) {
          auto v = best;
          uint64_t mid = lo + (best[i] - lo) / 2;
          if (mid == best[i]) break;
          v[i] = mid;
          uint64_t before = best[i];
          if (fails(v)) {
            improved = true;
            if (i < best.size() && best[i] >= before) break;
          } else {
            lo = mid + 1;
          }
        }
      }
    }
  }
  std::ofstream o(a.out);
  for (uint64_t v : best) o << v << "\n";
  printf("SHRUNK %zu choices after %llu runs\n", best.size(),
         static_cast<unsigned long long>(used));
  return 0;
}

}  // namespace

int Main(int argc, char** argv) {
  Args a;
  for (int i = 1; i < argc; ++i) {
    std::string s = argv[i];
    auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (s == "--run" || s == "--list") a.mode = s;
    else if (s == "--shrink" || s == "--replay") { a.mode = s; a.prop = next(); }
    else if (s == "--seed") a.seed = strtoull(next().c_str(), nullptr, 10);
    else if (s == "--tier") g_thorough = next() == "thorough";
    else if (s == "--shard") a.shard = strtoull(next().c_str(), nullptr, 10);
    else if (s == "--shards") a.shards = strtoull(next().c_str(), nullptr, 10);
    else if (s == "--out") a.out = next();
    else if (s == "--choices") a.choices = next();
    else if (s == "--budget") a.budget = strtoull(next().c_str(), nullptr, 10);
    else if (s == "--only") a.only = next();
    else if (s == "--scale") a.scale = strtod(next().c_str(), nullptr);
    else if (s == "--hang") a.hang_s = strtoull(next().c_str(), nullptr, 10);
  }
  std::sort(Props().begin(), Props().end(),
            [](const Prop& x, const Prop& y) { return x.name < y.name; });
  if (a.mode == "--list") {
    for (auto& p : Props())
      printf("%s %llu %llu\n", p.name.c_str(),
             static_cast<unsigned long long>(p.quick),
             static_cast<unsigned long long>(p.thorough));
    return 0;
  }
  for (auto* f : Inits()) f();
  if (a.mode == "--run") return Run(a);
  if (a.mode == "--replay") return Replay(a);
  if (a.mode == "--shrink") return Shrink(a);
  return 3;
}

}  // namespace pbt

int main(int argc, char** argv) { return pbt::Main(argc, argv); }
