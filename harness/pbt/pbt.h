// A small property-based testing engine.
//
// A case is a sequence of bounded choices.  While generating, every choice
// comes from a generator seeded by (VERIF_SEED, property name, case index);
// while replaying, from a recorded list.  Shrinking edits that list, so every
// generator written against |Case| shrinks and replays without further work.
#ifndef VERIF_HARNESS_PBT_PBT_H_
#define VERIF_HARNESS_PBT_PBT_H_

#include <stddef.h>
#include <stdint.h>

#include <functional>

#include <map>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace pbt {

struct Failure {
  std::string tag;
  std::string msg;
};

inline uint64_t Mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

// xoshiro-like small generator; also handed out for bulk data.
class Rng {
 public:
  explicit Rng(uint64_t seed) : s_(Mix(seed ^ 0x5bf03635f0b5a3d1ull)) {}
  uint64_t operator()() { return Next(); }
  uint64_t Next() {
    s_ += 0x9e3779b97f4a7c15ull;
    uint64_t z = s_;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  // uniform in [0, hi]
  uint64_t Upto(uint64_t hi) {
    if (hi == UINT64_MAX) return Next();
    uint64_t n = hi + 1;
    return static_cast<uint64_t>(
        (static_cast<unsigned __int128>(Next()) * n) >> 64);
  }
  uint64_t Range(uint64_t lo, uint64_t hi) { return lo + Upto(hi - lo); }
  bool Bool() { return Next() >> 63; }

 private:
  uint64_t s_;
};

// Shared memory in which a case leaves its choices, for the event of a crash.
struct ChoiceLog {
  static constexpr uint64_t kMax = 1 << 18;
  volatile uint64_t n;
  uint64_t v[kMax];
};
extern ChoiceLog* g_log;

class Case {
 public:
  // generation
  explicit Case(uint64_t seed) : rng_(seed) {}
  // replay
  explicit Case(std::vector<uint64_t> choices)
      : rng_(0), replay_(true), choices_(std::move(choices)) {}

  // ---- choices ---------------------------------------------------------
  // uniform in [0, hi]; 0 is the simplest value
  uint64_t Draw(uint64_t hi) {
    uint64_t v;
    if (replay_) {
      v = pos_ < choices_.size() ? choices_[pos_] : 0;
      if (v > hi) v = hi;
    } else {
      v = rng_.Upto(hi);
    }
    ++pos_;
    taken_.push_back(v);
    if (g_log) {
      if (g_log->n < ChoiceLog::kMax) g_log->v[g_log->n] = v;
      g_log->n = g_log->n + 1;
    }
    return v;
  }
  uint64_t Range(uint64_t lo, uint64_t hi) { return lo + Draw(hi - lo); }
  bool Bool() { return Draw(1) == 1; }
  // true with probability 1/n
  bool OneIn(uint64_t n) { return Draw(n - 1) == n - 1; }
  template <typename C>
  const typename C::value_type& Pick(const C& c) {
    return *(c.begin() + Draw(c.size() - 1));
  }
  template <typename T>
  const T& Pick(std::initializer_list<T> c) {
    return *(c.begin() + Draw(c.size() - 1));
  }
  // a size in [0, hi], half of them small
  uint64_t Size(uint64_t hi) {
    uint64_t kind = Draw(3);
    if (kind <= 1) return Draw(hi < 4 ? hi : 4);
    if (kind == 2) return Draw(hi < 24 ? hi : 24);
    return Draw(hi);
  }
  uint64_t Size(uint64_t lo, uint64_t hi) { return lo + Size(hi - lo); }
  // 64 bits with a bias to the edges
  uint64_t U64() {
    switch (Draw(7)) {
      case 0:
        return Draw(3);
      case 1:
        return UINT64_MAX - Draw(3);
      case 2: {
        uint64_t b = uint64_t{1} << Draw(63);
        return b;
      }
      case 3: {
        uint64_t b = uint64_t{1} << Draw(63);
        return b - 1;
      }
      case 4:
        return ~(uint64_t{1} << Draw(63));
      case 5:
        return Draw(UINT64_MAX) >> Draw(63);
      default:
        return Draw(UINT64_MAX);
    }
  }
  // a generator for bulk data, itself one choice
  Rng Bulk() { return Rng(Draw(UINT64_MAX)); }

  // ---- reporting -------------------------------------------------------
  void Nontrivial(bool b = true) {
    if (b) nontrivial_ = true;
  }
  void Label(const char* l) { labels_.push_back(l); }
  void LabelIf(bool b, const char* l) {
    if (b) labels_.push_back(l);
  }
  bool verbose() const { return verbose_; }
  void set_verbose(bool v) { verbose_ = v; }
  template <typename... A>
  void Note(const A&... a) {
    if (!verbose_ || notes_.size() > 6000) return;
    std::ostringstream ss;
    ((ss << a), ...);
    if (!notes_.empty()) notes_ += "; ";
    notes_ += ss.str().substr(0, 1500);
  }
  [[noreturn]] void Fail(std::string tag, std::string msg) {
    throw Failure{std::move(tag), std::move(msg)};
  }

  bool nontrivial() const { return nontrivial_; }
  const std::vector<const char*>& labels() const { return labels_; }
  const std::vector<uint64_t>& taken() const { return taken_; }
  const std::string& notes() const { return notes_; }
  uint64_t Hash() const {
    uint64_t h = 0x1234567;
    for (size_t i = 1; i < taken_.size(); ++i) h = Mix(h ^ taken_[i]);
    return h;
  }

 private:
  Rng rng_;
  bool replay_ = false;
  bool verbose_ = false;
  bool nontrivial_ = false;
  size_t pos_ = 0;
  std::vector<uint64_t> choices_;
  std::vector<uint64_t> taken_;
  std::vector<const char*> labels_;
  std::string notes_;
};

using Fn = std::function<void(Case&)>;

struct Prop {
  std::string name;
  uint64_t quick;     // number of cases in the quick tier
  uint64_t thorough;  // number of cases in the thorough tier
  Fn fn;
};

std::vector<Prop>& Props();
int Register(std::string name, uint64_t quick, uint64_t thorough, Fn fn);
// Runs once in every process before any case.
int RegisterInit(void (*fn)());
// Runs before every case; reseeds whatever randomness the code under test
// draws on its own.
int RegisterBeforeCase(void (*fn)(uint64_t seed));

// true while running the thorough tier
bool Thorough();

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PBT_REGISTER(name, quick, thorough, ...)             \
  static int PBT_CAT(pbt_reg_, __COUNTER__) [[maybe_unused]] = \
      ::pbt::Register(name, quick, thorough, __VA_ARGS__)
#define PBT_INIT(fn)                                         \
  static int PBT_CAT(pbt_init_, __COUNTER__) [[maybe_unused]] = \
      ::pbt::RegisterInit(fn)

// The tag names the relation that was broken.
#define PBT_T(cond, tag)                                             \
  do {                                                               \
    if (!(cond)) c.Fail(tag, std::string("failed: ") + #cond);       \
  } while (0)

// Like PBT_T with a text that says where.
#define PBT_TM(cond, tag, msg)                                       \
  do {                                                               \
    if (!(cond)) {                                                   \
      std::stringstream pbt_ss;                                      \
      pbt_ss << msg << "; failed: " << #cond;                        \
      c.Fail(tag, pbt_ss.str());                                     \
    }                                                                \
  } while (0)

#define PBT_CHECK(c, cond)                                             \
  do {                                                                 \
    if (!(cond)) (c).Fail(#cond, std::string("failed: ") + #cond);     \
  } while (0)
#define PBT_CHECK_MSG(c, cond, ...)                                    \
  do {                                                                 \
    if (!(cond)) {                                                     \
      std::ostringstream pbt_ss;                                       \
      pbt_ss << "failed: " << #cond << ": " << __VA_ARGS__;            \
      (c).Fail(#cond, pbt_ss.str());                                   \
    }                                                                  \
  } while (0)

}  // namespace pbt

#endif  // VERIF_HARNESS_PBT_PBT_H_
