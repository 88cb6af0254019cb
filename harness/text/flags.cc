// Command lines made from what they should mean.
#include "tachyon/base/environment.h"
#include "tachyon/base/flag/flag_parser.h"
#include "tachyon/base/flag/numeric_flags.h"
#include "tachyon/crypto/random/rng_type.h"

#include "verif/pbt/gen.h"

namespace {

using pbt::Case;
using pbt::Rng;
namespace tb = tachyon::base;
using tachyon::crypto::RNGType;

struct Text {
  std::string good;  // a text of some value
  std::string bad;   // a text of none
};

// One flag with what it is set to and what it should be.
struct AnyFlag {
  virtual ~AnyFlag() = default;
  virtual tb::FlagBase* Add(tb::FlagParserBase* parser) = 0;
  virtual Text Make(Rng& r) = 0;     // also remembers the value of the good text
  virtual void Take() = 0;           // the good text was given
  virtual bool Right() const = 0;
  virtual bool IsBool() const { return false; }
  virtual bool HasEnv() const { return true; }
  char letter = 0;
  std::string word;
  bool required = false, given = false;
  std::string env;
};

// Names are set on the builder, which knows its type.
template <typename B>
void Name(B& b, const AnyFlag& f, bool positional) {
  if (positional) {
    b.set_name(f.word);
  } else {
    if (f.letter) b.set_short_name(std::string("-") + f.letter);
    if (!f.word.empty()) b.set_long_name("--" + f.word);
  }
  if (f.required) b.set_required();
}

template <typename T>
struct Value : AnyFlag {
  T v{}, want{}, next{};
  bool positional = false;
  tb::FlagBase* Add(tb::FlagParserBase* p) override {
    auto& b = p->AddFlag<tb::Flag<T>>(&v);
    Name(b, *this, positional);
    if (!env.empty()) b.set_env_name(env);
    return &b;
  }
  void Take() override {
    want = next;
    given = true;
  }
  bool Right() const override { return v == want; }
};

template <typename T>
struct Integer : Value<T> {
  Text Make(Rng& r) override {
    T n = static_cast<T>(static_cast<T>(r.Next()) >> r.Upto(8 * sizeof(T) - 1));
    if (r.Upto(4) == 0) n = std::numeric_limits<T>::max();
    if (r.Upto(4) == 0) n = std::numeric_limits<T>::min();
    this->next = n;
    mpz_class over = mpz_class(std::to_string(std::numeric_limits<T>::max())) + 1;
    mpz_class under = mpz_class(std::to_string(std::numeric_limits<T>::min())) - 1;
    std::string bads[] = {over.get_str(), under.get_str(), "12x", "", "x", "1.5", "--", "1 2"};
    return {std::to_string(n), bads[r.Upto(7)]};
  }
};
struct Double : Value<double> {
  Text Make(Rng& r) override {
    next = static_cast<double>(static_cast<int64_t>(r.Next()) >> 40) / 64;
    char buf[64];
    snprintf(buf, 64, "%.10f", next);
    return {buf, r.Bool() ? "1.2.3" : "x"};
  }
};
struct String : Value<std::string> {
  Text Make(Rng& r) override {
    next.clear();
    size_t n = 1 + r.Upto(5);
    for (size_t i = 0; i < n; ++i) next += "ab-=. 9\xe1"[r.Upto(7)];
    if (next == "-h" || next == "--" || next == "--help") next = "a";
    return {next, ""};
  }
};
struct Type : Value<RNGType> {
  Text Make(Rng& r) override {
    next = r.Bool() ? RNGType::kXORShift : RNGType::kChaCha20;
    static const char* kBad[] = {"", "xor_shif", "xor_shift ", "XOR_SHIFT", "0", "cha_cha2", "cha_cha200"};
    return {next == RNGType::kXORShift ? "xor_shift" : "cha_cha20", kBad[r.Upto(6)]};
  }
};
struct Bool : Value<bool> {
  Text Make(Rng&) override {
    next = true;
    return {};
  }
  bool IsBool() const override { return true; }
};
struct Positive : AnyFlag {
  tb::flag_internal::PositiveInt v{5};
  int want = 5, next = 0;
  tb::FlagBase* Add(tb::FlagParserBase* p) override {
    auto& b = p->AddFlag<tb::PositiveIntFlag>(&v);
    Name(b, *this, false);
    if (!env.empty()) b.set_env_name(env);
    return &b;
  }
  Text Make(Rng& r) override {
    next = 1 + static_cast<int>(r.Upto(r.Bool() ? 3 : INT_MAX - 1));
    return {std::to_string(next), r.Bool() ? "0" : "-" + std::to_string(1 + r.Upto(9))};
  }
  void Take() override {
    want = next;
    given = true;
  }
  bool Right() const override { return v.value == want; }
};
struct Many : AnyFlag {
  bool HasEnv() const override { return false; }
  std::vector<int> v, want;
  int next = 0;
  tb::FlagBase* Add(tb::FlagParserBase* p) override {
    auto& b = p->AddFlag<tb::Flag<std::vector<int>>>(&v);
    Name(b, *this, false);
    return &b;
  }
  Text Make(Rng& r) override {
    next = static_cast<int>(r.Next());
    return {std::to_string(next), "x"};
  }
  void Take() override {
    want.push_back(next);
    given = true;
  }
  bool Right() const override { return v == want; }
};
struct Choices : AnyFlag {
  std::string v = "red", want = "red", next;
  tb::FlagBase* Add(tb::FlagParserBase* p) override {
    auto& b = p->AddFlag<tb::ChoicesFlag<std::string>>(
        &v, std::vector<std::string>{"red", "green", "blue"});
    Name(b, *this, false);
    if (!env.empty()) b.set_env_name(env);
    return &b;
  }
  Text Make(Rng& r) override {
    static const char* kAll[] = {"red", "green", "blue"};
    next = kAll[r.Upto(2)];
    static const char* kBad[] = {"re", "redd", "Green", "", "black"};
    return {next, kBad[r.Upto(4)]};
  }
  void Take() override {
    want = next;
    given = true;
  }
  bool Right() const override { return v == want; }
};
struct Range : AnyFlag {
  bool HasEnv() const override { return false; }
  int v = 0, want = 0, next = 0, lo, hi;
  bool with_lo, with_hi;
  explicit Range(Rng& r) : lo(-static_cast<int>(r.Upto(5)) - 1), hi(static_cast<int>(r.Upto(5)) + 1) {
    with_lo = r.Bool();
    with_hi = r.Bool();
  }
  tb::FlagBase* Add(tb::FlagParserBase* p) override {
    auto& b = p->AddFlag<tb::RangeFlag<int>>(&v, lo, hi);
    b.set_greater_than_or_equal_to(with_lo).set_less_than_or_equal_to(with_hi);
    Name(b, *this, false);
    return &b;
  }
  Text Make(Rng& r) override {
    int from = with_lo ? lo : lo + 1, to = with_hi ? hi : hi - 1;
    next = from + static_cast<int>(r.Upto(to - from));
    if (r.Upto(3) == 0) next = r.Bool() ? from : to;
    int bad = r.Bool() ? to + 1 : from - 1;
    return {std::to_string(next), std::to_string(bad)};
  }
  void Take() override {
    want = next;
    given = true;
  }
  bool Right() const override { return v == want; }
};

std::unique_ptr<AnyFlag> New(Rng& r) {
  switch (r.Upto(13)) {
    case 0: return std::make_unique<Integer<int>>();
    case 1: return std::make_unique<Integer<int8_t>>();
    case 2: return std::make_unique<Integer<uint16_t>>();
    case 3: return std::make_unique<Integer<uint64_t>>();
    case 4: return std::make_unique<Integer<int64_t>>();
    case 5: return std::make_unique<Double>();
    case 6: return std::make_unique<String>();
    case 7: return std::make_unique<Type>();
    case 8: return std::make_unique<Positive>();
    case 9: return std::make_unique<Many>();
    case 10: return std::make_unique<Choices>();
    case 11: return std::make_unique<Range>(r);
    default: return std::make_unique<Bool>();
  }
}

struct Set {
  std::vector<std::unique_ptr<AnyFlag>> positional, optional;
  std::vector<tb::FlagBase*> bases;

  Set(Rng& r, bool with_positional, const std::string& mark) {
    size_t np = with_positional ? r.Upto(2) : 0;
    for (size_t i = 0; i < np; ++i) {
      if (r.Bool()) {
        auto f = std::make_unique<Integer<int>>();
        f->positional = true;
        positional.push_back(std::move(f));
      } else {
        auto f = std::make_unique<String>();
        f->positional = true;
        positional.push_back(std::move(f));
      }
      positional.back()->word = "pos" + std::to_string(i);
    }
    size_t n = r.Upto(5);
    std::string letters = "abcdefgijkABC";  // -h is taken
    for (size_t i = 0; i < n; ++i) {
      auto f = New(r);
      if (r.Upto(2)) {
        size_t k = r.Upto(letters.size() - 1);
        f->letter = letters[k];
        letters.erase(k, 1);
      }
      // One name may begin another.
      if (!f->letter || r.Bool()) f->word = (r.Bool() ? "w" : "ww_") + std::string(i, 'w');
      for (auto& g : optional)
        if (g->word == f->word && !f->word.empty()) f->word += "9" + std::to_string(i);
      f->required = r.Upto(5) == 0;
      if (!f->IsBool() && r.Upto(3) == 0 && f->HasEnv())
        f->env = "VERIF_FLAG_" + mark + std::to_string(i);
      optional.push_back(std::move(f));
    }
  }
  void Add(tb::FlagParserBase* p) {
    for (auto& f : positional) bases.push_back(f->Add(p));
    for (auto& f : optional) bases.push_back(f->Add(p));
  }

  // Gives the value it made last.
  static void Give(Rng& r, const AnyFlag& f, const std::string& value,
                   std::vector<std::string>* args) {
    std::string name;
    if (f.letter && (f.word.empty() || r.Bool())) {
      name = std::string("-") + f.letter;
    } else {
      name = "--" + f.word;
    }
    if (f.IsBool()) {
      args->push_back(name);
    } else if (r.Bool()) {
      args->push_back(name + "=" + value);
    } else {
      args->push_back(name);
      args->push_back(value);
    }
  }
};

enum Fault { kNone, kBad, kMissing, kUnknown, kRequired, kPositional };

// |unknown| collects what is left, if unknown arguments are left alone.
void Fill(Rng& r, Set* set, Fault* fault, std::vector<std::string>* args, bool known,
          std::vector<std::string>* unknown) {
  for (size_t i = 0; i < set->positional.size(); ++i) {
    auto& f = set->positional[i];
    if (*fault == kPositional && i + 1 == set->positional.size()) break;
    args->push_back(f->Make(r).good);
    f->Take();
  }
  if (*fault == kPositional) {
    if (set->positional.empty()) *fault = kNone;
    else return;
  }
  std::vector<std::pair<AnyFlag*, std::string>> gives;
  bool spared = false;
  for (auto& f : set->optional) {
    size_t n = r.Upto(2);
    if (f->required && n == 0) n = 1;
    if (*fault == kRequired && f->required && !spared) {
      spared = true;
      n = 0;
    }
    for (size_t i = 0; i < n; ++i) gives.push_back({f.get(), ""});
  }
  if (*fault == kRequired && !spared) *fault = kNone;
  for (size_t i = gives.size(); i > 1; --i) std::swap(gives[i - 1], gives[r.Upto(i - 1)]);
  size_t bad = gives.empty() ? 0 : r.Upto(gives.size() - 1);
  bool done = false;
  std::string group;
  auto flush = [&] {
    if (!group.empty()) args->push_back("-" + group);
    group.clear();
  };
  for (size_t i = 0; i < gives.size(); ++i) {
    AnyFlag* f = gives[i].first;
    Text t = f->Make(r);
    if (f->IsBool() && f->letter && r.Bool()) {
      // Letters can go together.
      group += f->letter;
      f->Take();
      if (r.Bool()) flush();
      continue;
    }
    flush();
    if (*fault == kBad && i == bad && !f->IsBool()) {
      Set::Give(r, *f, t.bad, args);
      done = true;
      break;
    }
    if (*fault == kUnknown && r.Upto(gives.size()) == 0) break;
    if (known && r.Upto(3) == 0) {
      std::string u = "--other" + std::to_string(i);
      if (r.Bool()) u += "=3";
      args->push_back(u);
      unknown->push_back(u);
      if (r.Bool()) {
        args->push_back("value");
        unknown->push_back("value");
      }
    }
    Set::Give(r, *f, t.good, args);
    f->Take();
  }
  flush();
  if (*fault == kBad && !done) *fault = kNone;
  if (*fault == kMissing) {
    AnyFlag* f = nullptr;
    for (auto& g : set->optional)
      if (!g->IsBool()) f = g.get();
    if (f) {
      args->push_back(f->letter && (f->word.empty() || r.Bool()) ? std::string("-") + f->letter
                                                                 : "--" + f->word);
    } else {
      *fault = kNone;
    }
  }
  if (*fault == kUnknown) {
    static const char* kNames[] = {"--other", "--w_", "other", "-Q", "--wwwwwwwwww", "--w9=3", "---w"};
    args->push_back(kNames[r.Upto(6)]);
  }
}

struct Argv {
  explicit Argv(const std::vector<std::string>& args) {
    strings.push_back("program");
    strings.insert(strings.end(), args.begin(), args.end());
    for (auto& s : strings) argv.push_back(s.data());
    argv.push_back(nullptr);
    argc = strings.size();
  }
  std::vector<std::string> strings;
  std::vector<char*> argv;
  int argc;
};

// Variables that stand in for what is not given.
struct Env {
  std::vector<std::string> set;
  bool ok = true;
  void Fill(Rng& r, Set* s, Fault fault) {
    for (auto& f : s->optional) {
      if (f->env.empty() || r.Bool()) continue;
      bool bad = fault == kNone && !f->given && !f->required && r.Upto(5) == 0;
      Text t = f->Make(r);
      tb::Environment::Set(f->env, bad ? t.bad : t.good);
      set.push_back(f->env);
      if (!f->given && !f->required) {
        if (bad) {
          ok = false;
        } else {
          f->Take();
          f->given = false;
        }
      }
    }
  }
  ~Env() {
    for (auto& s : set) tb::Environment::Unset(s);
  }
};

std::string Show(const std::vector<std::string>& args) {
  std::string s;
  for (auto& a : args) s += "'" + a + "' ";
  return s;
}

void Lines(Case& c) {
  Rng r = c.Bulk();
  Fault fault = static_cast<Fault>(c.Draw(9) < 5 ? 0 : 1 + c.Draw(4));
  bool known = fault != kUnknown && c.Draw(2) == 0;
  Set set(r, true, "L");
  std::vector<std::string> args, unknown, forward, want_forward;
  Fill(r, &set, &fault, &args, known, &unknown);
  bool rest = fault != kMissing && fault != kUnknown && c.Draw(3) == 0;
  if (fault == kPositional) rest = false;
  if (rest) {
    args.push_back("--");
    for (size_t n = r.Upto(3); n; --n) {
      want_forward.push_back(r.Bool() ? "-a" : "x");
      args.push_back(want_forward.back());
    }
  }
  Env env;
  env.Fill(r, &set, fault);
  bool want = fault == kNone && env.ok;
  c.Note(Show(args), known ? "known" : "", " fault ", static_cast<int>(fault), " env ", env.ok);
  static const char* kNames[] = {"right", "a bad value", "a missing value", "an unknown flag",
                                 "a missing flag", "a missing argument"};
  c.Label(kNames[fault]);
  c.Nontrivial(args.size() >= 2);
  tb::FlagParser parser;
  set.Add(&parser);
  Argv a(args);
  std::string error;
  bool ok;
  if (known) {
    ok = parser.ParseKnownWithForward(&a.argc, a.argv.data(), &forward, &error);
  } else if (rest || r.Bool()) {
    ok = parser.ParseWithForward(a.argc, a.argv.data(), &forward, &error);
  } else {
    ok = parser.Parse(a.argc, a.argv.data(), &error);
  }
  PBT_TM(ok == want, want ? "refused" : "accepted", error);
  if (!ok) {
    PBT_T(!error.empty(), "error");
    return;
  }
  size_t i = 0;
  for (auto* list : {&set.positional, &set.optional})
    for (auto& f : *list) {
      PBT_TM(f->Right(), "value", f->word << " " << f->letter);
      if (f->given) PBT_TM(set.bases[i]->is_set(), "is_set", f->word << " " << f->letter);
      ++i;
    }
  PBT_T(forward == want_forward, "forward");
  if (known) {
    PBT_T(a.argc == static_cast<int>(1 + unknown.size()), "number of unknown arguments");
    PBT_T(std::string(a.argv[0]) == "program", "program");
    for (size_t k = 0; k < unknown.size(); ++k)
      PBT_TM(unknown[k] == a.argv[k + 1], "unknown argument", a.argv[k + 1]);
  }
}

void Commands(Case& c) {
  Rng r = c.Bulk();
  Set top(r, false, "T");
  for (auto& f : top.optional) {
    f->required = false;
    f->env.clear();
  }
  size_t n = 1 + c.Draw(2);
  std::vector<std::unique_ptr<Set>> subs;
  static const char* kNames[] = {"w", "run", "runs"};
  auto is_set = std::make_unique<bool[]>(n);
  for (size_t i = 0; i < n; ++i)
    subs.push_back(std::make_unique<Set>(r, true, "S" + std::to_string(i)));
  Fault none = kNone, fault = static_cast<Fault>(c.Draw(9) < 5 ? 0 : 1 + c.Draw(4));
  std::vector<std::string> args, unknown;
  Fill(r, &top, &none, &args, false, &unknown);
  size_t which = c.Draw(n - 1);
  args.push_back(kNames[which]);
  Fill(r, subs[which].get(), &fault, &args, false, &unknown);
  c.Note(Show(args), "fault ", static_cast<int>(fault));
  c.LabelIf(fault != kNone, "at fault");
  c.Nontrivial(args.size() >= 2);
  tb::FlagParser parser;
  for (size_t i = 0; i < n; ++i) {
    tb::SubParser& p = parser.AddSubParser();
    p.set_name(kNames[i]);
    p.set_is_set(&is_set[i]);
    subs[i]->Add(&p);
  }
  top.Add(&parser);
  Argv a(args);
  std::string error;
  bool ok = parser.Parse(a.argc, a.argv.data(), &error);
  PBT_TM(ok == (fault == kNone), ok ? "accepted" : "refused", error);
  if (!ok) {
    PBT_T(!error.empty(), "error");
    return;
  }
  for (size_t i = 0; i < n; ++i) {
    PBT_T(is_set[i] == (i == which), "is_set");
    for (auto* list : {&subs[i]->positional, &subs[i]->optional})
      for (auto& f : *list) PBT_TM(f->Right(), "value", f->word << " " << f->letter);
  }
  for (auto& f : top.optional) PBT_TM(f->Right(), "value", f->word << " " << f->letter);
}

// A validation of one's own.
struct Picky : tb::FlagParser {
  int v = 0;
  bool Validate(std::string* error) override {
    if (v % 2) *error = "odd";
    return v % 2 == 0;
  }
};
void Validation(Case& c) {
  Picky p;
  p.AddFlag<tb::Flag<int>>(&p.v).set_long_name("--v");
  int v = static_cast<int>(c.Draw(100));
  bool known = c.Draw(1);
  c.Note(v, known ? " known" : "");
  c.Nontrivial();
  Argv a({"--v", std::to_string(v)});
  std::string error;
  bool ok = known ? p.ParseKnown(&a.argc, a.argv.data(), &error)
                  : p.Parse(a.argc, a.argv.data(), &error);
  PBT_T(p.v == v, "value");
  PBT_T(ok == (v % 2 == 0), "validation");
  PBT_T(ok == error.empty(), "error");
}

// Any arguments at all.
void Noise(Case& c) {
  Rng r = c.Bulk();
  Set set(r, true, "N");
  std::vector<std::string> args;
  size_t n = r.Upto(6);
  for (size_t i = 0; i < n; ++i) {
    std::string s;
    switch (r.Upto(3)) {
      case 0: {
        size_t k = r.Upto(300 * (r.Upto(20) == 0) + 6);
        for (size_t j = 0; j < k; ++j) s += "-=wab1 9_\xe1"[r.Upto(9)];
        break;
      }
      case 1: s = "-" + std::string(1, "abcABC-"[r.Upto(6)]); break;
      default: s = "--" + std::string(r.Upto(4), 'w') + (r.Bool() ? "" : "=1");
    }
    if (s == "-h" || s == "--help") continue;
    args.push_back(s);
  }
  c.Note(Show(args));
  c.Nontrivial(n >= 2);
  tb::FlagParser parser;
  set.Add(&parser);
  Argv a(args);
  std::string error;
  bool known = r.Bool();
  bool ok = known ? parser.ParseKnown(&a.argc, a.argv.data(), &error)
                  : parser.Parse(a.argc, a.argv.data(), &error);
  PBT_T(ok || !error.empty(), "error");
  PBT_T(a.argc >= 1 && a.argc <= static_cast<int>(args.size() + 1), "count");
  if (ok) {
    for (size_t i = 0; i < set.bases.size(); ++i) {
      bool must = set.bases[i]->is_positional() || set.bases[i]->is_required();
      PBT_T(!must || set.bases[i]->is_set(), "required");
    }
  }
}

void RegisterAll() {
  pbt::Register("flags.lines", 30000, 600000, Lines);
  pbt::Register("flags.commands", 10000, 200000, Commands);
  pbt::Register("flags.validation", 1000, 20000, Validation);
  pbt::Register("flags.noise", 20000, 400000, Noise);
}
PBT_INIT(RegisterAll);

}  // namespace
