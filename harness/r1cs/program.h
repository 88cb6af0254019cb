// Random rank-1 constraint systems with the values they should have.
#ifndef VERIF_R1CS_PROGRAM_H_
#define VERIF_R1CS_PROGRAM_H_

#include <map>
#include <optional>
#include <vector>

#include "tachyon/zk/r1cs/constraint_system/circuit.h"
#include "tachyon/zk/r1cs/constraint_system/constraint_system.h"

#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace r1cs_pbt {

using pbt::Case;
using pbt::Rng;
namespace tm = tachyon::math;
namespace tr = tachyon::zk::r1cs;

template <typename F>
F AnyF(Rng& r) {
  switch (r.Upto(5)) {
    case 0: return F(static_cast<uint64_t>(r.Upto(3)));
    case 1: return -F(static_cast<uint64_t>(1 + r.Upto(2)));
    default: return pbt::BulkPrimeField<F>(r);
  }
}
template <typename F>
F NonZeroF(Rng& r) {
  F f = AnyF<F>(r);
  return f.IsZero() ? F::One() : f;
}

// A secret or a challenge: no small value, which equations hold for by chance.
template <typename F>
F UniformF(Rng& r) {
  F f(uint64_t{1}), b(uint64_t{1} << 32);
  for (int i = 0; i < 10; ++i) f = f * b + F(static_cast<uint64_t>(r.Upto(0xffffffff)));
  return f;
}

// What a program refers to: the constants, its variables, its named sums.
struct Ref {
  enum Type { kZero, kOne, kInstance, kWitness, kSum } type;
  size_t i = 0;
};
template <typename F>
using Sum = std::vector<std::pair<F, Ref>>;

template <typename F>
struct Step {
  enum Kind { kInstance, kWitness, kName, kConstrain } kind;
  F value;
  Sum<F> a, b, c;  // a for a named sum
  // How the sums are put together: by terms, operators or deduplicated.
  int how = 0;
};

template <typename F>
struct Program {
  std::vector<Step<F>> steps;
  std::vector<F> instance = {F::One()}, witness;
  std::vector<Sum<F>> named;
  size_t constraints = 0;

  F Value(const Ref& r) const {
    switch (r.type) {
      case Ref::kZero: return F::Zero();
      case Ref::kOne: return F::One();
      case Ref::kInstance: return instance[r.i];
      case Ref::kWitness: return witness[r.i];
      default: return Value(named[r.i]);
    }
  }
  F Value(const Sum<F>& s) const {
    F v = F::Zero();
    for (const auto& [f, r] : s) v += f * Value(r);
    return v;
  }
  // Instance variables (0 is one), then witness variables.
  void Expand(const Sum<F>& s, const F& by, std::map<size_t, F>* out) const {
    for (const auto& [f, r] : s) {
      F x = f * by;
      switch (r.type) {
        case Ref::kZero: break;
        case Ref::kOne: Plus(out, 0, x); break;
        case Ref::kInstance: Plus(out, r.i, x); break;
        case Ref::kWitness: Plus(out, instance.size() + r.i, x); break;
        default: Expand(named[r.i], x, out);
      }
    }
  }
  std::map<size_t, F> Expand(const Sum<F>& s) const {
    std::map<size_t, F> out;
    Expand(s, F::One(), &out);
    for (auto it = out.begin(); it != out.end();)
      it = it->second.IsZero() ? out.erase(it) : std::next(it);
    return out;
  }
  std::vector<F> All() const {
    std::vector<F> v = instance;
    v.insert(v.end(), witness.begin(), witness.end());
    return v;
  }
  bool Satisfied() const {
    for (const Step<F>& s : steps)
      if (s.kind == Step<F>::kConstrain && Value(s.a) * Value(s.b) != Value(s.c)) return false;
    return true;
  }

 private:
  static void Plus(std::map<size_t, F>* out, size_t i, const F& x) {
    (*out)[i] = out->count(i) ? (*out)[i] + x : x;
  }
};

template <typename F>
Sum<F> AnySum(const Program<F>& p, Rng& r, bool zero) {
  Sum<F> s;
  size_t n = r.Upto(3) ? r.Upto(4) : r.Upto(12);
  for (size_t k = 0; k < n; ++k) {
    Ref ref{Ref::kOne};
    switch (r.Upto(7)) {
      case 0: break;
      case 1:
        if (zero && r.Upto(3) == 0) ref.type = Ref::kZero;
        break;
      case 2:
      case 3:
        if (p.instance.size() > 1) ref = {Ref::kInstance, 1 + r.Upto(p.instance.size() - 2)};
        break;
      case 4:
      case 5:
        if (!p.named.empty()) ref = {Ref::kSum, r.Upto(p.named.size() - 1)};
        break;
      default:
        if (!p.witness.empty()) ref = {Ref::kWitness, r.Upto(p.witness.size() - 1)};
    }
    F f = AnyF<F>(r);
    // Terms that cancel.
    if (!s.empty() && r.Upto(6) == 0) {
      ref = s[r.Upto(s.size() - 1)].second;
      if (r.Bool())
        for (const auto& [g, o] : s)
          if (o.type == ref.type && o.i == ref.i) f = -g;
    }
    s.push_back({f, ref});
  }
  return s;
}

// A program whose constraints hold.
template <typename F>
Program<F> AnyProgram(Rng& r, size_t steps, bool zero) {
  using S = Step<F>;
  Program<F> p;
  auto variable = [&](const F& v) {
    S s;
    s.kind = r.Upto(3) ? S::kWitness : S::kInstance;
    s.value = v;
    bool w = s.kind == S::kWitness;
    (w ? p.witness : p.instance).push_back(v);
    p.steps.push_back(s);
    return Ref{w ? Ref::kWitness : Ref::kInstance,
               (w ? p.witness.size() : p.instance.size()) - 1};
  };
  for (size_t k = 0; k < steps; ++k) {
    S s;
    s.how = static_cast<int>(r.Upto(2));
    switch (r.Upto(5)) {
      case 0:
      case 1:
        variable(AnyF<F>(r));
        break;
      case 2:
        s.kind = S::kName;
        s.a = AnySum(p, r, zero);
        p.named.push_back(s.a);
        p.steps.push_back(s);
        break;
      default: {
        s.kind = S::kConstrain;
        s.a = AnySum(p, r, zero);
        s.b = AnySum(p, r, zero);
        s.c = AnySum(p, r, zero);
        F missing = p.Value(s.a) * p.Value(s.b) - p.Value(s.c);
        if (!missing.IsZero()) {
          if (r.Upto(4)) {
            F f = NonZeroF<F>(r);
            s.c.push_back({f, variable(missing * *f.Inverse())});
          } else {
            s.c.push_back({missing, Ref{Ref::kOne}});
          }
        }
        p.steps.push_back(s);
        ++p.constraints;
      }
    }
  }
  return p;
}

template <typename F>
void Build(const Program<F>& p, tr::ConstraintSystem<F>& cs) {
  using S = Step<F>;
  std::vector<tr::Variable> instance = {tr::Variable::One()}, witness, named;
  auto variable = [&](const Ref& r) {
    switch (r.type) {
      case Ref::kZero: return cs.CreateZero();
      case Ref::kOne: return cs.CreateOne();
      case Ref::kInstance: return instance[r.i];
      case Ref::kWitness: return witness[r.i];
      default: return named[r.i];
    }
  };
  auto lc = [&](const Sum<F>& s, int how) {
    std::vector<tr::Term<F>> terms;
    for (const auto& [f, r] : s) terms.emplace_back(f, variable(r));
    if (how == 0) return tr::LinearCombination<F>(std::move(terms));
    if (how == 1) return tr::LinearCombination<F>::CreateDeduplicated(std::move(terms));
    tr::LinearCombination<F> l;
    for (const tr::Term<F>& t : terms) l += t;
    return l;
  };
  size_t i = 1, w = 0;
  for (const S& s : p.steps) {
    switch (s.kind) {
      case S::kInstance: {
        F v = p.instance[i++];
        instance.push_back(cs.CreateInstanceVariable([v] { return v; }));
        break;
      }
      case S::kWitness: {
        F v = p.witness[w++];
        witness.push_back(cs.CreateWitnessVariable([v] { return v; }));
        break;
      }
      case S::kName:
        named.push_back(cs.CreateLinearCombination(lc(s.a, s.how)));
        break;
      case S::kConstrain:
        cs.EnforceConstraint(lc(s.a, s.how), lc(s.b, s.how), lc(s.c, s.how));
    }
  }
}

template <typename F>
class Scripted : public tr::Circuit<F> {
 public:
  explicit Scripted(const Program<F>* p) : p_(p) {}
  void Synthesize(tr::ConstraintSystem<F>& cs) const override { Build(*p_, cs); }

 private:
  const Program<F>* p_;
};

}  // namespace r1cs_pbt

#endif  // VERIF_R1CS_PROGRAM_H_
