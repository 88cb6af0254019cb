// Linear combinations, constraint systems and their arithmetic programs.
#include <memory>

#include "tachyon/math/elliptic_curves/bls12/bls12_381/fr.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#include "tachyon/zk/r1cs/constraint_system/quadratic_arithmetic_program.h"

#include "verif/r1cs/program.h"

namespace r1cs_pbt {
namespace {

template <typename F>
struct R1CS {
  using LC = tr::LinearCombination<F>;
  using Term = tr::Term<F>;
  using CS = tr::ConstraintSystem<F>;
  using Bag = std::map<std::pair<int, size_t>, F>;

  static tr::Variable AnyVariable(Rng& r) {
    size_t i = r.Upto(r.Bool() ? 3 : 20);
    switch (r.Upto(4)) {
      case 0: return tr::Variable::Zero();
      case 1: return tr::Variable::One();
      case 2: return tr::Variable::Instance(i);
      case 3: return tr::Variable::SymbolicLinearCombination(i);
      default: return tr::Variable::Witness(i);
    }
  }
  static Bag Of(const LC& lc) {
    Bag b;
    for (const Term& t : lc.terms()) {
      auto k = std::make_pair(static_cast<int>(t.variable.type()), t.variable.index());
      b[k] = b.count(k) ? b[k] + t.coefficient : t.coefficient;
    }
    return b;
  }
  static bool Same(const Bag& a, const Bag& b) {
    for (const auto& [k, f] : a) {
      auto it = b.find(k);
      if (it == b.end() ? !f.IsZero() : it->second != f) return false;
    }
    for (const auto& [k, f] : b)
      if (!a.count(k) && !f.IsZero()) return false;
    return true;
  }
  static bool Normal(const LC& lc) {
    for (size_t i = 1; i < lc.terms().size(); ++i)
      if (!(lc.terms()[i - 1].variable < lc.terms()[i].variable)) return false;
    return lc.IsSorted();
  }

  static void Combinations(Case& c) {
    size_t ops = c.Size(1, 40);
    bool sloppy = c.Draw(2) == 0;  // start from terms in any order
    Rng r = c.Bulk();
    auto terms = [&](size_t n) {
      std::vector<Term> v;
      for (size_t i = 0; i < n; ++i) v.emplace_back(AnyF<F>(r), AnyVariable(r));
      return v;
    };
    auto fresh = [&] {
      std::vector<Term> v = terms(r.Upto(2) ? r.Upto(4) : r.Upto(30));
      Bag want = Of(LC(v));
      LC lc = sloppy && r.Bool() ? LC(v)
              : r.Bool()         ? LC::CreateDeduplicated(v)
                                 : LC::CreateDeduplicated(std::vector<Term>(v));
      PBT_T(Same(Of(lc), want), "deduplicate");
      if (!sloppy) PBT_T(Normal(lc), "normal");
      return lc;
    };
    LC lc = fresh();
    Bag m = Of(lc);
    auto add = [&](const Bag& o, bool minus) {
      for (const auto& [k, f] : o) {
        F x = minus ? -f : f;
        m[k] = m.count(k) ? m[k] + x : x;
      }
    };
    if (ops >= 4) c.Nontrivial();
    c.LabelIf(sloppy, "unsorted");
    c.Note(ops, " operations");
    for (size_t i = 0; i < ops; ++i) {
      size_t op = r.Upto(11);
      switch (op) {
        case 0:
        case 1: {
          Term t(AnyF<F>(r), AnyVariable(r));
          if (!lc.terms().empty() && r.Bool())
            t = Term(AnyF<F>(r), lc.terms()[r.Upto(lc.terms().size() - 1)].variable);
          bool minus = r.Bool();
          Bag b = Of(LC({t}));
          LC other = minus ? lc - t : lc + t;
          if (minus) {
            lc -= t;
          } else {
            lc += t;
          }
          PBT_T(lc == other, "assign");
          add(b, minus);
          break;
        }
        case 2: {
          tr::Variable v = AnyVariable(r);
          Bag b = Of(LC({Term(v)}));
          bool minus = r.Bool();
          if (minus) {
            lc -= v;
          } else {
            lc += v;
          }
          add(b, minus);
          break;
        }
        case 3:
        case 4:
        case 5: {
          LC o = fresh();
          bool minus = r.Bool();
          LC other = minus ? lc - o : lc + o;
          if (minus) {
            lc -= o;
          } else {
            lc += o;
          }
          PBT_T(lc == other, "assign");
          add(Of(o), minus);
          break;
        }
        case 6: {
          bool minus = r.Bool();
          if (minus) {
            lc -= lc;
          } else {
            lc += lc;
          }
          Bag b = m;
          add(b, minus);
          break;
        }
        case 7: {
          F f = AnyF<F>(r);
          LC other = lc * f;
          lc *= f;
          PBT_T(lc == other, "assign");
          for (auto& [k, x] : m) x *= f;
          break;
        }
        case 8: {
          LC other = -lc;
          lc.NegateInPlace();
          PBT_T(lc == other, "assign");
          for (auto& [k, x] : m) x = -x;
          break;
        }
        case 9:
          lc.Deduplicate();
          PBT_T(Normal(lc), "normal");
          break;
        default: {
          std::vector<Term> v = terms(r.Upto(3));
          add(Of(LC(v)), false);
          lc.AppendTerms(v);
          if (!sloppy) lc.Deduplicate();
        }
      }
      PBT_TM(Same(Of(lc), m), "value", "after operation " << i << " (" << op << ")");
      if (!sloppy) PBT_TM(Normal(lc), "normal", "after operation " << i << " (" << op << ")");
    }
  }

  static F RowValue(const std::vector<tr::Cell<F>>& row, const std::vector<F>& all) {
    F v = F::Zero();
    for (const tr::Cell<F>& x : row) v += x.coefficient * all[x.index];
    return v;
  }

  static void Systems(Case& c) {
    size_t steps = c.Size(0, 40);
    bool outline = c.Draw(2) == 0, broken = c.Draw(2) == 0;
    Rng r = c.Bulk();
    Program<F> p = AnyProgram<F>(r, steps, true);
    if (broken && !p.witness.empty()) {
      F& w = p.witness[r.Upto(p.witness.size() - 1)];
      w += NonZeroF<F>(r);
    }
    bool want = p.Satisfied();
    c.Note(p.instance.size(), " instance, ", p.witness.size(), " witness, ", p.named.size(),
           " sums, ", p.constraints, " constraints", outline ? ", outlined" : "");
    c.LabelIf(!want, "unsatisfied");
    if (p.constraints >= 2 && p.named.size() >= 1) c.Nontrivial();
    CS cs;
    if (outline) cs.set_optimization_goal(tr::OptimizationGoal::kWeight);
    Build(p, cs);
    PBT_T(cs.num_instance_variables() == p.instance.size(), "counts");
    PBT_T(cs.num_witness_variables() == p.witness.size(), "counts");
    PBT_T(cs.num_constraints() == p.constraints, "counts");
    PBT_T(cs.instance_assignments() == p.instance, "assignments");
    PBT_T(cs.witness_assignments() == p.witness, "assignments");
    if (r.Bool()) PBT_T(cs.IsSatisfied() == want, "satisfied_before");
    cs.Finalize();
    PBT_TM(cs.IsSatisfied() == want, "satisfied", "wanted " << want);
    std::vector<F> all = cs.instance_assignments();
    all.insert(all.end(), cs.witness_assignments().begin(), cs.witness_assignments().end());
    std::optional<tr::ConstraintMatrices<F>> m = cs.ToMatrices();
    PBT_T(m.has_value(), "matrices");
    PBT_T(m->num_instance_variables == cs.num_instance_variables() &&
              m->num_witness_variables == cs.num_witness_variables() &&
              m->num_constraints == cs.num_constraints(),
          "matrix_counts");
    PBT_T(cs.num_instance_variables() == p.instance.size(), "counts");
    PBT_T(cs.num_instance_variables() + cs.num_witness_variables() == all.size(), "counts");
    size_t nz[3] = {0, 0, 0};
    size_t i = 0;
    tr::Matrix<F>* ms[] = {&m->a, &m->b, &m->c};
    for (const Step<F>& s : p.steps) {
      if (s.kind != Step<F>::kConstrain) continue;
      const Sum<F>* sums[] = {&s.a, &s.b, &s.c};
      for (int k = 0; k < 3; ++k) {
        const auto& row = (*ms[k])[i];
        PBT_TM(RowValue(row, all) == p.Value(*sums[k]), "row_value",
               "constraint " << i << " matrix " << k);
        if (!outline) {
          std::map<size_t, F> w = p.Expand(*sums[k]), got;
          for (const tr::Cell<F>& x : row) {
            PBT_T(!x.coefficient.IsZero(), "zero");
            PBT_T(got.insert({x.index, x.coefficient}).second, "twice");
          }
          PBT_TM(got == w, "row", "constraint " << i << " matrix " << k);
        }
      }
      ++i;
    }
    for (i = 0; i < cs.num_constraints(); ++i) {
      for (int k = 0; k < 3; ++k) nz[k] += (*ms[k])[i].size();
      if (i >= p.constraints)
        PBT_TM(RowValue(m->a[i], all) * RowValue(m->b[i], all) == RowValue(m->c[i], all),
               "outlined", "constraint " << i);
    }
    PBT_T(m->a_num_non_zero == nz[0] && m->b_num_non_zero == nz[1] &&
              m->c_num_non_zero == nz[2],
          "non_zero");
    if (!outline) {
      PBT_T(cs.num_constraints() == p.constraints, "counts");
      PBT_T(cs.witness_assignments() == p.witness, "assignments");
    } else {
      for (size_t k = 0; k < p.witness.size(); ++k)
        PBT_T(cs.witness_assignments()[k] == p.witness[k], "assignments");
      c.LabelIf(cs.num_constraints() > p.constraints, "dedicated variables");
    }
    // The key generator, without assignments, sees the same.
    CS setup;
    setup.set_mode(tr::SynthesisMode::Setup());
    if (outline) setup.set_optimization_goal(tr::OptimizationGoal::kWeight);
    Build(p, setup);
    setup.Finalize();
    PBT_T(*setup.ToMatrices() == *m, "setup");
  }

  static void QAP(Case& c) {
    constexpr size_t kMax = 255;
    using Domain = tm::UnivariateEvaluationDomain<F, kMax>;
    using Q = tr::QuadraticArithmeticProgram<F>;
    size_t steps = c.Size(1, 30);
    bool broken = c.Draw(2) == 0;
    Rng r = c.Bulk();
    Program<F> p = AnyProgram<F>(r, steps, r.Bool());
    if (broken && !p.witness.empty())
      p.witness[r.Upto(p.witness.size() - 1)] += NonZeroF<F>(r);
    bool want = p.Satisfied();
    c.LabelIf(!want, "unsatisfied");
    if (p.constraints >= 2) c.Nontrivial();
    c.Note(p.instance.size(), " instance, ", p.witness.size(), " witness, ", p.constraints,
           " constraints");
    CS cs;
    Build(p, cs);
    cs.Finalize();
    size_t need = p.constraints + p.instance.size();
    std::unique_ptr<Domain> d =
        tm::UnivariateEvaluationDomainFactory<F, kMax>::Create(need + (r.Upto(3) ? 0 : 5));
    size_t n = d->size();
    // A point outside of the domain.
    bool uniform = r.Upto(3) != 0;
    F x = uniform ? UniformF<F>(r) : AnyF<F>(r);
    while (x.Pow(n).IsOne()) x += F(2);
    auto im = Q::InstanceMap(d.get(), cs, x);
    auto wm = Q::WitnessMap(d.get(), cs);
    std::vector<F> all = p.All();
    PBT_T(wm.full_assignments == all, "assignments");
    PBT_T(im.num_constraints == p.constraints &&
              im.num_instance_variables == p.instance.size() &&
              im.num_witness_variables == p.witness.size() &&
              im.num_qap_variables + 1 == all.size(),
          "counts");
    // The Lagrange basis over the powers of the generator.
    F t = x.Pow(n) - F::One();
    PBT_T(im.t_x == t, "vanishing");
    std::vector<F> l;
    F w = F::One(), ninv = *F(static_cast<uint64_t>(n)).Inverse();
    for (size_t i = 0; i < n; ++i) {
      l.push_back(t * w * ninv * *(x - w).Inverse());
      w *= d->group_gen();
    }
    std::vector<F> abc[3];
    for (auto& v : abc) v.assign(all.size(), F::Zero());
    size_t i = 0;
    F value[3] = {F::Zero(), F::Zero(), F::Zero()};
    for (const Step<F>& s : p.steps) {
      if (s.kind != Step<F>::kConstrain) continue;
      const Sum<F>* sums[] = {&s.a, &s.b, &s.c};
      for (int k = 0; k < 3; ++k) {
        value[k] += l[i] * p.Value(*sums[k]);
        for (const auto& [v, f] : p.Expand(*sums[k])) abc[k][v] += l[i] * f;
      }
      ++i;
    }
    for (size_t k = 0; k < p.instance.size(); ++k) {
      abc[0][k] += l[p.constraints + k];
      value[0] += l[p.constraints + k] * p.instance[k];
    }
    PBT_T(im.a == abc[0], "a");
    PBT_T(im.b == abc[1], "b");
    PBT_T(im.c == abc[2], "c");
    // The quotient.
    PBT_T(wm.h.size() <= n, "h_size");
    F h = F::Zero();
    for (size_t k = wm.h.size(); k-- > 0;) h = h * x + wm.h[k];
    bool divides = h * t == value[0] * value[1] - value[2];
    // Errors may cancel at a chosen point.
    if (want || uniform)
      PBT_TM(divides == want, "quotient", "divides " << divides << ", satisfied " << want);
    if (want)
      for (size_t k = n - 1; k < wm.h.size(); ++k) PBT_T(wm.h[k].IsZero(), "h_degree");
    if (n >= 2) {
      F delta = NonZeroF<F>(r);
      std::vector<F> q = Q::ComputeHQuery(d.get(), t, x, delta);
      PBT_T(q.size() == n - 1, "h_query");
      F y = t * delta;
      for (const F& f : q) {
        PBT_T(f == y, "h_query");
        y *= x;
      }
    }
  }

  static void Register(const std::string& name) {
    F::Init();
    pbt::Register(name + ".combinations", 10000, 200000, Combinations);
    pbt::Register(name + ".systems", 10000, 200000, Systems);
    pbt::Register(name + ".qap", 4000, 80000, QAP);
  }
};

void RegisterAll() {
  R1CS<tm::bn254::Fr>::Register("bn254");
  R1CS<tm::bls12_381::Fr>::Register("bls12_381");
}
PBT_INIT(RegisterAll);

}  // namespace
}  // namespace r1cs_pbt
