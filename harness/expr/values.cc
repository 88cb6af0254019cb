// Every evaluator computes what the expression means.
#include <string>

#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/finite_fields/test/gf7.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluations.h"
#include "tachyon/zk/plonk/expressions/compress_expression.h"
#include "tachyon/zk/plonk/expressions/proving_evaluator.h"
#include "tachyon/zk/plonk/expressions/verifying_evaluator.h"
#include "tachyon/zk/plonk/vanishing/graph_evaluator.h"

#include "verif/expr/tree.h"

namespace expr_pbt {
namespace {

namespace tm = tachyon::math;

template <typename F>
struct Values {
  using Evals = tm::UnivariateEvaluations<F, 1023>;

  struct World {
    Cells cells;
    int n = 1, scale = 1;
    std::vector<Evals> advice, fixed, instance;
    std::vector<F> challenges;
    Made<F> made;
    tp::MultiPhaseRefTable<Evals> Table() const {
      return {absl::MakeConstSpan(fixed), absl::MakeConstSpan(advice),
              absl::MakeConstSpan(instance), absl::MakeConstSpan(challenges)};
    }
    F At(const Tree<F>& t, int64_t row) const {
      int64_t i = (row + static_cast<int64_t>(t.rot) * scale) % n;
      if (i < 0) i += n;
      switch (t.op) {
        case kAdvice: return advice[t.col].evaluations()[i];
        case kFixed: return fixed[t.col].evaluations()[i];
        case kInstance: return instance[t.col].evaluations()[i];
        default: return challenges[t.col];
      }
    }
    F Value(const Tree<F>& t, int64_t row) const {
      return t.Eval([&](const Tree<F>& leaf) { return At(leaf, row); });
    }
  };

  static World AnyWorld(Case& c, Rng& r, bool power_of_two = false) {
    World w;
    w.n = power_of_two ? 1 << c.Draw(4) : 1 + static_cast<int>(c.Draw(16));
    w.scale = power_of_two ? 1 : 1 + static_cast<int>(c.Draw(3));
    w.cells.advice = static_cast<int>(c.Draw(3));
    w.cells.fixed = static_cast<int>(c.Draw(2));
    w.cells.instance = static_cast<int>(c.Draw(2));
    w.cells.challenges = static_cast<int>(c.Draw(2));
    w.cells.max_rot = static_cast<int>(c.Draw(1)) ? 2 * w.n : 2;
    w.cells.far = !power_of_two && c.Bool();
    auto column = [&] {
      std::vector<F> v(w.n);
      for (F& f : v) f = AnyF<F>(r);
      return Evals(std::move(v));
    };
    for (int i = 0; i < w.cells.advice; ++i) {
      w.advice.push_back(column());
      w.made.advice.push_back(tp::AdviceColumnKey(i));
    }
    for (int i = 0; i < w.cells.fixed; ++i) {
      w.fixed.push_back(column());
      w.made.fixed.push_back(tp::FixedColumnKey(i));
    }
    for (int i = 0; i < w.cells.instance; ++i) {
      w.instance.push_back(column());
      w.made.instance.push_back(tp::InstanceColumnKey(i));
    }
    for (int i = 0; i < w.cells.challenges; ++i) {
      w.challenges.push_back(AnyF<F>(r));
      w.made.challenge.push_back(tp::Challenge(i, tp::kFirstPhase));
    }
    return w;
  }

  static void Rows(Case& c) {
    Rng r = c.Bulk();
    World w = AnyWorld(c, r);
    std::vector<Tree<F>> pool;
    Tree<F> t = AnyTree<F>(r, w.cells, static_cast<int>(c.Draw(6)), &pool);
    X<F> x = Make<F>(t, w.made, nullptr, false, r);
    if (t.Nodes() >= 4) c.Nontrivial();
    c.Note(w.n, " rows, scale ", w.scale, ", ", x->ToString());
    tp::MultiPhaseRefTable<Evals> table = w.Table();
    tp::ProvingEvaluator<Evals> ev(0, w.n, w.scale, table);
    for (int i = 0; i < w.n; ++i) {
      ev.set_idx(i);
      F want = w.Value(t, i);
      PBT_TM(ev.Evaluate(x.get()) == want, "row", "row " << i);
      PBT_TM(x->Evaluate(&ev) == want, "row", "row " << i);
    }
  }

  // Several expressions in one graph.
  static void Graph(Case& c) {
    Rng r = c.Bulk();
    World w = AnyWorld(c, r);
    std::vector<Tree<F>> pool;
    size_t n = 1 + c.Draw(4);
    std::vector<Tree<F>> trees;
    std::vector<X<F>> xs;
    std::vector<tp::ValueSource> parts;
    tp::GraphEvaluator<F> graph;
    size_t nodes = 0;
    for (size_t i = 0; i < n; ++i) {
      trees.push_back(AnyTree<F>(r, w.cells, static_cast<int>(c.Draw(5)), &pool));
      nodes += trees.back().Nodes();
      xs.push_back(Make<F>(trees.back(), w.made, nullptr, false, r));
      parts.push_back(r.Bool() ? graph.AddExpression(xs.back().get())
                               : xs.back()->Evaluate(&graph));
      c.Note(xs.back()->ToString());
    }
    if (nodes >= 6) c.Nontrivial();
    F theta = AnyF<F>(r), beta = AnyF<F>(r), gamma = AnyF<F>(r), y = AnyF<F>(r);
    // What the parts are combined into.
    int how = static_cast<int>(c.Draw(3));
    bool twice = c.Bool();
    switch (how) {
      case 0:
        graph.AddCalculation(tp::Calculation::Horner(tp::ValueSource::PreviousValue(),
                                                     parts, tp::ValueSource::Y()));
        break;
      case 1: {
        tp::ValueSource v = graph.AddCalculation(tp::Calculation::Horner(
            tp::ValueSource::ZeroConstant(), parts, tp::ValueSource::Theta()));
        graph.AddCalculation(tp::Calculation::Add(v, tp::ValueSource::Beta()));
        break;
      }
      case 2: {
        tp::ValueSource v = graph.AddCalculation(tp::Calculation::Horner(
            tp::ValueSource::ZeroConstant(), parts, tp::ValueSource::Theta()));
        tp::ValueSource v2 =
            graph.AddCalculation(tp::Calculation::Add(v, tp::ValueSource::Gamma()));
        graph.AddCalculation(tp::Calculation::Mul(v2, tp::ValueSource::PreviousValue()));
        break;
      }
      default:
        break;
    }
    c.Note("combined ", how);
    tp::MultiPhaseRefTable<Evals> table = w.Table();
    tp::EvaluationInput<Evals> in(graph.CreateInitialIntermediates(),
                                  graph.CreateEmptyRotations(), table, theta, beta, gamma,
                                  y, w.n);
    for (int i = 0; i < w.n; ++i) {
      F prev = AnyF<F>(r);
      F got = graph.Evaluate(in, i, w.scale, prev);
      if (twice) got = graph.Evaluate(in, i, w.scale, prev);
      for (size_t k = 0; k < n; ++k)
        PBT_TM(parts[k].Get(in, graph.constants(), prev) == w.Value(trees[k], i), "part",
               "row " << i << ", expression " << k);
      F want;
      if (how == 0) {
        want = prev;
        for (const Tree<F>& t : trees) want = want * y + w.Value(t, i);
      } else {
        want = F::Zero();
        for (const Tree<F>& t : trees) want = want * theta + w.Value(t, i);
        want = how == 1 ? want + beta : (want + gamma) * prev;
      }
      if (how < 3) PBT_TM(got == want, "combined", "row " << i);
    }
  }

  // With the query indices of a constraint system.
  static void Verifying(Case& c) {
    Rng r = c.Bulk();
    World w = AnyWorld(c, r);
    w.scale = 1;
    tp::ConstraintSystem<F> cs;
    Made<F> m;
    for (int i = 0; i < w.cells.advice; ++i) m.advice.push_back(cs.CreateAdviceColumn());
    for (int i = 0; i < w.cells.fixed; ++i) m.fixed.push_back(cs.CreateFixedColumn());
    for (int i = 0; i < w.cells.instance; ++i)
      m.instance.push_back(cs.CreateInstanceColumn());
    if (!w.cells.advice) w.cells.challenges = 0;
    for (int i = 0; i < w.cells.challenges; ++i)
      m.challenge.push_back(cs.CreateChallengeUsableAfter(tp::kFirstPhase));
    std::vector<Tree<F>> trees;
    size_t n = 1 + c.Draw(4), nodes = 0;
    std::vector<Tree<F>> pool;
    for (size_t i = 0; i < n; ++i) {
      trees.push_back(AnyTree<F>(r, w.cells, static_cast<int>(c.Draw(4)), &pool));
      nodes += trees.back().Nodes();
    }
    if (nodes >= 6) c.Nontrivial();
    size_t at = 0;
    while (at < n) {
      size_t k = 1 + r.Upto(n - at - 1);
      cs.CreateGate("gate", [&](tp::VirtualCells<F>& cells) {
        std::vector<tp::Constraint<F>> ret;
        for (size_t i = at; i < at + k; ++i) {
          X<F> x = Make<F>(trees[i], m, &cells, true, r);
          if (r.Bool()) {
            ret.emplace_back(std::move(x));
          } else {
            ret.emplace_back("name", std::move(x));
          }
        }
        return ret;
      });
      at += k;
    }
    auto evals = [&](const auto& queries, Op op, int row) {
      std::vector<F> v;
      for (const auto& q : queries) {
        Tree<F> leaf;
        leaf.op = op;
        leaf.col = static_cast<int>(q.column().index());
        leaf.rot = q.rotation().value();
        v.push_back(w.At(leaf, row));
      }
      return v;
    };
    for (int row = 0; row < w.n; ++row) {
      std::vector<F> f = evals(cs.fixed_queries(), kFixed, row);
      std::vector<F> a = evals(cs.advice_queries(), kAdvice, row);
      std::vector<F> in = evals(cs.instance_queries(), kInstance, row);
      tp::VerifyingEvaluator<F> ev(
          tp::MultiPhaseEvaluations<F>(absl::MakeConstSpan(f), absl::MakeConstSpan(a),
                                       absl::MakeConstSpan(in),
                                       absl::MakeConstSpan(w.challenges)));
      size_t i = 0;
      for (const tp::Gate<F>& g : cs.gates())
        for (const X<F>& x : g.polys()) {
          PBT_TM(ev.Evaluate(x.get()) == w.Value(trees[i], row), "query",
                 "row " << row << ", expression " << i << ": " << x->ToString());
          ++i;
        }
      PBT_T(i == n, "gates");
    }
  }

  // Degree, copies and comparison.
  static void Meta(Case& c) {
    Rng r = c.Bulk();
    World w = AnyWorld(c, r);
    // Without columns there is little to change.
    w.cells.advice = 2;
    w.made.advice = {tp::AdviceColumnKey(0), tp::AdviceColumnKey(1)};
    w.made.selector = {tp::Selector::Simple(0), tp::Selector::Complex(1),
                       tp::Selector::Complex(2)};
    Tree<F> t = AnyTree<F>(r, w.cells, static_cast<int>(c.Draw(6)), nullptr);
    // Some leaves become selectors.
    t.Change([&](Tree<F>& x) {
      if (x.op == kAdvice && r.Upto(4) == 0) {
        x.op = kSelector;
        x.rot = 0;
        x.col = static_cast<int>(r.Upto(2));
        x.simple = x.col == 0;
      }
    });
    X<F> x = Make<F>(t, w.made, nullptr, false, r);
    X<F> again = Make<F>(t, w.made, nullptr, false, r);
    if (t.Nodes() >= 4) c.Nontrivial();
    c.Note(x->ToString());
    PBT_T(x->Degree() == t.Degree(), "degree");
    PBT_T(*x == *again && !(*x != *again), "equal");
    PBT_T(x->ToString() == again->ToString(), "equal");
    PBT_T(x->Complexity() == again->Complexity(), "complexity");
    X<F> copy = x->Clone();
    PBT_T(copy.get() != x.get() && *copy == *x && *x == *copy, "clone");
    PBT_T(copy->Degree() == x->Degree() && copy->Complexity() == x->Complexity() &&
              copy->ToString() == x->ToString(),
          "clone");
    // The copy lives on.
    x.reset();
    PBT_T(*copy == *again, "clone");
    // Something else.
    Tree<F> u = t;
    size_t target = r.Upto(t.Nodes() - 1), at = 0;
    u.Change([&](Tree<F>& v) {
      if (at++ != target) return;
      switch (v.op) {
        case kConst:
        case kScale:
          v.c = AnyF<F>(r);
          break;
        case kAdvice:
          if (r.Bool()) {
            v.rot += 1;
          } else {
            v.col = 1 - v.col;
          }
          break;
        case kFixed:
        case kInstance:
          v.rot -= 1;
          break;
        case kSelector:
          v.col = (v.col + 1) % 3;
          v.simple = v.col == 0;
          break;
        case kChallenge:
          v.op = kConst;
          break;
        case kAdd:
        case kMul:
          if (r.Bool()) {
            v.op = v.op == kAdd ? kMul : kAdd;
          } else {
            std::swap(v.sub[0], v.sub[1]);
          }
          break;
        case kSub:
          std::swap(v.sub[0], v.sub[1]);
          break;
        case kNeg:
          v.op = kScale;
          v.c = -F::One();
          break;
      }
    });
    X<F> other = Make<F>(u, w.made, nullptr, false, r);
    bool same = Same(t, u);
    c.LabelIf(!same, "different");
    PBT_TM((*copy == *other) == same, "different", other->ToString());
    PBT_TM((*other == *copy) == same, "different", other->ToString());
    PBT_TM((*other != *copy) == !same, "different", other->ToString());
    PBT_T(other->Degree() == u.Degree(), "degree");
    // A part is not more complex than the whole.
    for (const Tree<F>& s : t.sub) {
      X<F> part = Make<F>(s, w.made, nullptr, false, r);
      PBT_T(part->Complexity() <= copy->Complexity(), "complexity");
    }
  }

  static void Compress(Case& c) {
    if constexpr (F::Config::kModulusBits > 100) {
      Rng r = c.Bulk();
      World w = AnyWorld(c, r, true);
      using Domain = tm::UnivariateEvaluationDomain<F, 1023>;
      std::unique_ptr<Domain> domain =
          tm::UnivariateEvaluationDomainFactory<F, 1023>::Create(w.n);
      if (domain->size() != static_cast<size_t>(w.n)) return;
      size_t n = 1 + c.Draw(4);
      std::vector<Tree<F>> trees, pool;
      std::vector<X<F>> xs;
      for (size_t i = 0; i < n; ++i) {
        trees.push_back(AnyTree<F>(r, w.cells, static_cast<int>(c.Draw(3)), &pool));
        xs.push_back(Make<F>(trees.back(), w.made, nullptr, false, r));
      }
      if (n >= 2) c.Nontrivial();
      F theta = AnyF<F>(r);
      tp::MultiPhaseRefTable<Evals> table = w.Table();
      tp::ProvingEvaluator<Evals> ev(0, w.n, 1, table);
      Evals got = tp::CompressExpressions(domain.get(), xs, theta, ev);
      PBT_T(got.evaluations().size() == static_cast<size_t>(w.n), "size");
      for (int i = 0; i < w.n; ++i) {
        F want = F::Zero();
        for (const Tree<F>& t : trees) want = want * theta + w.Value(t, i);
        PBT_TM(got.evaluations()[i] == want, "compress", "row " << i);
      }
    }
  }

  static void Add(const std::string& n) {
    F::Init();
    pbt::Register("values.rows." + n, 4000, 100000, Rows);
    pbt::Register("values.graph." + n, 4000, 100000, Graph);
    pbt::Register("values.verifying." + n, 2000, 50000, Verifying);
    pbt::Register("values.meta." + n, 4000, 100000, Meta);
    if (F::Config::kModulusBits > 100)
      pbt::Register("values.compress." + n, 2000, 50000, Compress);
  }
};

void RegisterAll() {
  Values<tm::bn254::Fr>::Add("bn254");
  Values<tm::GF7>::Add("gf7");
}
PBT_INIT(RegisterAll);

}  // namespace
}  // namespace expr_pbt
