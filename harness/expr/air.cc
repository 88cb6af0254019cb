// AIR constraints.
#include <memory>

#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/finite_fields/test/gf7.h"
#include "tachyon/zk/air/constraint_system/constraint_system.h"
#include "tachyon/zk/air/expressions/air_evaluator.h"
#include "tachyon/zk/air/expressions/expression_factory.h"

#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace expr_pbt {
namespace {

using namespace pbt;  // NOLINT
namespace tm = tachyon::math;
namespace tz = tachyon::zk;
namespace ta = tachyon::zk::air;

template <typename F>
struct Air {
  using Expr = std::unique_ptr<tz::Expression<F>>;
  using Matrix = tm::RowMajorMatrix<F>;

  struct World {
    int rows, width, pre_width, publics;
    Matrix main, pre;
    std::vector<F> values;
  };

  struct Node {
    enum Op { kConst, kMain, kPre, kPublic, kAdd, kSub, kMul, kNeg, kScale, kFirst, kLast,
              kTransition } op = kConst;
    int a = 0, b = 0;
    F c = F::Zero();
    std::vector<Node> sub;
    F Eval(const World& w, int row) const {
      switch (op) {
        case kConst: return c;
        case kMain: return w.main(row + a, b);
        case kPre: return w.pre(row + a, b);
        case kPublic: return w.values[a];
        case kAdd: return sub[0].Eval(w, row) + sub[1].Eval(w, row);
        case kSub: return sub[0].Eval(w, row) - sub[1].Eval(w, row);
        case kMul: return sub[0].Eval(w, row) * sub[1].Eval(w, row);
        case kNeg: return -sub[0].Eval(w, row);
        case kScale: return sub[0].Eval(w, row) * c;
        case kFirst: return row == 0 ? sub[0].Eval(w, row) : F::Zero();
        case kLast: return row == w.rows - 2 ? sub[0].Eval(w, row) : F::Zero();
        default: return sub[0].Eval(w, row);
      }
    }
    size_t Degree() const {
      switch (op) {
        case kConst: return 0;
        case kMain:
        case kPre:
        case kPublic: return 1;
        case kAdd:
        case kSub: return std::max(sub[0].Degree(), sub[1].Degree());
        case kMul: return sub[0].Degree() + sub[1].Degree();
        default: return sub[0].Degree();
      }
    }
  };

  static F AnyF(Rng& r) {
    switch (r.Upto(4)) {
      case 0: return F::Zero();
      case 1: return F::One();
      default: return BulkPrimeField<F>(r);
    }
  }

  static Node AnyNode(Rng& r, const World& w, int depth) {
    Node n;
    if (depth == 0 || r.Upto(6) == 0) {
      switch (r.Upto(4)) {
        case 0:
          n.c = AnyF(r);
          return n;
        case 1:
          if (w.publics) {
            n.op = Node::kPublic;
            n.a = static_cast<int>(r.Upto(w.publics - 1));
            return n;
          }
          break;
        case 2:
          if (w.pre_width) {
            n.op = Node::kPre;
            n.a = static_cast<int>(r.Upto(1));
            n.b = static_cast<int>(r.Upto(w.pre_width - 1));
            return n;
          }
          break;
      }
      n.op = Node::kMain;
      n.a = static_cast<int>(r.Upto(1));
      n.b = static_cast<int>(r.Upto(w.width - 1));
      return n;
    }
    n.op = static_cast<typename Node::Op>(Node::kAdd + r.Upto(7));
    n.sub.push_back(AnyNode(r, w, depth - 1));
    if (n.op == Node::kScale) n.c = AnyF(r);
    if (n.op <= Node::kMul) n.sub.push_back(AnyNode(r, w, depth - 1));
    return n;
  }

  static Expr Make(const Node& n, Rng& r) {
    using EF = tz::ExpressionFactory<F>;
    using AF = ta::ExpressionFactory<F>;
    switch (n.op) {
      case Node::kConst: return EF::Constant(n.c);
      case Node::kMain: return AF::Variable(ta::Variable::Main(n.a, n.b));
      case Node::kPre: return AF::Variable(ta::Variable::Preprocessed(n.a, n.b));
      case Node::kPublic: return AF::Variable(ta::Variable::Public(n.a));
      default: break;
    }
    Expr a = Make(n.sub[0], r), b;
    if (n.sub.size() > 1) b = Make(n.sub[1], r);
    switch (n.op) {
      case Node::kAdd: return r.Bool() ? a + b : std::move(a) + std::move(b);
      case Node::kSub: return r.Bool() ? a - b : std::move(a) - std::move(b);
      case Node::kMul: return r.Bool() ? a * b : std::move(a) * std::move(b);
      case Node::kNeg: return r.Bool() ? -a : -std::move(a);
      case Node::kScale: return r.Bool() ? a * n.c : std::move(a) * n.c;
      case Node::kFirst: return AF::FirstRow(std::move(a));
      case Node::kLast: return AF::LastRow(std::move(a));
      default: return AF::Transition(std::move(a));
    }
  }

  static World AnyWorld(Case& c, Rng& r) {
    World w;
    w.rows = 2 + static_cast<int>(c.Draw(6));
    w.width = 1 + static_cast<int>(c.Draw(3));
    w.pre_width = static_cast<int>(c.Draw(2));
    w.publics = static_cast<int>(c.Draw(2));
    Fill(r, &w);
    return w;
  }
  static void Fill(Rng& r, World* w) {
    w->main = Matrix(w->rows, w->width);
    w->pre = Matrix(w->rows, w->pre_width);
    for (int i = 0; i < w->rows; ++i) {
      for (int j = 0; j < w->width; ++j) w->main(i, j) = AnyF(r);
      for (int j = 0; j < w->pre_width; ++j) w->pre(i, j) = AnyF(r);
    }
    w->values.clear();
    for (int i = 0; i < w->publics; ++i) w->values.push_back(AnyF(r));
  }

  static void System(Case& c) {
    Rng r = c.Bulk();
    World w = AnyWorld(c, r);
    ta::ConstraintSystem<F> cs(w.publics, w.width, w.pre_width);
    int n = static_cast<int>(c.Draw(3));
    std::vector<Node> nodes;
    for (int i = 0; i < n; ++i) {
      Node e = AnyNode(r, w, static_cast<int>(r.Upto(3)));
      // One that often holds.
      if (r.Upto(2)) {
        Node d;
        d.op = Node::kSub;
        d.sub = {e, e};
        if (r.Bool()) {
          Node one;
          one.c = F::One();
          Node first;
          first.op = r.Bool() ? Node::kFirst : Node::kLast;
          first.sub = {AnyNode(r, w, 1)};
          Node add;
          add.op = Node::kAdd;
          add.sub = {d, first};
          d = add;
        }
        e = d;
      }
      Node wrapped;
      wrapped.sub = {e};
      Expr x = Make(e, r);
      c.Note(x->ToString());
      switch (r.Upto(3)) {
        case 0:
          cs.EnforceFirstRowConstraint(std::move(x));
          wrapped.op = Node::kFirst;
          break;
        case 1:
          cs.EnforceLastRowConstraint(std::move(x));
          wrapped.op = Node::kLast;
          break;
        case 2:
          cs.EnforceTransitionConstraint(std::move(x));
          wrapped.op = Node::kTransition;
          break;
        default:
          cs.EnforceConstraint(std::move(x));
          wrapped = e;
      }
      nodes.push_back(wrapped);
    }
    if (n >= 1) c.Nontrivial();
    ta::AirEvaluator<F> ev;
    for (int round = 0; round < 3; ++round) {
      bool want = true;
      for (int row = 0; row + 1 < w.rows; ++row)
        for (const Node& e : nodes) want = want && e.Eval(w, row).IsZero();
      c.LabelIf(want, "satisfied");
      c.LabelIf(!want, "not satisfied");
      PBT_TM(cs.IsSatisfied(ev, w.values, w.main, w.pre_width ? &w.pre : nullptr) == want,
             "satisfied", want);
      Fill(r, &w);
    }
  }

  static void Values(Case& c) {
    Rng r = c.Bulk();
    World w = AnyWorld(c, r);
    Node n = AnyNode(r, w, static_cast<int>(c.Draw(5)));
    Expr x = Make(n, r), copy = x->Clone();
    if (!n.sub.empty()) c.Nontrivial();
    c.Note(x->ToString());
    PBT_T(*x == *copy && copy->ToString() == x->ToString(), "clone");
    PBT_T(x->Degree() == n.Degree() && copy->Degree() == n.Degree(), "degree");
    PBT_T(x->Complexity() == copy->Complexity(), "clone");
    ta::AirEvaluator<F> ev;
    ev.set_num_rows(w.rows);
    ev.set_public_values(w.values);
    for (int row = 0; row + 1 < w.rows; ++row) {
      typename ta::AirEvaluator<F>::ConstMatrixBlock main(w.main, row, 0, 2, w.width);
      typename ta::AirEvaluator<F>::ConstMatrixBlock pre(w.pre, row, 0, 2, w.pre_width);
      ev.SetCurrentWindowData(row, &main, w.pre_width ? &pre : nullptr);
      PBT_TM(ev.Evaluate(r.Bool() ? x.get() : copy.get()) == n.Eval(w, row), "value",
             "row " << row);
    }
  }

  static void Add(const std::string& n) {
    F::Init();
    pbt::Register("air.values." + n, 4000, 100000, Values);
    pbt::Register("air.system." + n, 4000, 100000, System);
  }
};

void RegisterAll() {
  Air<tm::bn254::Fr>::Add("bn254");
  Air<tm::GF7>::Add("gf7");
}
PBT_INIT(RegisterAll);

}  // namespace
}  // namespace expr_pbt
