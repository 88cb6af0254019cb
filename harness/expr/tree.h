// Random constraint expressions, and what they are worth.
#ifndef VERIF_EXPR_TREE_H_
#define VERIF_EXPR_TREE_H_

#include <algorithm>
#include <memory>
#include <optional>
#include <utility>
#include <vector>

#include "tachyon/zk/plonk/constraint_system/constraint_system.h"
#include "tachyon/zk/plonk/expressions/expression_factory.h"

#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace expr_pbt {
using namespace pbt;  // NOLINT
namespace tp = tachyon::zk::plonk;
namespace tz = tachyon::zk;

template <typename F>
using X = std::unique_ptr<tz::Expression<F>>;

template <typename F>
F AnyF(Rng& r) {
  switch (r.Upto(9)) {
    case 0:
    case 1: return F::Zero();
    case 2:
    case 3: return F::One();
    case 4: return -F::One();
    case 5: return F::One() + F::One();
    default: return BulkPrimeField<F>(r);
  }
}

enum Op { kConst, kAdvice, kFixed, kInstance, kChallenge, kSelector, kNeg, kAdd, kSub,
          kMul, kScale };

template <typename F>
struct Tree {
  Op op = kConst;
  int col = 0, rot = 0;
  bool simple = false;  // selectors
  F c = F::Zero();
  std::vector<Tree> sub;

  bool leaf() const { return op <= kSelector; }

  template <typename G>
  F Eval(const G& get) const {
    switch (op) {
      case kConst: return c;
      case kNeg: return -sub[0].Eval(get);
      case kAdd: return sub[0].Eval(get) + sub[1].Eval(get);
      case kSub: return sub[0].Eval(get) - sub[1].Eval(get);
      case kMul: return sub[0].Eval(get) * sub[1].Eval(get);
      case kScale: return sub[0].Eval(get) * c;
      default: return get(*this);
    }
  }
  size_t Degree() const {
    switch (op) {
      case kConst:
      case kChallenge: return 0;
      case kAdvice:
      case kFixed:
      case kInstance:
      case kSelector: return 1;
      case kAdd:
      case kSub: return std::max(sub[0].Degree(), sub[1].Degree());
      case kMul: return sub[0].Degree() + sub[1].Degree();
      default: return sub[0].Degree();
    }
  }
  size_t Nodes() const {
    size_t n = 1;
    for (const Tree& t : sub) n += t.Nodes();
    return n;
  }
  template <typename V>
  void Visit(const V& v) const {
    v(*this);
    for (const Tree& t : sub) t.Visit(v);
  }
  // Visits with the right to change.
  template <typename V>
  void Change(const V& v) {
    v(*this);
    for (Tree& t : sub) t.Change(v);
  }
};

// Trees that have equal expressions: a - b is a + (-b).
template <typename F>
bool Same(const Tree<F>& a, const Tree<F>& b) {
  auto neg = [](const Tree<F>& t) {
    Tree<F> n;
    n.op = kNeg;
    n.sub = {t};
    return n;
  };
  if (a.op == kSub && b.op == kAdd)
    return Same(a.sub[0], b.sub[0]) && Same(neg(a.sub[1]), b.sub[1]);
  if (a.op == kAdd && b.op == kSub) return Same(b, a);
  if (a.op != b.op) return false;
  if ((a.op == kConst || a.op == kScale) && a.c != b.c) return false;
  if (a.leaf() && a.op != kConst) {
    if (a.col != b.col) return false;
    if (a.op == kAdvice || a.op == kFixed || a.op == kInstance)
      if (a.rot != b.rot) return false;
    if (a.op == kSelector && a.simple != b.simple) return false;
  }
  for (size_t i = 0; i < a.sub.size(); ++i)
    if (!Same(a.sub[i], b.sub[i])) return false;
  return true;
}

struct Cells {
  int advice = 1, fixed = 1, instance = 1, challenges = 1;
  int max_rot = 2;
  // Whether rotations may be far.
  bool far = false;
};

template <typename F>
Tree<F> AnyTree(Rng& r, const Cells& cs, int depth, std::vector<Tree<F>>* pool,
                bool challenges = true) {
  Tree<F> t;
  if (pool && !pool->empty() && r.Upto(5) == 0)
    return (*pool)[r.Upto(pool->size() - 1)];
  auto rot = [&] {
    if (cs.far && r.Upto(15) == 0)
      return static_cast<int>(r.Upto(1 << 21)) - (1 << 20);
    return r.Bool() ? 0 : static_cast<int>(r.Upto(2 * cs.max_rot)) - cs.max_rot;
  };
  if (depth == 0 || r.Upto(7) == 0) {
    switch (r.Upto(7)) {
      case 0:
      case 1:
        t.op = kConst;
        t.c = AnyF<F>(r);
        return t;
      case 2:
        if (cs.challenges && challenges) {
          t.op = kChallenge;
          t.col = static_cast<int>(r.Upto(cs.challenges - 1));
          return t;
        }
        break;
      case 3:
        if (cs.instance) {
          t.op = kInstance;
          t.col = static_cast<int>(r.Upto(cs.instance - 1));
          t.rot = rot();
          return t;
        }
        break;
      case 4:
        if (cs.fixed) {
          t.op = kFixed;
          t.col = static_cast<int>(r.Upto(cs.fixed - 1));
          t.rot = rot();
          return t;
        }
        break;
    }
    if (!cs.advice) {
      t.c = AnyF<F>(r);
      return t;
    }
    t.op = kAdvice;
    t.col = static_cast<int>(r.Upto(cs.advice - 1));
    t.rot = rot();
    return t;
  }
  auto sub = [&] { return AnyTree<F>(r, cs, depth - 1, pool, challenges); };
  static const Op kOps[] = {kAdd, kAdd, kSub, kMul, kMul, kNeg, kScale};
  t.op = kOps[r.Upto(6)];
  t.sub.push_back(sub());
  if (t.op == kScale) t.c = AnyF<F>(r);
  if (t.op == kAdd || t.op == kSub || t.op == kMul)
    t.sub.push_back(r.Upto(7) == 0 ? t.sub[0] : sub());
  if (pool) pool->push_back(t);
  return t;
}

// How leaves are made.
template <typename F>
struct Made {
  std::vector<tp::AdviceColumnKey> advice;
  std::vector<tp::FixedColumnKey> fixed;
  std::vector<tp::InstanceColumnKey> instance;
  std::vector<tp::Challenge> challenge;
  std::vector<tp::Selector> selector;
};

// |cells| is null when there is no constraint system. |r| chooses among ways
// that mean the same.
template <typename F>
X<F> Make(const Tree<F>& t, const Made<F>& m, tp::VirtualCells<F>* cells, bool unindexed,
          Rng& r) {
  using EF = tp::ExpressionFactory<F>;
  std::optional<size_t> none;
  auto query = [&] { return cells && !(unindexed && r.Upto(2) == 0); };
  switch (t.op) {
    case kConst: return EF::Constant(t.c);
    case kAdvice:
      if (query()) {
        if (r.Upto(3) == 0)
          return cells->QueryAny(tp::AnyColumnKey(m.advice[t.col]), tz::Rotation(t.rot));
        return cells->QueryAdvice(m.advice[t.col], tz::Rotation(t.rot));
      }
      return EF::Advice(tp::AdviceQuery(cells ? none : size_t{0}, tz::Rotation(t.rot),
                                        m.advice[t.col]));
    case kFixed:
      if (query()) return cells->QueryFixed(m.fixed[t.col], tz::Rotation(t.rot));
      return EF::Fixed(tp::FixedQuery(cells ? none : size_t{0}, tz::Rotation(t.rot),
                                      m.fixed[t.col]));
    case kInstance:
      if (query()) return cells->QueryInstance(m.instance[t.col], tz::Rotation(t.rot));
      return EF::Instance(tp::InstanceQuery(cells ? none : size_t{0}, tz::Rotation(t.rot),
                                            m.instance[t.col]));
    case kChallenge:
      return cells ? cells->QueryChallenge(m.challenge[t.col])
                   : EF::Challenge(m.challenge[t.col]);
    case kSelector:
      return cells ? cells->QuerySelector(m.selector[t.col])
                   : EF::Selector(m.selector[t.col]);
    default: break;
  }
  X<F> a = Make(t.sub[0], m, cells, unindexed, r);
  X<F> b;
  if (t.sub.size() > 1) b = Make(t.sub[1], m, cells, unindexed, r);
  bool copy = r.Upto(3) == 0;
  switch (t.op) {
    case kNeg:
      if (copy) return -a;
      return r.Bool() ? -std::move(a) : EF::Negated(std::move(a));
    case kAdd:
      if (copy) return a + b;
      return r.Bool() ? std::move(a) + std::move(b) : EF::Sum(std::move(a), std::move(b));
    case kSub:
      if (copy) return a - b;
      return std::move(a) - std::move(b);
    case kMul:
      if (copy) return a * b;
      return r.Bool() ? std::move(a) * std::move(b)
                      : EF::Product(std::move(a), std::move(b));
    default:
      if (copy) return a * t.c;
      return r.Bool() ? std::move(a) * t.c : EF::Scaled(std::move(a), t.c);
  }
}

}  // namespace expr_pbt

#endif  // VERIF_EXPR_TREE_H_
