// C09: sparse multivariate polynomials and multilinear extensions.
#include <algorithm>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "absl/hash/hash.h"

#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"
#include "tachyon/math/finite_fields/test/gf7.h"
#include "tachyon/math/polynomials/multivariate/linear_combination.h"
#include "tachyon/math/polynomials/multivariate/multilinear_extension.h"
#include "tachyon/math/polynomials/multivariate/multivariate_polynomial.h"

#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace {
using namespace pbt;            // NOLINT
using namespace tachyon::math;  // NOLINT

template <typename F>
struct Elem {
  static F Any(Rng& r) { return BulkPrimeField<F>(r); }
};
template <>
struct Elem<BabyBear4> {
  static BabyBear4 Any(Rng& r) {
    BabyBear x[4];
    for (auto& y : x)
      y = r.Upto(3) == 0 ? BabyBear::Zero() : BulkPrimeField<BabyBear>(r);
    return BabyBear4(x[0], x[1], x[2], x[3]);
  }
};

template <typename F>
F RPow(const F& x, size_t e) {
  F r = F::One();
  for (size_t i = 0; i < e; ++i) r *= x;
  return r;
}

template <typename F>
struct P {
  // --- multilinear ----------------------------------------------------------
  static constexpr size_t kMax = 10;
  using M = MultilinearDenseEvaluations<F, kMax>;
  using MLE = MultilinearExtension<M>;
  using V = std::vector<F>;

  static F AnyF(Rng& r) {
    switch (r.Upto(7)) {
      case 0:
        return F::Zero();
      case 1:
        return F::One();
      case 2:
        return -F::One();
      default:
        return Elem<F>::Any(r);
    }
  }
  static V AnyV(Case& c, size_t n) {
    uint64_t style = c.Draw(5);
    Rng r = c.Bulk();
    V v(n);
    F k = Elem<F>::Any(r);
    for (F& x : v) {
      switch (style) {
        case 0:
          x = F::Zero();
          break;
        case 1:
          x = k;
          break;
        case 2:
          x = r.Upto(3) ? F::Zero() : AnyF(r);
          break;
        default:
          x = AnyF(r);
      }
    }
    return v;
  }
  // The multilinear interpolation of |v| at |p|, straight from the definition.
  static F REval(const V& v, const V& p) {
    F sum = F::Zero();
    for (size_t i = 0; i < v.size(); ++i) {
      F t = v[i];
      for (size_t j = 0; j < p.size(); ++j)
        t *= (i >> j) & 1 ? p[j] : F::One() - p[j];
      sum += t;
    }
    return sum;
  }
  static MLE Mk(const V& v) { return MLE(M(v)); }
  static bool Is(const MLE& m, const V& v) {
    // An empty vector stands for the zero polynomial of any degree.
    const V& e = m.evaluations().evaluations();
    if (e == v) return true;
    auto zero = [](const V& w) {
      for (const F& x : w)
        if (!x.IsZero()) return false;
      return true;
    };
    return (e.empty() || v.empty()) && zero(e) && zero(v);
  }

  static void MlEval(Case& c) {
    size_t n = c.Draw(7);
    V v = AnyV(c, size_t{1} << n);
    V p = AnyV(c, n);
    if (n >= 2) c.Nontrivial();
    if (c.verbose()) {
      c.Note(n, " variables, evaluations");
      for (size_t i = 0; i < v.size() && i < 8; ++i) c.Note(v[i].ToString());
    }
    c.LabelIf(n == 0, "no variables");
    MLE m = Mk(v);
    PBT_T(m.Degree() == n, "degree");
    F want = REval(v, p);
    PBT_T(m.Evaluate(p) == want, "evaluate");
    PBT_T(m.evaluations().Evaluate(p) == want, "evaluate");
    for (size_t t = 0; t < 3; ++t) {
      size_t i = c.Draw(v.size() - 1);
      V b(n);
      for (size_t j = 0; j < n; ++j)
        b[j] = (i >> j) & 1 ? F::One() : F::Zero();
      PBT_T(m.Evaluate(b) == v[i], "value on the hypercube");
      PBT_T(m[i] == v[i], "indexing");
    }
    PBT_T(m[v.size()].IsZero(), "index out of range");
    size_t k = c.Draw(n);
    V head(p.begin(), p.begin() + k), tail(p.begin() + k, p.end());
    M fixed = m.evaluations().FixVariables(head);
    PBT_T(fixed.evaluations().size() == v.size() >> k, "fixed size");
    PBT_T(fixed.Evaluate(tail) == want, "fix then evaluate");
    for (size_t i = 0; i < fixed.evaluations().size(); ++i) {
      V b = head;
      for (size_t j = 0; j + k < n; ++j)
        b.push_back((i >> j) & 1 ? F::One() : F::Zero());
      PBT_T(fixed[i] == REval(v, b), "fixed values");
    }
    M ip = m.evaluations();
    M ret = ip.FixVariablesInPlace(head);
    PBT_T(ip == fixed && ret == fixed, "fix in place");
    size_t k2 = c.Draw(n - k);
    V head2(tail.begin(), tail.begin() + k2);
    V both = head;
    both.insert(both.end(), head2.begin(), head2.end());
    PBT_T(fixed.FixVariables(head2) == m.evaluations().FixVariables(both),
          "fix in two steps");
    PBT_T(m == Mk(v), "operand changed");
  }

  static void MlArith(Case& c) {
    size_t n = c.Draw(5);
    size_t sz = size_t{1} << n;
    V a = AnyV(c, sz);
    V b = AnyV(c, sz);
    if (c.Draw(5) == 0) b = a;
    if (c.Draw(9) == 0)
      for (size_t i = 0; i < sz; ++i) b[i] = -a[i];
    bool ea = c.Draw(9) == 0, eb = c.Draw(9) == 0;
    if (ea) a.assign(sz, F::Zero());
    if (eb) b.assign(sz, F::Zero());
    if (!ea && !eb && n) c.Nontrivial();
    MLE x = ea ? MLE::Zero() : Mk(a), y = eb ? MLE::Zero() : Mk(b);
    V add(sz), sub(sz), mul(sz), neg(sz), div(sz);
    bool divisible = true;
    bool za = true, one = true;
    for (size_t i = 0; i < sz; ++i) {
      add[i] = a[i] + b[i];
      sub[i] = a[i] - b[i];
      mul[i] = a[i] * b[i];
      neg[i] = -a[i];
      za = za && a[i].IsZero();
      one = one && a[i].IsOne();
      if (b[i].IsZero())
        divisible = false;
      else
        div[i] = a[i] * *b[i].Inverse();
    }
    PBT_T(x.IsZero() == za, "is zero");
    PBT_T(x.IsOne() == one, "is one");
    PBT_T((x == y) == (a == b), "equality");
    PBT_T((x != y) == (a != b), "inequality");
    PBT_T(Is(x + y, add), "add");
    PBT_T(Is(x - y, sub), "sub");
    PBT_T(Is(x * y, mul), "mul");
    PBT_T(Is(-x, neg), "negate");
    MLE t = x;
    t += y;
    PBT_T(Is(t, add), "add in place");
    t = x;
    t -= y;
    PBT_T(Is(t, sub), "sub in place");
    t = x;
    t *= y;
    PBT_T(Is(t, mul), "mul in place");
    t = x;
    t.NegateInPlace();
    PBT_T(Is(t, neg), "negate in place");
    t = x;
    t += t;
    for (size_t i = 0; i < sz; ++i) add[i] = a[i] + a[i];
    PBT_T(Is(t, add), "add to itself");
    t = x;
    t -= t;
    PBT_T(t.IsZero(), "subtract from itself");
    // The zero polynomial without evaluations carries no degree to divide in.
    if (!(ea && !eb && !divisible)) {
      std::optional<MLE> q = x / y;
      PBT_T(q.has_value() == divisible, "division by a zero value");
      if (q) PBT_T(Is(*q, div), "div");
      t = x;
      auto r = (t /= y);
      PBT_T(r.has_value() == divisible, "division in place by a zero value");
      if (r) PBT_T(*r == &t && Is(t, div), "div in place");
    }
    PBT_T(MLE::One(n).IsOne() && MLE::One(n).Degree() == n, "one");
    PBT_T(MLE::Zero().IsZero(), "zero");
    PBT_T(MLE::Random(n).evaluations().evaluations().size() == sz, "random");
    PBT_T(Is(x.ToDense(), a), "to dense");
    if (x == Mk(a))
      PBT_T(absl::HashOf(x.evaluations()) == absl::HashOf(M(a)), "hash");
  }

  static void Lincomb(Case& c) {
    size_t n = c.Draw(5);
    size_t sz = size_t{1} << n;
    size_t pool = 1 + c.Draw(4);
    std::vector<std::shared_ptr<M>> es;
    std::vector<V> vs;
    for (size_t i = 0; i < pool; ++i) {
      vs.push_back(AnyV(c, sz));
      bool none = n == 0 && vs.back()[0].IsZero();
      es.push_back(std::make_shared<M>(none ? M() : M(vs.back())));
    }
    if (pool > 1 && c.Draw(3) == 0) {  // two objects of equal value
      vs[1] = vs[0];
      es[1] = std::make_shared<M>(vs[0]);
    }
    LinearCombination<M> lc(n);
    size_t terms = c.Draw(5);
    Rng r = c.Bulk();
    V sums(sz, F::Zero());
    V p = AnyV(c, n);
    F at_p = F::Zero();
    size_t most = 0;
    bool repeated = false;
    for (size_t t = 0; t < terms; ++t) {
      F k = AnyF(r);
      size_t m = 1 + c.Draw(3);
      std::vector<std::shared_ptr<M>> mine;
      V prod(sz, k);
      F pp = k;
      std::vector<size_t> used;
      for (size_t j = 0; j < m; ++j) {
        size_t i = c.Draw(pool - 1);
        repeated |= std::count(used.begin(), used.end(), i) > 0;
        used.push_back(i);
        mine.push_back(es[i]);
        for (size_t q = 0; q < sz; ++q) prod[q] *= vs[i][q];
        pp *= REval(vs[i], p);
      }
      for (size_t q = 0; q < sz; ++q) sums[q] += prod[q];
      at_p += pp;
      most = std::max(most, m);
      lc.AddTerm(k, mine);
    }
    if (terms >= 2 && n) c.Nontrivial();
    c.LabelIf(repeated, "a factor repeated");
    F total = F::Zero();
    for (const F& s : sums) total += s;
    PBT_T(lc.Evaluate(p) == at_p, "linear combination evaluates");
    PBT_T(lc.Combine() == total, "linear combination sums");
    PBT_T(lc.max_evaluations() == most, "max evaluations");
    PBT_T(lc.terms().size() == terms, "terms");
    PBT_T(lc.num_variables() == n, "variables");
    PBT_T(lc.flattened_ml_evaluations().size() <= pool, "sharing");
  }

  // --- sparse multivariate ---------------------------------------------------
  static constexpr size_t kDeg = 64;
  using C = MultivariateSparseCoefficients<F, kDeg>;
  using Poly = MultivariatePolynomial<C>;
  using Lit = typename C::Literal;
  using El = typename C::Element;
  using Mono = std::map<size_t, size_t>;  // variable -> exponent > 0
  using R = std::map<Mono, F>;

  static Mono AnyMono(Case& c, size_t vars) {
    Mono m;
    size_t k = c.Draw(std::min<size_t>(vars, 4));
    for (size_t i = 0; i < k; ++i)
      m[c.Draw(vars - 1)] = 1 + (c.Draw(3) ? c.Draw(1) : c.Draw(7));
    return m;
  }
  static R AnyR(Case& c, size_t vars) {
    R r;
    size_t n = c.Draw(3) ? c.Draw(12) : c.Draw(2);
    Rng rng = c.Bulk();
    for (size_t i = 0; i < n; ++i) {
      F k = Elem<F>::Any(rng);
      if (k.IsZero()) k = F::One();
      r[AnyMono(c, vars)] = k;
    }
    return r;
  }
  static Lit MkLit(const Mono& m) {
    std::vector<El> e;
    for (auto& [v, x] : m) e.push_back({v, x});
    if (e.empty()) e.push_back({0, 0});
    return Lit(std::move(e));
  }
  static Poly MkPoly(const R& r, size_t vars) {
    typename C::Terms ts;
    for (auto& [m, k] : r) ts.push_back({MkLit(m), k});
    std::sort(ts.begin(), ts.end());
    return Poly(C(vars, std::move(ts)));
  }
  static R Denotes(Case& c, const Poly& p, const char* what) {
    R r;
    for (auto& t : p.coefficients().terms()) {
      Mono m;
      for (const El& e : t.literal.elements)
        if (e.exponent) m[e.variable] += e.exponent;
      PBT_TM(!r.count(m), "equal terms not merged", what);
      PBT_TM(!t.coefficient.IsZero(), "zero term kept", what);
      r[m] = t.coefficient;
    }
    return r;
  }
  static R RAdd(const R& a, const R& b, bool neg) {
    R r = a;
    for (auto& [m, k] : b) {
      auto it = r.find(m);
      if (it == r.end())
        r[m] = neg ? -k : k;
      else
        it->second = neg ? it->second - k : it->second + k;
    }
    for (auto it = r.begin(); it != r.end();)
      it = it->second.IsZero() ? r.erase(it) : std::next(it);
    return r;
  }
  static R RNeg(const R& a) {
    R r = a;
    for (auto& [m, k] : r) k = -k;
    return r;
  }
  static F RAt(const R& a, const V& p) {
    F s = F::Zero();
    for (auto& [m, k] : a) {
      F t = k;
      for (auto& [v, e] : m) t *= RPow(p[v], e);
      s += t;
    }
    return s;
  }
  static size_t RDeg(const R& a) {
    size_t d = 0;
    for (auto& [m, k] : a) {
      size_t x = 0;
      for (auto& [v, e] : m) x += e;
      d = std::max(d, x);
    }
    return d;
  }
  static void Look(Case& c, const Poly& p, const R& r, size_t vars,
                   const char* what) {
    PBT_TM(Denotes(c, p, what) == r, "terms", what);
    PBT_TM(p.IsZero() == r.empty(), "is zero", what);
    PBT_TM(p.Degree() == RDeg(r), "degree", what);
    PBT_TM(p == MkPoly(r, vars), "canonical form", what);
    PBT_TM(p.IsOne() == (r.size() == 1 && r.begin()->first.empty() &&
                         r.begin()->second.IsOne()),
           "is one", what);
    for (auto& [m, k] : r) PBT_TM(p[MkLit(m)] == k, "indexing", what);
    V pt = AnyV(c, vars);
    PBT_TM(p.Evaluate(pt) == RAt(r, pt), "evaluate", what);
  }

  static void MvArith(Case& c) {
    size_t va = 1 + c.Draw(5), vb = c.Draw(2) ? va : 1 + c.Draw(5);
    size_t vars = std::max(va, vb);
    R a = AnyR(c, va), b = AnyR(c, vb);
    Rng rng = c.Bulk();
    if (c.Bool()) {  // make the two share monomials, some cancelling
      b.clear();
      for (auto& [m, k] : a) {
        switch (rng.Upto(3)) {
          case 0:
            b[m] = k;
            break;
          case 1:
            b[m] = -k;
            break;
          case 2:
            b[m] = k + k + k + k;
            if (b[m].IsZero()) b[m] = k;
            break;
        }
      }
      if (c.Bool())
        for (auto& [m, k] : AnyR(c, vb)) b[m] = k;
      vb = vars;
    }
    size_t shared = 0;
    for (auto& [m, k] : a) shared += b.count(m);
    if (a.size() >= 2 && b.size() >= 2) c.Nontrivial();
    c.LabelIf(shared > 0, "shared monomials");
    Poly x = MkPoly(a, va), y = MkPoly(b, vb);
    Look(c, x, a, va, "operand");
    // The variables that a zero operand ranges over are not its sum's.
    size_t vs = a.empty() ? vb : b.empty() ? va : vars;
    R add = RAdd(a, b, false), sub = RAdd(a, b, true);
    c.LabelIf(add.empty() || sub.empty(), "all terms cancel");
    Look(c, x + y, add, vs, "add");
    Look(c, y + x, add, vs, "add, swapped");
    Look(c, x - y, sub, vs, "sub");
    Look(c, -x, RNeg(a), va, "negate");
    Poly t = x;
    t += y;
    Look(c, t, add, vs, "add in place");
    t -= y;
    PBT_T(Denotes(c, t, "add and subtract") == a, "add and subtract");
    t = x;
    t -= y;
    Look(c, t, sub, vs, "sub in place");
    t = x;
    t.NegateInPlace();
    Look(c, t, RNeg(a), va, "negate in place");
    t = x;
    t -= t;
    PBT_T(t.IsZero(), "subtract from itself");
    t = x;
    t += t;
    Look(c, t, RAdd(a, a, false), va, "add to itself");
    PBT_T((x == y) == (a == b), "equality");
    PBT_T((x != y) == (a != b), "inequality");
    Mono other = AnyMono(c, vars);
    PBT_T(a.count(other) ? x[MkLit(other)] == a[other]
                         : x[MkLit(other)].IsZero(),
          "coefficient of any monomial");
    PBT_T(Poly::One().IsOne() && Poly::Zero().IsZero(), "one and zero");
  }

  static void Compact(Case& c) {
    size_t vars = 1 + c.Draw(4);
    size_t n = c.Draw(10);
    typename C::Terms ts;
    R r;
    Rng rng = c.Bulk();
    std::vector<Mono> pool;
    for (size_t i = 0; i < n; ++i) {
      Mono m = i && c.Bool() ? pool[c.Draw(pool.size() - 1)] : AnyMono(c, vars);
      pool.push_back(m);
      F k = AnyF(rng);
      if (!ts.empty() && c.Draw(4) == 0) k = -ts.back().coefficient;
      ts.push_back({MkLit(m), k});
      r[m] = (r.count(m) ? r[m] : F::Zero()) + k;
    }
    for (auto it = r.begin(); it != r.end();)
      it = it->second.IsZero() ? r.erase(it) : std::next(it);
    std::sort(ts.begin(), ts.end());
    if (n >= 3) c.Nontrivial();
    C co(vars, std::move(ts));
    co.Compact();
    Look(c, Poly(std::move(co)), r, vars, "compact");
  }

  static void History(Case& c) {
    size_t vars = 1 + c.Draw(4);
    R a = AnyR(c, vars);
    a[Mono{}] = F::One();
    Poly x = MkPoly(a, vars);
    size_t n = 1 + c.Draw(7);
    c.Nontrivial();
    for (size_t i = 0; i < n; ++i) {
      R b = AnyR(c, vars);
      Poly y = MkPoly(b, vars);
      switch (c.Draw(4)) {
        case 0:
          x = x + y;
          a = RAdd(a, b, false);
          break;
        case 1:
          x -= y;
          a = RAdd(a, b, true);
          break;
        case 2:
          x = y - x;
          a = RAdd(b, a, true);
          break;
        case 3:
          x += y;
          a = RAdd(a, b, false);
          break;
        default:
          x.NegateInPlace();
          a = RNeg(a);
      }
      PBT_T(Denotes(c, x, "history") == a, "after a step");
    }
    if (!a.empty()) {
      V pt = AnyV(c, vars);
      PBT_T(x.Evaluate(pt) == RAt(a, pt), "evaluate after steps");
    }
  }

  static void RegisterAll(const std::string& n) {
    RegisterBeforeCase([](uint64_t) { F::Init(); });
    Register(n + ".ml_eval", 400, 4000, MlEval);
    Register(n + ".ml_arith", 400, 4000, MlArith);
    Register(n + ".linear_combination", 300, 3000, Lincomb);
    Register(n + ".mv_arith", 500, 5000, MvArith);
    Register(n + ".mv_compact", 300, 3000, Compact);
    Register(n + ".mv_history", 300, 3000, History);
  }
};

// Accessors that hand out references.
void Access(Case& c) {
  using Q = P<BabyBear>;
  Q::R r = Q::AnyR(c, 4);
  Q::Poly p = Q::MkPoly(r, 4);
  if (r.size() > 1) c.Nontrivial();
  if (r.empty()) {
    PBT_T(p.GetLeadingCoefficient().IsZero(), "leading coefficient of zero");
    return;
  }
  bool found = false;
  for (auto& [m, k] : r) found |= p.GetLeadingCoefficient() == k;
  PBT_T(found, "leading coefficient");
  if (r.size() == 1)
    PBT_T(p.GetLeadingCoefficient() == r.begin()->second, "single term");
  auto co = p.coefficients();
  for (auto& [m, k] : r) {
    co.at(Q::MkLit(m)) = k + k;
    PBT_T(co[Q::MkLit(m)] == k + k, "writing through at()");
  }
}

void RegisterAll() {
  P<GF7>::RegisterAll("gf7");
  P<BabyBear>::RegisterAll("baby_bear");
  P<BabyBear4>::RegisterAll("baby_bear4");
  P<bn254::Fr>::RegisterAll("bn254_fr");
  Register("access", 300, 3000, Access);
}
}  // namespace
PBT_INIT(RegisterAll);
