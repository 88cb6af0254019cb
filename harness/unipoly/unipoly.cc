// Univariate polynomials against schoolbook arithmetic on coefficient lists.
#include <algorithm>
#include <string>
#include <vector>

#include "absl/hash/hash.h"

#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"
#include "tachyon/math/finite_fields/test/gf7.h"
#include "tachyon/math/polynomials/univariate/lagrange_interpolation.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluations.h"
#include "tachyon/math/polynomials/univariate/univariate_polynomial.h"

#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace {
using namespace pbt;            // NOLINT
using namespace tachyon::math;  // NOLINT

template <typename F>
struct Elem {
  static F Any(Rng& r) { return BulkPrimeField<F>(r); }
  static F Small(unsigned v) { return F(v); }
};
template <>
struct Elem<BabyBear4> {
  static BabyBear4 Any(Rng& r) {
    auto v = [&r] { return BulkPrimeField<BabyBear>(r); };
    switch (r.Upto(3)) {
      case 0:
        return BabyBear4(v(), BabyBear::Zero(), BabyBear::Zero(),
                         BabyBear::Zero());
      default: {
        BabyBear a = v(), b = v(), c = v(), d = v();
        return BabyBear4(a, b, c, d);
      }
    }
  }
  static BabyBear4 Small(unsigned v) {
    return BabyBear4(BabyBear(v), BabyBear::Zero(), BabyBear::Zero(),
                     BabyBear::Zero());
  }
};

template <typename F, size_t kMax>
struct P {
  using DC = UnivariateDenseCoefficients<F, kMax>;
  using SC = UnivariateSparseCoefficients<F, kMax>;
  using D = UnivariatePolynomial<DC>;
  using S = UnivariatePolynomial<SC>;
  using Term = UnivariateTerm<F>;
  using Evals = UnivariateEvaluations<F, kMax>;
  using V = std::vector<F>;

  // --- reference -----------------------------------------------------------
  static V Trim(V v) {
    while (!v.empty() && v.back().IsZero()) v.pop_back();
    return v;
  }
  static F At(const V& v, size_t i) { return i < v.size() ? v[i] : F::Zero(); }
  static V RAdd(const V& a, const V& b) {
    V r(std::max(a.size(), b.size()));
    for (size_t i = 0; i < r.size(); ++i) r[i] = At(a, i) + At(b, i);
    return Trim(r);
  }
  static V RSub(const V& a, const V& b) {
    V r(std::max(a.size(), b.size()));
    for (size_t i = 0; i < r.size(); ++i) r[i] = At(a, i) - At(b, i);
    return Trim(r);
  }
  static V RMul(const V& a, const V& b) {
    if (a.empty() || b.empty()) return {};
    V r(a.size() + b.size() - 1, F::Zero());
    for (size_t i = 0; i < a.size(); ++i)
      for (size_t j = 0; j < b.size(); ++j) r[i + j] += a[i] * b[j];
    return Trim(r);
  }
  static V RScale(const V& a, const F& k) {
    V r = a;
    for (F& x : r) x *= k;
    return Trim(r);
  }
  static F REval(const V& a, const F& x) {
    F r = F::Zero(), p = F::One();
    for (const F& k : a) {
      r += k * p;
      p *= x;
    }
    return r;
  }

  // --- generators ----------------------------------------------------------
  static F AnyF(Case& c) {
    Rng r = c.Bulk();
    return Elem<F>::Any(r);
  }
  static V AnyV(Case& c, size_t max = 40) {
    uint64_t style = c.Draw(7);
    size_t n;
    switch (style) {
      case 0:
        n = c.Draw(2);
        break;
      case 1:
        n = c.Draw(max);
        break;
      default:
        n = c.Size(std::min<size_t>(max, 12));
    }
    Rng r = c.Bulk();
    V v(n);
    bool sparse = style >= 5;
    bool small = style == 4;
    for (F& x : v) {
      if (sparse && r.Upto(3) != 0)
        x = F::Zero();
      else if (small)
        x = Elem<F>::Small(r.Upto(2));
      else
        x = Elem<F>::Any(r);
    }
    if (style == 2 && n) {  // one
      v.assign(1, F::One());
    }
    return Trim(v);
  }
  // Related to |a| often enough for cancellation.
  static V AnyOther(Case& c, const V& a, size_t max = 40) {
    switch (c.Draw(7)) {
      case 0:
        return a;
      case 1:
        return RScale(a, -F::One());
      case 2: {  // same leading part, other low part
        V v = a;
        Rng r = c.Bulk();
        size_t k = v.empty() ? 0 : r.Upto(v.size());
        for (size_t i = 0; i < k; ++i) v[i] = Elem<F>::Any(r);
        if (r.Bool())
          for (F& x : v) x = -x;
        return Trim(v);
      }
      case 3: {  // a divisor or multiple
        V k = AnyV(c, 4);
        V r = RMul(a, k);
        return r.size() <= max ? r : k;
      }
      default:
        return AnyV(c, max);
    }
  }
  static D MkD(const V& v) { return D(DC(v, true)); }
  static S MkS(const V& v) {
    std::vector<Term> t;
    for (size_t i = 0; i < v.size(); ++i)
      if (!v[i].IsZero()) t.push_back({i, v[i]});
    return S(SC(std::move(t)));
  }
  // --- reading back --------------------------------------------------------
  static void SameD(Case& c, const D& d, const V& want, const char* tag) {
    PBT_TM(d.coefficients().coefficients() == want, tag,
           "dense result " << d.ToString() << " of "
                           << d.coefficients().coefficients().size()
                           << " coefficients, wanted " << MkD(want).ToString());
    PBT_T(d.IsZero() == want.empty(), tag);
    PBT_T(d.Degree() == (want.empty() ? 0 : want.size() - 1), tag);
  }
  static void SameS(Case& c, const S& s, const V& want, const char* tag) {
    S w = MkS(want);
    PBT_TM(s.coefficients().terms() == w.coefficients().terms(), tag,
           "sparse result " << s.ToString() << ", wanted " << w.ToString());
    PBT_T(s.IsZero() == want.empty(), tag);
    PBT_T(s.Degree() == (want.empty() ? 0 : want.size() - 1), tag);
  }
  static std::string Show(const V& v) {
    std::string s = "[";
    for (size_t i = 0; i < v.size() && i < 12; ++i) s += (i ? " " : "") + v[i].ToString();
    return s + (v.size() > 12 ? " ...]" : "]");
  }
  static void Same(Case& c, const D& d, const V& w, const char* t) { SameD(c, d, w, t); }
  static void Same(Case& c, const S& d, const V& w, const char* t) { SameS(c, d, w, t); }

  // --- properties ----------------------------------------------------------
  static void AddSub(Case& c) {
    V a = AnyV(c), b = AnyOther(c, a);
    c.Nontrivial(a.size() > 1 && b.size() > 1);
    if (c.verbose()) c.Note("a=", Show(a), " b=", Show(b));
    V sum = RAdd(a, b), dif = RSub(a, b);
    c.LabelIf(sum.size() < std::max(a.size(), b.size()) ||
                  dif.size() < std::max(a.size(), b.size()),
              "leading terms cancel");
    D da = MkD(a), db = MkD(b);
    S sa = MkS(a), sb = MkS(b);
    switch (c.Draw(3)) {
      case 0: {
        Same(c, da + db, sum, "dense + dense");
        Same(c, da - db, dif, "dense - dense");
        D x = da;
        x += db;
        Same(c, x, sum, "dense += dense");
        x = da;
        x -= db;
        Same(c, x, dif, "dense -= dense");
        x = da;
        x += x;
        Same(c, x, RAdd(a, a), "dense += itself");
        x = da;
        x -= x;
        Same(c, x, {}, "dense -= itself");
        break;
      }
      case 1: {
        Same(c, da + sb, sum, "dense + sparse");
        Same(c, da - sb, dif, "dense - sparse");
        D x = da;
        x += sb;
        Same(c, x, sum, "dense += sparse");
        x = da;
        x -= sb;
        Same(c, x, dif, "dense -= sparse");
        break;
      }
      case 2:
        Same(c, sa + db, sum, "sparse + dense");
        Same(c, sa - db, dif, "sparse - dense");
        break;
      default: {
        Same(c, sa + sb, sum, "sparse + sparse");
        Same(c, sa - sb, dif, "sparse - sparse");
        S x = sa;
        x += sb;
        Same(c, x, sum, "sparse += sparse");
        x = sa;
        x -= sb;
        Same(c, x, dif, "sparse -= sparse");
        x = sa;
        x += x;
        Same(c, x, RAdd(a, a), "sparse += itself");
        x = sa;
        x -= x;
        Same(c, x, {}, "sparse -= itself");
      }
    }
    Same(c, da, a, "operand kept");
    Same(c, sa, a, "operand kept");
    Same(c, db, b, "operand kept");
    Same(c, sb, b, "operand kept");
  }

  static void Mul(Case& c) {
    V a = AnyV(c), b = AnyOther(c, a);
    c.Nontrivial(a.size() > 1 && b.size() > 1);
    if (c.verbose()) c.Note("a=", Show(a), " b=", Show(b));
    V prod = RMul(a, b);
    D da = MkD(a), db = MkD(b);
    S sa = MkS(a), sb = MkS(b);
    switch (c.Draw(3)) {
      case 0: {
        Same(c, da * db, prod, "dense * dense");
        D x = da;
        x *= db;
        Same(c, x, prod, "dense *= dense");
        x = da;
        x *= x;
        Same(c, x, RMul(a, a), "dense *= itself");
        break;
      }
      case 1: {
        Same(c, da * sb, prod, "dense * sparse");
        D x = da;
        x *= sb;
        Same(c, x, prod, "dense *= sparse");
        break;
      }
      case 2:
        Same(c, sa * db, prod, "sparse * dense");
        break;
      default: {
        Same(c, sa * sb, prod, "sparse * sparse");
        S x = sa;
        x *= sb;
        Same(c, x, prod, "sparse *= sparse");
        x = sa;
        x *= x;
        Same(c, x, RMul(a, a), "sparse *= itself");
      }
    }
  }

  static void Scalar(Case& c) {
    V a = AnyV(c);
    F k = c.OneIn(5) ? F::Zero() : c.OneIn(5) ? F::One() : AnyF(c);
    c.Nontrivial(a.size() > 1 && !k.IsZero() && !k.IsOne());
    D d = MkD(a);
    S s = MkS(a);
    V scaled = RScale(a, k), neg = RScale(a, -F::One());
    Same(c, -d, neg, "negate dense");
    Same(c, -s, neg, "negate sparse");
    D x = d;
    x.NegateInPlace();
    Same(c, x, neg, "negate dense in place");
    S y = s;
    y.NegateInPlace();
    Same(c, y, neg, "negate sparse in place");
    Same(c, d * k, scaled, "dense * scalar");
    Same(c, s * k, scaled, "sparse * scalar");
    x = d;
    x *= k;
    Same(c, x, scaled, "dense *= scalar");
    y = s;
    y *= k;
    Same(c, y, scaled, "sparse *= scalar");
    auto q = d / k;
    auto r = s / k;
    x = d;
    bool okx = static_cast<bool>(x /= k);
    y = s;
    bool oky = static_cast<bool>(y /= k);
    if (k.IsZero()) {
      PBT_T(!q && !r && !okx && !oky, "division by the scalar zero");
    } else {
      V w = RScale(a, *k.Inverse());
      PBT_T(q && r && okx && oky, "division by a scalar");
      Same(c, *q, w, "dense / scalar");
      Same(c, *r, w, "sparse / scalar");
      Same(c, x, w, "dense /= scalar");
      Same(c, y, w, "sparse /= scalar");
    }
  }

  template <typename A, typename B>
  static void DivPair(Case& c, const A& a, const B& b, const V& va, const V& vb,
                      const char* tag) {
    auto q = a / b;
    auto r = a % b;
    auto qr = a.DivMod(b);
    if (vb.empty()) {
      PBT_TM(!q && !r && !qr, tag, "division by zero gave a result");
      return;
    }
    PBT_TM(q && r && qr, tag, "division gave no result");
    V vq = Trim(qr->quotient.coefficients().coefficients());
    Same(c, qr->quotient, vq, tag);
    Same(c, *q, vq, tag);
    if (va.empty()) {
      PBT_TM(vq.empty(), tag, "quotient of zero");
      return;
    }
    V vr = Trim(qr->remainder.coefficients().coefficients());
    Same(c, qr->remainder, vr, tag);
    Same(c, *r, vr, tag);
    PBT_TM(vr.size() < vb.size(), tag, "remainder of too high a degree");
    PBT_TM(RAdd(RMul(vq, vb), vr) == va, tag, "quotient * divisor + remainder");
  }
  template <typename B>
  static void DivSelf(Case& c, const D& a, const B& b, const V& va, const V& vb,
                      const char* tag) {
    D x = a, y = a;
    auto px = x /= b;
    auto py = y %= b;
    if (vb.empty()) {
      PBT_TM(!px && !py, tag, "division by zero in place gave a result");
      return;
    }
    PBT_TM(px && py && *px == &x && *py == &y, tag, "in place");
    Same(c, x, Trim(a.DivMod(b)->quotient.coefficients().coefficients()), tag);
    if (va.empty()) return;
    Same(c, y, Trim(a.DivMod(b)->remainder.coefficients().coefficients()), tag);
  }

  static void Div(Case& c) {
    V b = AnyV(c, 12), a;
    if (c.OneIn(3)) {
      a = RMul(b, AnyV(c, 20));
      if (c.Bool()) a = RAdd(a, AnyV(c, 3));
    } else {
      a = AnyOther(c, b, 40);
    }
    if (c.OneIn(4)) {  // a vanishing polynomial
      b.assign(1 + 1 + c.Draw(15), F::Zero());
      b[0] = AnyF(c);
      b.back() = F::One();
    }
    if (a.empty() && b.empty()) return;
    c.Nontrivial(b.size() > 1 && a.size() >= b.size());
    if (c.verbose()) c.Note("a=", Show(a), " b=", Show(b));
    D da = MkD(a), db = MkD(b);
    S sa = MkS(a), sb = MkS(b);
    switch (c.Draw(3)) {
      case 0:
        DivPair(c, da, db, a, b, "dense / dense");
        DivSelf(c, da, db, a, b, "dense /= dense");
        break;
      case 1:
        DivPair(c, da, sb, a, b, "dense / sparse");
        DivSelf(c, da, sb, a, b, "dense /= sparse");
        break;
      case 2:
        DivPair(c, sa, db, a, b, "sparse / dense");
        break;
      default:
        DivPair(c, sa, sb, a, b, "sparse / sparse");
    }
  }

  // The remainder of zero (a finding on its own).
  static void ZeroMod(Case& c) {
    V b = AnyV(c, 6);
    if (b.empty()) b.push_back(F::One());
    c.Nontrivial(b.size() > 1);
    auto r = c.Bool() ? (D() % MkD(b)) : (S() % MkS(b));
    PBT_T(r && r->IsZero(), "0 mod b is not 0");
  }

  static void Eval(Case& c) {
    V a = AnyV(c, 150);
    F x = c.OneIn(4) ? F::Zero() : AnyF(c);
    c.Nontrivial(a.size() > 2 && !x.IsZero() && !x.IsOne());
    D d = MkD(a);
    S s = MkS(a);
    F want = REval(a, x);
    PBT_T(d.Evaluate(x) == want, "dense Evaluate");
    PBT_T(s.Evaluate(x) == want, "sparse Evaluate");
    V fold((a.size() + 1) / 2);
    for (size_t i = 0; i < fold.size(); ++i)
      fold[i] = At(a, 2 * i) + x * At(a, 2 * i + 1);
    fold = Trim(fold);
    Same(c, d.Fold(x), fold, "dense Fold");
    Same(c, s.Fold(x), fold, "sparse Fold");
  }

  static void Shape(Case& c) {
    V a = AnyV(c), b = AnyOther(c, a);
    c.Nontrivial(a.size() > 1);
    if (c.verbose()) c.Note("a=", Show(a));
    D d = MkD(a), e = MkD(b);
    S s = MkS(a), t = MkS(b);
    Same(c, d.ToSparse(), a, "dense ToSparse");
    Same(c, s.ToDense(), a, "sparse ToDense");
    Same(c, d.ToDense(), a, "dense ToDense");
    Same(c, s.ToSparse(), a, "sparse ToSparse");
    PBT_T((d == e) == (a == b) && (d != e) == (a != b), "dense equality");
    PBT_T((s == t) == (a == b) && (s != t) == (a != b), "sparse equality");
    if (a == b)
      PBT_T(absl::Hash<D>()(d) == absl::Hash<D>()(e) &&
                absl::Hash<S>()(s) == absl::Hash<S>()(t),
            "hash of equal polynomials");
    bool one = a.size() == 1 && a[0].IsOne();
    PBT_T(d.IsOne() == one && s.IsOne() == one, "IsOne");
    F lead = a.empty() ? F::Zero() : a.back();
    PBT_T(d.GetLeadingCoefficient() == lead && s.GetLeadingCoefficient() == lead,
          "GetLeadingCoefficient");
    for (size_t i = 0; i < a.size() + 3; ++i)
      PBT_T(d[i] == At(a, i) && s[i] == At(a, i), "operator[]");
    // Cleaning: trailing zeros, zero terms.
    V dirty = a;
    size_t extra = c.Draw(3);
    for (size_t i = 0; i < extra; ++i) dirty.push_back(F::Zero());
    Same(c, D(DC(dirty, true)), a, "dense cleanup");
    std::vector<Term> terms;
    for (size_t i = 0; i < dirty.size(); ++i)
      if (!dirty[i].IsZero() || c.Bool()) terms.push_back({i, dirty[i]});
    Same(c, S(SC(terms, true)), a, "sparse cleanup");
    DC dc(dirty);
    PBT_T(dc.IsClean() == (extra == 0 || dirty.empty()), "IsClean");
    dc.RemoveHighDegreeZeros();
    PBT_T(dc.coefficients() == a, "RemoveHighDegreeZeros");
    size_t deg = c.Draw(20);
    D rd = D::Random(deg);
    PBT_T(rd.Degree() == deg && !rd.GetLeadingCoefficient().IsZero(), "Random");
    Same(c, D::One(), {F::One()}, "One");
    Same(c, S::One(), {F::One()}, "One");
    Same(c, D::Zero(), {}, "Zero");
    Same(c, S::Zero(), {}, "Zero");
  }

  static void Roots(Case& c) {
    size_t n = c.Size(20);
    Rng r = c.Bulk();
    V roots(n);
    for (F& x : roots) x = Elem<F>::Any(r);
    if (n > 1 && c.Bool()) roots[0] = roots[n - 1];
    c.Nontrivial(n > 1);
    V want = {F::One()};
    for (const F& x : roots) want = RMul(want, {-x, F::One()});
    Same(c, D::FromRoots(roots), want, "dense FromRoots");
    Same(c, S::FromRoots(roots), want, "sparse FromRoots");
    F at = n && c.OneIn(3) ? roots[c.Draw(n - 1)] : AnyF(c);
    F v = REval(want, at);
    PBT_T(D::EvaluateVanishingPolyByRoots(roots, at) == v,
          "EvaluateVanishingPolyByRoots");
    PBT_T(D::EvaluateVanishingPolyByRootsSerial(roots, at) == v,
          "EvaluateVanishingPolyByRootsSerial");
  }

  static void Interpolate(Case& c) {
    size_t n = 1 + c.Size(c.OneIn(6) ? 40 : 10);
    Rng r = c.Bulk();
    V xs, ys;
    for (size_t tries = 0; xs.size() < n && tries < 4 * n; ++tries) {
      F x = Elem<F>::Any(r);
      if (std::find(xs.begin(), xs.end(), x) == xs.end()) xs.push_back(x);
    }
    n = xs.size();
    V poly;
    bool low = r.Bool();
    if (low) poly = AnyV(c, n);
    for (const F& x : xs) ys.push_back(low ? REval(poly, x) : Elem<F>::Any(r));
    c.Nontrivial(n > 2);
    c.LabelIf(low, "values of a polynomial of lower degree");
    D out = MkD({F::One(), F::One()});
    PBT_T((LagrangeInterpolate<kMax>(xs, ys, &out)), "LagrangeInterpolate");
    const V& co = out.coefficients().coefficients();
    PBT_T(co.size() <= n, "degree");
    PBT_T(co.empty() || !co.back().IsZero(), "leading coefficient");
    for (size_t i = 0; i < n; ++i)
      PBT_TM(REval(co, xs[i]) == ys[i], "value", "point " << i << " of " << n);
    if (low && poly.size() <= n) PBT_T(co == poly, "uniqueness");
    ys.push_back(F::One());
    PBT_T((!LagrangeInterpolate<kMax>(xs, ys, &out)), "sizes differ");
  }

  static void Evaluations(Case& c) {
    size_t n = c.Size(30);
    Rng r = c.Bulk();
    auto vec = [&](bool nz) {
      V v(n);
      for (F& x : v) {
        x = Elem<F>::Any(r);
        if (nz && x.IsZero()) x = F::One();
      }
      return v;
    };
    V a = vec(false), b = vec(c.Bool());
    if (c.OneIn(5)) a.assign(n, F::Zero());
    if (c.OneIn(5)) b = a;
    if (c.OneIn(8)) a.clear();
    if (c.OneIn(8)) b.clear();
    F k = c.OneIn(4) ? F::Zero() : c.OneIn(4) ? F::One() : AnyF(c);
    c.Nontrivial(a.size() > 1 && b.size() > 1);
    if (c.verbose()) c.Note("a=", Show(a), " b=", Show(b));
    Evals ea(a), eb(b);
    size_t m = std::max(a.size(), b.size());
    auto is = [&](const Evals& e, auto fn, const char* tag) {
      for (size_t i = 0; i < m; ++i)
        PBT_TM(e[i] == fn(At(a, i), At(b, i)), tag, "at " << i);
      PBT_TM(e.NumElements() <= m, tag, "size");
    };
    auto add = [](const F& x, const F& y) { return x + y; };
    auto sub = [](const F& x, const F& y) { return x - y; };
    auto mul = [](const F& x, const F& y) { return x * y; };
    auto neg = [](const F& x, const F&) { return -x; };
    auto scl = [&](const F& x, const F&) { return x * k; };
    is(ea + eb, add, "+");
    is(ea - eb, sub, "-");
    is(ea * eb, mul, "*");
    is(-ea, neg, "negate");
    is(ea * k, scl, "* scalar");
    Evals x = ea;
    is(x += eb, add, "+=");
    x = ea;
    is(x -= eb, sub, "-=");
    x = ea;
    is(x *= eb, mul, "*=");
    x = ea;
    is(x *= k, scl, "*= scalar");
    x = ea;
    is(x.NegateInPlace(), neg, "NegateInPlace");
    bool bad = b.empty() || std::any_of(b.begin(), b.end(), [](const F& y) {
                 return y.IsZero();
               });
    x = ea;
    auto q = ea / eb;
    bool ok = static_cast<bool>(x /= eb);
    if (bad && (b.empty() || !a.empty())) {
      PBT_T(!q && !ok, "division by zero");
    } else if (!bad) {
      auto div = [](const F& u, const F& w) { return *(u / w); };
      PBT_T(q && ok, "division");
      is(*q, div, "/");
      is(x, div, "/=");
    }
    x = ea;
    auto qs = ea / k;
    ok = static_cast<bool>(x /= k);
    if (k.IsZero()) {
      PBT_T(!qs && !ok, "division by the scalar zero");
    } else {
      auto div = [&](const F& u, const F&) { return *(u / k); };
      PBT_T(qs && ok, "division by a scalar");
      is(*qs, div, "/ scalar");
      is(x, div, "/= scalar");
    }
    bool same = true, zero = true, one = !a.empty();
    for (size_t i = 0; i < m; ++i) {
      same = same && At(a, i) == At(b, i);
      zero = zero && At(a, i).IsZero();
      one = one && At(a, i).IsOne();
    }
    PBT_T((ea == eb) == same && (ea != eb) == !same, "equality");
    PBT_T(ea.IsZero() == zero && ea.IsOne() == one, "IsZero and IsOne");
    if (same)
      PBT_T(absl::Hash<Evals>()(ea) == absl::Hash<Evals>()(eb),
            "hash of equal evaluations");
  }

  // A sequence of in-place operations on one polynomial.
  static void History(Case& c) {
    V v = AnyV(c, 10);
    D d = MkD(v);
    S s = MkS(v);
    size_t steps = 2 + c.Draw(10);
    c.Nontrivial(true);
    for (size_t i = 0; i < steps; ++i) {
      V o = AnyOther(c, v, 20);
      F k = AnyF(c);
      uint64_t op = c.Draw(6);
      bool sparse = c.Bool();
      switch (op) {
        case 0:
          v = RAdd(v, o);
          if (sparse)
            d += MkS(o);
          else
            d += MkD(o);
          s += MkS(o);
          break;
        case 1:
          v = RSub(v, o);
          if (sparse)
            d -= MkS(o);
          else
            d -= MkD(o);
          s -= MkS(o);
          break;
        case 2:
          if (v.size() + o.size() > 100) continue;
          v = RMul(v, o);
          if (sparse)
            d *= MkS(o);
          else
            d *= MkD(o);
          s *= MkS(o);
          break;
        case 3:
          v = RScale(v, k);
          d *= k;
          s *= k;
          break;
        case 4:
          v = RScale(v, -F::One());
          d.NegateInPlace();
          s.NegateInPlace();
          break;
        case 5:
          if (o.empty() || v.empty()) continue;
          if (sparse)
            (void)(d %= MkS(o));
          else
            (void)(d %= MkD(o));
          v = Trim(d.coefficients().coefficients());
          PBT_T(v.size() < o.size(), "remainder of too high a degree");
          s = MkS(v);
          break;
        default: {
          V f((v.size() + 1) / 2);
          for (size_t j = 0; j < f.size(); ++j)
            f[j] = At(v, 2 * j) + k * At(v, 2 * j + 1);
          v = Trim(f);
          d = d.Fold(k);
          s = s.Fold(k);
        }
      }
      Same(c, d, v, "dense after a step");
      Same(c, s, v, "sparse after a step");
    }
  }

  static void RegisterAll(const std::string& n) {
    RegisterBeforeCase([](uint64_t) { F::Init(); });
    Register(n + ".add_sub", 600, 6000, AddSub);
    Register(n + ".mul", 400, 4000, Mul);
    Register(n + ".scalar", 300, 3000, Scalar);
    Register(n + ".div", 800, 8000, Div);
    Register(n + ".zero_mod", 30, 100, ZeroMod);
    Register(n + ".evaluate_fold", 300, 3000, Eval);
    Register(n + ".shape", 300, 3000, Shape);
    Register(n + ".roots", 150, 1500, Roots);
    Register(n + ".interpolate", 200, 2000, Interpolate);
    Register(n + ".evaluations", 400, 4000, Evaluations);
    Register(n + ".history", 300, 3000, History);
  }
};

// Sparse polynomials of enormous degree.
template <typename F>
void Huge(Case& c) {
  constexpr size_t kMax = (size_t{1} << 62);
  using SC = UnivariateSparseCoefficients<F, kMax>;
  using S = UnivariatePolynomial<SC>;
  size_t n = 1 + c.Draw(4);
  std::vector<size_t> degs;
  for (size_t i = 0; i < n; ++i) {
    size_t bits = c.Draw(61);
    degs.push_back((size_t{1} << bits) - 1 + c.Draw(3) +
                   (c.Bool() ? c.Draw(size_t{1} << bits) : 0));
  }
  std::sort(degs.begin(), degs.end());
  degs.erase(std::unique(degs.begin(), degs.end()), degs.end());
  Rng r = c.Bulk();
  std::vector<UnivariateTerm<F>> terms;
  F x = BulkPrimeField<F>(r), want = F::Zero();
  c.Nontrivial(!x.IsZero() && !x.IsOne());
  c.LabelIf(mpz_class(static_cast<unsigned long>(degs.back())) >= Modulus<F>(),
            "degree above the modulus");
  for (size_t d : degs) {
    if (d > kMax) continue;
    F k = BulkPrimeField<F>(r);
    if (k.IsZero()) k = F::One();
    terms.push_back({d, k});
    F pw = F::One(), sq = x;
    for (size_t e = d; e; e >>= 1, sq = sq * sq)
      if (e & 1) pw = pw * sq;
    want += k * pw;
  }
  if (terms.empty()) return;
  S s{SC(terms)};
  PBT_T(s.Degree() == terms.back().degree, "degree");
  PBT_T(s.Evaluate(x) == want, "Evaluate");
}

void RegisterAll() {
  P<GF7, 300>::RegisterAll("gf7");
  P<BabyBear, 300>::RegisterAll("baby_bear");
  P<BabyBear4, 300>::RegisterAll("baby_bear4");
  P<bn254::Fr, 300>::RegisterAll("bn254_fr");
  Register("huge_degree.baby_bear", 300, 3000, Huge<BabyBear>);
  Register("huge_degree.gf7", 300, 3000, Huge<GF7>);
  Register("huge_degree.bn254_fr", 300, 3000, Huge<bn254::Fr>);
}
PBT_INIT(RegisterAll);
}  // namespace
