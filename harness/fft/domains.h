// Evaluation domains against their definition: Horner at every element.
#ifndef VERIF_HARNESS_FFT_DOMAINS_H_
#define VERIF_HARNESS_FFT_DOMAINS_H_

#include <algorithm>
#include <memory>
#include <string>
#include <vector>

#include "tachyon/base/range.h"
#include "tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h"
#include "tachyon/math/polynomials/univariate/radix2_evaluation_domain.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"

#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace fft {

using namespace pbt;            // NOLINT
using namespace tachyon::math;  // NOLINT

template <typename F>
F Horner(const std::vector<F>& coeffs, const F& x) {
  F r = F::Zero();
  for (size_t i = coeffs.size(); i-- > 0;) r = r * x + coeffs[i];
  return r;
}

// Values with zeros, ones and arbitrary elements mixed.
template <typename F>
std::vector<F> AnyValues(Case& c, size_t n) {
  std::vector<F> v(n);
  uint64_t style = c.Draw(5);
  Rng rng = c.Bulk();
  F k = BulkPrimeField<F>(rng);
  size_t at = n ? rng.Upto(n - 1) : 0;
  for (size_t i = 0; i < n; ++i) {
    switch (style) {
      case 0:  // one position only
        v[i] = i == at ? k : F::Zero();
        break;
      case 1:  // the same everywhere
        v[i] = k;
        break;
      case 2:  // sparse
        v[i] = rng.Upto(4) == 0 ? BulkPrimeField<F>(rng) : F::Zero();
        break;
      case 3:  // small
        v[i] = F(static_cast<unsigned>(rng.Upto(3)));
        break;
      default:
        v[i] = BulkPrimeField<F>(rng);
    }
  }
  return v;
}

template <typename D, bool kMixed, bool kFactory = false>
struct DomainProps {
  using F = typename D::Field;
  static constexpr size_t kMax = D::kMaxDegree;
  using Dom = UnivariateEvaluationDomain<F, kMax>;
  using Poly = typename Dom::DensePoly;
  using Coeffs = typename Dom::DenseCoeffs;
  using Evals = typename Dom::Evals;

  struct Setup {
    size_t asked = 0;
    std::unique_ptr<Dom> dom;
    std::vector<F> elems;  // by repeated multiplication
    F offset = F::One();
    bool coset = false;
  };

  static size_t WantedSize(size_t n) {
    if (n == 0) n = 1;
    if constexpr (!kMixed) {
      size_t s = 1;
      while (s < n) s *= 2;
      return s;
    } else {
      size_t best = 0, qp = 1;
      for (size_t b = 0; b <= F::Config::kSmallSubgroupAdicity; ++b) {
        size_t s = qp;
        for (size_t a = 0; a <= F::Config::kTwoAdicity && a < 40; ++a, s *= 2)
          if (s >= n && (best == 0 || s < best)) best = s;
        qp *= F::Config::kSmallSubgroupBase;
      }
      return best;
    }
  }

  static std::unique_ptr<Dom> Create(size_t n) { return D::Create(n); }

  static Setup Any(Case& c, size_t max, bool big = true) {
    Setup s;
    switch (c.Draw(7)) {
      case 0:
        s.asked = c.Draw(4);
        break;
      case 1:
        s.asked = (size_t{1} << c.Draw(6)) + c.Draw(2) - 1;
        break;
      case 2:
        s.asked = big ? c.Draw(max) : c.Draw(64);
        break;
      default:
        s.asked = c.Size(48);
    }
    s.dom = Create(s.asked);
    s.offset = F::One();
    switch (c.Draw(5)) {
      case 0:
        s.offset = FieldFromMpz<F>(mpz_class(7));
        break;
      case 1:
        s.offset = NonZeroPrimeField<F>(c);
        break;
      case 2:  // an element of the domain itself
        s.offset = s.dom->group_gen().Pow(c.Draw(s.dom->size()));
        break;
      case 3:
        s.offset = -F::One();
        break;
      default:
        break;
    }
    if (!s.offset.IsOne() || c.OneIn(8)) {
      s.dom = s.dom->GetCoset(s.offset);
      s.coset = true;
      if (c.OneIn(6)) {  // derived again from a coset
        s.offset = NonZeroPrimeField<F>(c);
        s.dom = s.dom->GetCoset(s.offset);
      }
    }
    s.elems.resize(s.dom->size());
    F e = s.offset;
    for (F& x : s.elems) {
      x = e;
      e *= s.dom->group_gen();
    }
    c.Label(s.coset ? "coset" : "subgroup");
    if (s.dom->size() > 64) c.Label("size above 64");
    if (s.dom->size() != s.asked) c.Label("size rounded up");
    return s;
  }

  static Poly MakePoly(std::vector<F> v) {
    return Poly(Coeffs(std::move(v), true));
  }

  // A number of coefficients of every ratio to |n|.
  static size_t NumCoeffs(Case& c, size_t n) {
    switch (c.Draw(4)) {
      case 0:
        return n;
      case 1:
        return std::min<size_t>(n, c.Draw(3));
      case 2: {
        size_t k = n >> c.Draw(4);
        return std::min(n, k + c.Draw(2) - (k ? 1 : 0));
      }
      default:
        return c.Draw(n);
    }
  }

  static std::vector<size_t> Positions(Case& c, size_t n, size_t limit) {
    std::vector<size_t> p;
    if (n <= limit) {
      for (size_t i = 0; i < n; ++i) p.push_back(i);
    } else {
      Rng r = c.Bulk();
      for (size_t i = 0; i < limit; ++i) p.push_back(r.Upto(n - 1));
      p.push_back(0);
      p.push_back(n - 1);
      p.push_back(n / 2);
    }
    return p;
  }

  static void Elements(Case& c) {
    Setup s = Any(c, 5000);
    const Dom& d = *s.dom;
    size_t n = d.size();
    c.Nontrivial(n > 2);
    PBT_T(n == WantedSize(s.asked), "size");
    size_t log2 = 0;
    while (!(n >> log2 & 1)) ++log2;
    PBT_T(d.log_size_of_group() == log2, "log_size_of_group");
    const F g = d.group_gen();
    PBT_T(g.Pow(n).IsOne(), "generator order");
    size_t rest = n;
    for (size_t p : {2, 3, 5, 7, 11, 13})
      if (rest % p == 0) {
        while (rest % p == 0) rest /= p;
        PBT_T(!g.Pow(n / p).IsOne(), "generator is primitive");
      }
    PBT_T((g * d.group_gen_inv()).IsOne(), "group_gen_inv");
    PBT_T(FieldToMpz(d.size_as_field_element()) ==
                  mpz_class(static_cast<unsigned long>(n)) % Modulus<F>(),
              "size_as_field_element");
    PBT_T((d.size_as_field_element() * d.size_inv()).IsOne(), "size_inv");
    PBT_T(d.offset() == s.offset, "offset");
    PBT_T((d.offset() * d.offset_inv()).IsOne(), "offset_inv");
    F pw = F::One();
    for (size_t i = 0; i < n; ++i) pw *= s.offset;
    PBT_T(d.offset_pow_size() == pw, "offset_pow_size");
    PBT_T(d.GetElements() == s.elems, "GetElements");
    for (size_t k = 0; k < 6; ++k) {
      int64_t i = static_cast<int64_t>(c.Draw(4 * n)) - 2 * static_cast<int64_t>(n);
      int64_t m = ((i % static_cast<int64_t>(n)) + n) % n;
      PBT_TM(d.GetElement(i) == s.elems[m], "GetElement",
                    "index " + std::to_string(i));
    }
    size_t cnt = c.Draw(40);
    F root = AnyPrimeField<F>(c);
    if (cnt > 0) {
      size_t p2 = 1;
      while (p2 < cnt) p2 *= 2;
      std::vector<F> pows = Dom::GetRootsOfUnity(p2, root);
      F x = F::One();
      PBT_T(pows.size() == p2, "GetRootsOfUnity size");
      for (const F& y : pows) {
        PBT_T(x == y, "GetRootsOfUnity");
        x *= root;
      }
    }
    F out = d.SampleElementOutsideDomain();
    if (n <= 256)
      PBT_T(std::find(s.elems.begin(), s.elems.end(), out) == s.elems.end(),
                "SampleElementOutsideDomain");
  }

  static void Forward(Case& c) {
    Setup s = Any(c, 3000);
    const Dom& d = *s.dom;
    size_t n = d.size();
    std::vector<F> v = AnyValues<F>(c, NumCoeffs(c, n));
    Poly p = MakePoly(v);
    c.Nontrivial(p.Degree() >= 1 && n > 2);
    if (v.size() * 4 <= n && v.size() > 0) c.Label("few coefficients");
    Poly keep = p;
    bool moved = c.Bool();
    Evals e = moved ? d.FFT(std::move(p)) : d.FFT(p);
    if (!moved) PBT_T(p == keep, "input kept");
    if (!keep.IsZero()) PBT_T(e.NumElements() == n, "number of values");
    for (size_t i : Positions(c, n, n > 512 ? 12 : 64))
      PBT_TM(e[i] == Horner(v, s.elems[i]), "value",
                    "at " + std::to_string(i) + " of " + std::to_string(n) +
                        " with " + std::to_string(v.size()) + " coefficients");
    Poly back = c.Bool() ? d.IFFT(e) : d.IFFT(Evals(e));
    PBT_T(back == keep, "round trip");
  }

  static void Inverse(Case& c) {
    Setup s = Any(c, 3000);
    const Dom& d = *s.dom;
    size_t n = d.size();
    size_t k = c.OneIn(6) ? c.Draw(n) : n;
    std::vector<F> v = AnyValues<F>(c, k);
    if (c.OneIn(4)) {  // values of a polynomial of low degree
      std::vector<F> w = AnyValues<F>(c, std::min<size_t>(n, 1 + c.Draw(5)));
      v.resize(n);
      for (size_t i = 0; i < n; ++i) v[i] = Horner(w, s.elems[i]);
    }
    c.Nontrivial(n > 2 && std::any_of(v.begin(), v.end(), [](const F& x) {
                   return !x.IsZero();
                 }));
    Evals e(v);
    bool moved = c.Bool();
    Poly p = moved ? d.IFFT(std::move(e)) : d.IFFT(e);
    if (!moved) PBT_T(e.evaluations() == v, "input kept");
    const std::vector<F>& co = p.coefficients().coefficients();
    PBT_T(co.size() <= n, "degree");
    PBT_T(co.empty() || !co.back().IsZero(), "leading coefficient");
    for (size_t i : Positions(c, n, n > 512 ? 12 : 64))
      PBT_TM(Horner(co, s.elems[i]) == (i < v.size() ? v[i] : F::Zero()),
                    "value", "at " + std::to_string(i));
    Evals again = d.FFT(p);
    std::vector<F> full = v;
    full.resize(n, F::Zero());
    PBT_T(again == Evals(full), "round trip");
  }

  static F Tau(Case& c, const Setup& s) {
    if (c.OneIn(3)) return s.elems[c.Draw(s.elems.size() - 1)];
    return AnyPrimeField<F>(c);
  }

  static void Lagrange(Case& c) {
    Setup s = Any(c, 600);
    const Dom& d = *s.dom;
    size_t n = d.size();
    F tau = Tau(c, s);
    c.Nontrivial(n > 2);
    std::vector<F> all = d.EvaluateAllLagrangeCoefficients(tau);
    PBT_T(all.size() == n, "count");
    for (size_t i : Positions(c, n, n > 40 ? 4 : 40)) {
      F num = F::One(), den = F::One();
      for (size_t j = 0; j < n; ++j)
        if (j != i) {
          num *= tau - s.elems[j];
          den *= s.elems[i] - s.elems[j];
        }
      PBT_TM(all[i] * den == num, "definition", std::to_string(i));
    }
    size_t from = c.Draw(n - 1), to = from + c.Draw(n - from);
    std::vector<F> part =
        d.EvaluatePartialLagrangeCoefficients(tau, tachyon::base::Range<size_t>(from, to));
    PBT_T(part == std::vector<F>(all.begin() + from, all.begin() + to),
              "partial");
    if (to > from) {
      std::vector<F> incl = d.EvaluatePartialLagrangeCoefficients(
          tau, tachyon::base::Range<size_t, true, true>(from, to - 1));
      PBT_T(incl == part, "partial, inclusive");
    }
  }

  static void Vanishing(Case& c) {
    Setup s = Any(c, 2000);
    const Dom& d = *s.dom;
    c.Nontrivial(d.size() > 2);
    F tau = Tau(c, s);
    F want = F::One();
    for (const F& e : s.elems) want *= tau - e;
    PBT_T(d.EvaluateVanishingPolynomial(tau) == want,
              "EvaluateVanishingPolynomial");
    auto z = d.GetVanishingPolynomial();
    PBT_T(z.Degree() == d.size(), "degree");
    PBT_T(z.Evaluate(tau) == want, "GetVanishingPolynomial");
  }

  // A subdomain (a coset of a smaller subgroup inside the domain).
  static void Filter(Case& c) {
    Setup s = Any(c, 256, false);
    const Dom& d = *s.dom;
    size_t n = d.size();
    std::vector<size_t> divs;
    for (size_t k = 1; k <= n; ++k)
      if (n % k == 0) divs.push_back(k);
    size_t m = divs[c.Draw(divs.size() - 1)];
    std::unique_ptr<Dom> sub = Create(m);
    if (sub->size() != m) return;
    size_t shift = c.Draw(n - 1);
    F off = s.elems[shift];
    if (!off.IsOne()) sub = sub->GetCoset(off);
    c.Nontrivial(n > 2 && m > 1 && m < n);
    c.LabelIf(!off.IsOne(), "coset of a subgroup");
    Poly f = d.GetFilterPolynomial(*sub);
    PBT_T(f.Degree() == n - m, "degree");
    for (size_t i = 0; i < n; ++i) {
      bool in = i % (n / m) == shift % (n / m);
      F want = in ? F::One() : F::Zero();
      PBT_TM(Horner(f.coefficients().coefficients(), s.elems[i]) == want,
                    "GetFilterPolynomial", std::to_string(i));
      auto v = d.EvaluateFilterPolynomial(*sub, s.elems[i]);
      PBT_TM(v && *v == want, "EvaluateFilterPolynomial",
                    std::to_string(i));
    }
    F tau = AnyPrimeField<F>(c);
    auto v = d.EvaluateFilterPolynomial(*sub, tau);
    PBT_T(v && *v == Horner(f.coefficients().coefficients(), tau),
              "EvaluateFilterPolynomial outside");
  }

  static void Distribute(Case& c) {
    std::vector<F> v = AnyValues<F>(c, c.OneIn(8) ? c.Draw(5000) : c.Size(60));
    F g = AnyPrimeField<F>(c);
    c.Nontrivial(v.size() > 2 && !g.IsZero() && !g.IsOne());
    Evals e(v);
    Dom::DistributePowers(e, g);
    F pw = F::One();
    for (F& x : v) {
      x *= pw;
      pw *= g;
    }
    PBT_T(e.evaluations() == v, "DistributePowers");
    if (!v.empty() && !v.back().IsZero()) {
      std::vector<F> w = v;
      Poly p = MakePoly(w);
      Dom::DistributePowers(p, g);
      pw = F::One();
      for (F& x : w) {
        x *= pw;
        pw *= g;
      }
      if (!g.IsZero())
        PBT_T(p.coefficients().coefficients() == w, "of coefficients");
    }
  }

  // Large domains, spot checks only.
  static void Large(Case& c) {
    size_t lo = 1000, hi = kMixed && F::Config::kTwoAdicity <= 12 ? 36864 : 30000;
    size_t asked = c.Range(lo, hi);
    std::unique_ptr<Dom> d = Create(asked);
    size_t n = d->size();
    PBT_T(n == WantedSize(asked), "size");
    F off = c.Bool() ? NonZeroPrimeField<F>(c) : F::One();
    if (!off.IsOne()) d = d->GetCoset(off);
    std::vector<F> v = AnyValues<F>(c, c.Bool() ? n : 1 + c.Draw(n - 1));
    c.Nontrivial(true);
    Poly p = MakePoly(v);
    Evals e = d->FFT(p);
    for (size_t i : Positions(c, n, 6))
      PBT_TM(e[i] == Horner(v, off * d->group_gen().Pow(i)), "value",
                    std::to_string(i));
    PBT_T(d->IFFT(e) == p, "round trip");
  }

  static int RegisterAll(const std::string& n) {
    RegisterBeforeCase([](uint64_t) { F::Init(); });
    Register(n + ".elements", 60, 600, Elements);
    Register(n + ".fft", 200, 2000, Forward);
    Register(n + ".ifft", 200, 2000, Inverse);
    Register(n + ".lagrange", 120, 1200, Lagrange);
    Register(n + ".vanishing", 80, 800, Vanishing);
    Register(n + ".filter", 80, 800, Filter);
    Register(n + ".distribute", 80, 800, Distribute);
    Register(n + ".large", 4, 40, Large);
    return 0;
  }
};

// Chooses between the two kinds.
template <typename FTy>
struct FactoryDomain {
  using Field = FTy;
  static constexpr size_t kMaxDegree =
      MaxDegreeForEvaluationDomainFactory<FTy>();
  static auto Create(size_t n) {
    return UnivariateEvaluationDomainFactory<FTy>::Create(n);
  }
};

}  // namespace fft

#endif  // VERIF_HARNESS_FFT_DOMAINS_H_
