// Fields, polynomials, transforms and matrices.
#include <algorithm>
#include <map>
#include <string>
#include <vector>

#include "tachyon/crypto/sumcheck/multilinear/sumcheck_prover.h"
#include "tachyon/math/base/rational_field.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/elliptic_curves/bn/bn384_small_two_adicity/fr.h"
#include "tachyon/math/finite_fields/baby_bear/packed_baby_bear4.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"
#include "tachyon/math/matrix/matrix_operations.h"
#include "tachyon/math/matrix/matrix_utils.h"
#include "tachyon/math/polynomials/multivariate/linear_combination.h"
#include "tachyon/math/polynomials/multivariate/multilinear_extension.h"
#include "tachyon/math/polynomials/multivariate/multivariate_polynomial.h"
#include "tachyon/math/polynomials/univariate/lagrange_interpolation.h"
#include "tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h"
#include "tachyon/math/polynomials/univariate/naive_batch_fft.h"
#include "tachyon/math/polynomials/univariate/radix2_evaluation_domain.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#include "verif/threads/threads.h"

namespace {

using namespace pbt;            // NOLINT
using namespace threads;        // NOLINT
using namespace tachyon::math;  // NOLINT

template <typename F>
std::vector<F> Values(Rng& r, size_t n) {
  return BulkPrimeFields<F>(r, n);
}
template <typename F>
F NotZero(Rng& r) {
  F f = BulkPrimeField<F>(r);
  return f.IsZero() ? F::One() : f;
}

template <typename F>
struct Fields {
  static void Batch(Case& c) {
    Rng r = c.Bulk();
    auto t = Counts(c);
    size_t n = AnyN(c, 4000);
    c.Nontrivial(n > 8);
    c.Note("n=", n);
    std::vector<F> a = Values<F>(r, n), b = Values<F>(r, n);
    if (c.OneIn(3)) for (F& x : a) if (x.IsZero()) x = F::One();
    F k = NotZero<F>(r);
    auto inv = Same(c, t, "batch_inverse", [&] {
      std::vector<F> out(n);
      bool ok = F::BatchInverse(a, &out, k);
      return std::make_pair(ok, out);
    });
    PBT_T(inv.first, "batch_inverse");
    for (size_t i = 0; i < n; ++i)
      PBT_T(inv.second[i] == (a[i].IsZero() ? F::Zero() : k * *a[i].Inverse()), "batch_inverse_value");
    Same(c, t, "batch_inverse_in_place", [&] {
      std::vector<F> v = a;
      bool ok = F::BatchInverseInPlace(v);
      return std::make_pair(ok, v);
    });
    F dot = F::Zero();
    for (size_t i = 0; i < n; ++i) dot += a[i] * b[i];
    PBT_T(Same(c, t, "sum_of_products", [&] { return F::SumOfProducts(a, b); }) == dot, "sum_of_products_value");
    Same(c, t, "multi_scalar_mul", [&] {
      std::vector<F> out(n);
      F::MultiScalarMul(a, b, &out);
      return out;
    });
    Same(c, t, "scalar_times_all", [&] {
      std::vector<F> out(n);
      F::MultiScalarMul(k, b, &out);
      return out;
    });
    size_t n2 = size_t{1} << c.Draw(12);
    auto pows = Same(c, t, "powers", [&] { return F::GetSuccessivePowers(n2, k); });
    for (size_t i = 1; i < n2; ++i) PBT_T(pows[i] == pows[i - 1] * k, "powers_value");
    using RF = RationalField<F>;
    std::vector<RF> q;
    for (size_t i = 0; i < n; ++i) {
      F d = b[i];
      q.push_back(RF(a[i], d.IsZero() ? F::One() : d));
    }
    Same(c, t, "rational_batch", [&] {
      std::vector<F> out(n);
      bool ok = RF::BatchEvaluate(q, &out);
      return std::make_pair(ok, out);
    });
  }

  template <typename D>
  static void Transform(Case& c, D& d) {
    constexpr size_t kMax = D::kMaxDegree;
    using P = UnivariateDensePolynomial<F, kMax>;
    using C = UnivariateDenseCoefficients<F, kMax>;
    Rng r = c.Bulk();
    auto t = Counts(c);
    size_t n = d.size();
    c.Nontrivial(n >= 8);
    c.Note("size ", n);
    std::vector<F> v = Values<F>(r, c.Bool() ? n : r.Upto(n));
    P p(C(std::vector<F>(v), true));
    auto e = Same(c, t, "fft", [&] { return d.FFT(p); });
    Same(c, t, "fft_moved", [&] { P q = p; return d.FFT(std::move(q)); });
    Same(c, t, "ifft", [&] { return d.IFFT(e); });
    F shift = NotZero<F>(r);
    auto coset = d.GetCoset(shift);
    auto ce = Same(c, t, "coset_fft", [&] { return coset->FFT(p); });
    auto back = Same(c, t, "coset_ifft", [&] { return coset->IFFT(ce); });
    PBT_T(back == p, "coset_round_trip");
    F tau = NotZero<F>(r);
    Same(c, t, "lagrange", [&] { return d.EvaluateAllLagrangeCoefficients(tau); });
    size_t parts = 1 + c.Draw(n - 1);
    Same(c, t, "partial_lagrange", [&] {
      return d.EvaluatePartialLagrangeCoefficients(tau, tachyon::base::Range<size_t>(0, parts));
    });
    Same(c, t, "elements", [&] { return d.GetElements(); });
  }
  static void Radix2(Case& c) {
    using D = Radix2EvaluationDomain<F, (size_t{1} << 16) - 1>;
    size_t log = c.OneIn(40) ? 16 : c.OneIn(3) ? 7 + c.Draw(6) : c.Draw(7);
    auto d = D::Create(size_t{1} << log);
    c.LabelIf(log >= 10, "large");
    Transform(c, *d);
  }

  static void Univariate(Case& c) {
    constexpr size_t kMax = (size_t{1} << 13) - 1;
    using P = UnivariateDensePolynomial<F, kMax>;
    using C = UnivariateDenseCoefficients<F, kMax>;
    using S = UnivariateSparsePolynomial<F, kMax>;
    using SC = UnivariateSparseCoefficients<F, kMax>;
    using E = UnivariateEvaluations<F, kMax>;
    Rng r = c.Bulk();
    auto t = Counts(c);
    size_t n = 1 + AnyN(c, 600), m = 1 + AnyN(c, 300);
    c.Nontrivial(n > 8);
    c.Note("n=", n, " m=", m);
    P a(C(Values<F>(r, n), true)), b(C(Values<F>(r, m), true));
    F x = NotZero<F>(r);
    Same(c, t, "poly_evaluate", [&] { return a.Evaluate(x); });
    Same(c, t, "poly_add", [&] { return a + b; });
    Same(c, t, "poly_sub", [&] { return b - a; });
    Same(c, t, "poly_neg", [&] { return -a; });
    Same(c, t, "poly_scale", [&] { return a * x; });
    if (n + m < 500) Same(c, t, "poly_mul", [&] { return a * b; });
    if (!b.IsZero() && n < 200) {
      Same(c, t, "poly_div", [&] { return *(a / b); });
      Same(c, t, "poly_mod", [&] { return *(a % b); });
    }
    Same(c, t, "poly_fold", [&] { return a.Fold(x); });
    Same(c, t, "poly_add_in_place", [&] { P y = a; y += b; return y; });
    Same(c, t, "poly_sub_in_place", [&] { P y = b; y -= a; return y; });
    Same(c, t, "poly_neg_in_place", [&] { P y = a; y.NegateInPlace(); return y; });
    Same(c, t, "poly_scale_in_place", [&] { P y = a; y *= x; return y; });
    if (n + m < 500) Same(c, t, "poly_mul_in_place", [&] { P y = a; y *= b; return y; });
    std::vector<typename SC::Term> terms;
    for (size_t i = r.Upto(3); i < n; i += 1 + r.Upto(20)) terms.push_back({i, NotZero<F>(r)});
    S s(SC(std::move(terms), true));
    Same(c, t, "sparse_add", [&] { return a + s; });
    Same(c, t, "sparse_evaluate", [&] { return s.Evaluate(x); });
    Same(c, t, "sparse_sub", [&] { return a - s; });
    Same(c, t, "sparse_add_in_place", [&] { P y = b; y += s; return y; });
    Same(c, t, "sparse_sub_in_place", [&] { P y = b; y -= s; return y; });
    Same(c, t, "dense_times_sparse", [&] { return b * s; });
    Same(c, t, "sparse_times_dense", [&] { return s * b; });
    Same(c, t, "sparse_times_sparse", [&] { return s * s; });
    Same(c, t, "sparse_plus_dense", [&] { return s + b; });
    Same(c, t, "sparse_minus_dense", [&] { return s - b; });
    Same(c, t, "sparse_neg", [&] { return -s; });
    Same(c, t, "sparse_scale", [&] { return s * x; });
    Same(c, t, "sparse_to_dense", [&] { return s.ToDense(); });
    std::vector<F> roots = Values<F>(r, std::min<size_t>(n, 120));
    Same(c, t, "from_roots", [&] { return P::FromRoots(roots); });
    Same(c, t, "vanishing_by_roots", [&] { return P::EvaluateVanishingPolyByRoots(roots, x); });
    size_t k = 1 + c.Draw(20);
    std::vector<F> xs, ys = Values<F>(r, k);
    for (size_t i = 0; i < k; ++i) xs.push_back(F(static_cast<uint32_t>(i * i + 1)));
    Same(c, t, "interpolate", [&] {
      P out;
      bool ok = LagrangeInterpolate<kMax>(xs, ys, &out);
      return std::make_pair(ok, out);
    });
    size_t en = AnyN(c, 3000) + 1;
    E e(Values<F>(r, en)), f(Values<F>(r, en));
    Same(c, t, "evals_add", [&] { return e + f; });
    Same(c, t, "evals_sub", [&] { return e - f; });
    Same(c, t, "evals_mul", [&] { return e * f; });
    Same(c, t, "evals_scale", [&] { return e * x; });
    Same(c, t, "evals_neg", [&] { return -e; });
    Same(c, t, "evals_add_in_place", [&] { E y = e; y += f; return y; });
    Same(c, t, "evals_sub_in_place", [&] { E y = e; y -= f; return y; });
    Same(c, t, "evals_mul_in_place", [&] { E y = e; y *= f; return y; });
    Same(c, t, "evals_scale_in_place", [&] { E y = e; y *= x; return y; });
    Same(c, t, "evals_neg_in_place", [&] { E y = e; y.NegateInPlace(); return y; });
    E g = f;
    for (F& y : g.evaluations()) if (y.IsZero()) y = F::One();
    Same(c, t, "evals_div", [&] { return *(e / g); });
  }

  // Sparse polynomials in many variables.
  static void Sparse(Case& c) {
    using C = MultivariateSparseCoefficients<F, 64>;
    using P = MultivariatePolynomial<C>;
    Rng r = c.Bulk();
    auto t = Counts(c);
    size_t vars = 1 + c.Draw(40);
    auto make = [&](size_t n) {
      std::map<std::map<size_t, size_t>, F> terms;
      for (size_t i = 0; i < n; ++i) {
        std::map<size_t, size_t> lit;
        for (size_t j = r.Upto(r.Upto(4) ? 3 : 20); j; --j) lit[r.Upto(vars - 1)] = 1 + r.Upto(2);
        if (lit.empty()) lit[0] = 0;
        terms[lit] = NotZero<F>(r);
      }
      typename C::Terms ts;
      for (auto& [lit, k] : terms) {
        std::vector<typename C::Element> e;
        for (auto& [v, x] : lit) e.push_back({v, x});
        ts.push_back({typename C::Literal(std::move(e)), k});
      }
      std::sort(ts.begin(), ts.end());
      return P(C(vars, std::move(ts)));
    };
    size_t n = AnyN(c, 150), m = AnyN(c, 150);
    c.Nontrivial(n > 8);
    c.Note(n, " and ", m, " terms");
    P a = make(n), b = make(m);
    std::vector<F> x = Values<F>(r, vars);
    Same(c, t, "multi_evaluate", [&] { return a.Evaluate(x); });
    Same(c, t, "multi_add", [&] { return a + b; });
    Same(c, t, "multi_sub", [&] { return a - b; });
    Same(c, t, "multi_neg", [&] { return -a; });
    Same(c, t, "multi_neg_in_place", [&] { P y = a; y.NegateInPlace(); return y; });
    Same(c, t, "multi_add_in_place", [&] { P y = a; y += b; return y; });
  }

  static void Multi(Case& c) {
    constexpr size_t kMaxVars = 12;
    using M = MultilinearDenseEvaluations<F, kMaxVars>;
    using MLE = MultilinearExtension<M>;
    Rng r = c.Bulk();
    auto t = Counts(c);
    size_t v = 1 + c.Draw(c.OneIn(6) ? 11 : 7), n = size_t{1} << v;
    c.Nontrivial(v > 3);
    c.Note(v, " variables");
    MLE a(M(Values<F>(r, n))), b(M(Values<F>(r, n)));
    F x = NotZero<F>(r);
    Same(c, t, "mle_add", [&] { return a + b; });
    Same(c, t, "mle_sub", [&] { return a - b; });
    Same(c, t, "mle_mul", [&] { return a * b; });
    (void)x;
    Same(c, t, "mle_neg", [&] { return -a; });
    Same(c, t, "mle_add_in_place", [&] { MLE y = a; y += b; return y; });
    Same(c, t, "mle_sub_in_place", [&] { MLE y = a; y -= b; return y; });
    Same(c, t, "mle_mul_in_place", [&] { MLE y = a; y *= b; return y; });
    Same(c, t, "mle_neg_in_place", [&] { MLE y = a; y.NegateInPlace(); return y; });
    std::vector<F> p = Values<F>(r, v);
    Same(c, t, "mle_evaluate", [&] { return a.Evaluate(p); });
    // A sum over products, its total, and what the prover sends.
    namespace tc = tachyon::crypto;
    LinearCombination<M> lc(v);
    std::vector<std::shared_ptr<M>> tables;
    for (size_t i = 0; i < 1 + r.Upto(4); ++i) tables.push_back(std::make_shared<M>(Values<F>(r, n)));
    for (size_t i = 0; i < 1 + r.Upto(3); ++i) {
      std::vector<std::shared_ptr<M>> fs;
      for (size_t j = 0; j < 1 + r.Upto(3); ++j) fs.push_back(tables[r.Upto(tables.size() - 1)]);
      lc.AddTerm(BulkPrimeField<F>(r), fs);
    }
    Same(c, t, "combine", [&] { return lc.Combine(); });
    Same(c, t, "combine_evaluate", [&] { return lc.Evaluate(p); });
    Same(c, t, "sumcheck", [&] {
      tc::SumcheckProver<M, 6> prover(tc::SumcheckProvingKey<M>::Build(lc));
      std::vector<std::vector<F>> all;
      for (size_t i = 0; i < v; ++i) {
        auto m = i == 0 ? prover.Round() : prover.Round(tc::SumcheckVerifierMsg<F>{p[i - 1]});
        all.push_back(m.evaluations.evaluations());
      }
      return all;
    });
  }
};

template <typename F>
struct Matrices {
  using Mat = RowMajorMatrix<F>;
  static Mat Any(Rng& r, size_t n, size_t m) {
    Mat x(n, m);
    std::vector<F> v = Values<F>(r, n * m);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) x(i, j) = v[i * m + j];
    return x;
  }
  static std::vector<F> Flat(const Mat& m) {
    std::vector<F> v;
    v.push_back(F(static_cast<uint32_t>(m.rows())));
    for (Eigen::Index i = 0; i < m.rows(); ++i) for (Eigen::Index j = 0; j < m.cols(); ++j) v.push_back(m(i, j));
    return v;
  }
  static void Run(Case& c) {
    constexpr size_t kMax = (size_t{1} << 14) - 1;
    using D = Radix2EvaluationDomain<F, kMax>;
    Rng r = c.Bulk();
    auto t = Counts(c);
    size_t log = c.OneIn(6) ? 8 + c.Draw(4) : c.Draw(7), n = size_t{1} << log, cols = 1 + c.Draw(c.OneIn(3) ? 40 : 8);
    c.Nontrivial(n >= 8);
    c.Note(n, "x", cols);
    Mat m = Any(r, n, cols);
    Same(c, t, "fft_batch", [&] { Mat x = m; auto d = D::Create(n); d->FFTBatch(x); return Flat(x); });
    Same(c, t, "ifft_batch", [&] { Mat x = m; auto d = D::Create(n); d->IFFTBatch(x); return Flat(x); });
    size_t added = c.Draw(2);
    F shift = NotZero<F>(r);
    bool rev = c.Bool();
    Same(c, t, "coset_lde", [&] {
      Mat out(n << added, cols);
      auto d = D::Create(n);
      d->CosetLDEBatch(Mat(m), added, shift, out, rev);
      return Flat(out);
    });
    if (n * cols < 2000 && n <= 64) {
      Same(c, t, "naive_fft_batch", [&] { Mat x = m; NaiveBatchFFT<F> d; d.FFTBatch(x); return Flat(x); });
    }
    Same(c, t, "reverse_rows", [&] { Mat x = m; ReverseMatrixIndexBits(x); return Flat(x); });
    size_t k = 1 + c.Draw(30), h = 1 + c.Draw(60), w = 1 + c.Draw(30);
    Mat a = Any(r, h, k), b = Any(r, k, w), v = Any(r, k, 1);
    Same(c, t, "mul_mat_mat", [&] { return Flat(Mat(MulMatMat(a, b))); });
    Same(c, t, "mul_mat_vec", [&] { return Flat(Mat(MulMatVec(a, v.col(0)))); });
  }
};

void Mixed(Case& c) {
  using F = bn384_small_two_adicity::Fr;
  using D = MixedRadixEvaluationDomain<F, 6000>;
  static const size_t kSizes[] = {3, 6, 9, 12, 18, 24, 36, 48, 72, 96, 144, 192, 288, 384, 576, 768, 1152, 2304, 4608};
  auto d = D::Create(kSizes[c.Draw(18)]);
  Fields<F>::Transform(c, *d);
}

template <typename F>
void RegisterFor(const std::string& n, size_t k) {
  F::Init();
  pbt::Register("field_batches." + n, 4 * k, 400 * k, Fields<F>::Batch);
  pbt::Register("radix2." + n, 4 * k, 400 * k, Fields<F>::Radix2);
  pbt::Register("univariate." + n, 3 * k, 300 * k, Fields<F>::Univariate);
  pbt::Register("multivariate." + n, 3 * k, 300 * k, Fields<F>::Sparse);
  pbt::Register("multilinear." + n, 3 * k, 300 * k, Fields<F>::Multi);
}

void RegisterAll() {
  RegisterFor<BabyBear>("baby_bear", 4);
  RegisterFor<bn254::Fr>("bn254", 2);
  bn384_small_two_adicity::Fr::Init();
  PackedBabyBear::Init();
  pbt::Register("mixed_radix", 6, 600, Mixed);
  pbt::Register("matrices", 10, 1000, Matrices<BabyBear>::Run);
}
PBT_INIT(RegisterAll);

}  // namespace
