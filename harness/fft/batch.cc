// Batched transforms of the columns of a matrix.
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear.h"
#include "tachyon/math/polynomials/univariate/naive_batch_fft.h"

#include "verif/fft/domains.h"

namespace {
using namespace fft;  // NOLINT

size_t Rev(size_t i, size_t log) {
  size_t r = 0;
  for (size_t b = 0; b < log; ++b)
    if (i >> b & 1) r |= size_t{1} << (log - 1 - b);
  return r;
}

template <typename F>
struct BatchProps {
  using D = Radix2EvaluationDomain<F>;
  using Mat = RowMajorMatrix<F>;

  static Mat AnyMatrix(Case& c, size_t rows, size_t cols) {
    Mat m(rows, cols);
    std::vector<F> v = AnyValues<F>(c, rows * cols);
    for (size_t i = 0; i < rows; ++i)
      for (size_t j = 0; j < cols; ++j) m(i, j) = v[i * cols + j];
    return m;
  }
  static std::vector<F> Col(const Mat& m, size_t j) {
    std::vector<F> v(m.rows());
    for (size_t i = 0; i < v.size(); ++i) v[i] = m(i, j);
    return v;
  }
  // Schoolbook transform of |v| at the powers of |g| times |shift|.
  static std::vector<F> Dft(const std::vector<F>& v, size_t n, const F& g,
                            const F& shift) {
    std::vector<F> r(n);
    F x = shift;
    for (F& y : r) {
      y = Horner(v, x);
      x *= g;
    }
    return r;
  }
  static std::vector<F> Idft(const std::vector<F>& v, const F& g) {
    size_t n = v.size();
    std::vector<F> r = Dft(v, n, *g.Inverse(), F::One());
    F inv = *FieldFromMpz<F>(mpz_class(static_cast<unsigned long>(n))).Inverse();
    for (F& y : r) y *= inv;
    return r;
  }
  static F Gen(Case& c, size_t n) {
    F g;
    PBT_T(F::GetRootOfUnity(n, &g), "GetRootOfUnity");
    return g;
  }
  static size_t Log(Case& c, size_t lo) {
    return c.OneIn(4) ? c.Range(lo, 7) : c.Range(lo, 5);
  }
  static size_t Cols(Case& c) { return c.OneIn(3) ? 1 + c.Draw(40) : 1 + c.Draw(8); }

  static void Same(Case& c, const Mat& m, const std::vector<std::vector<F>>& want,
                   const char* tag) {
    for (size_t j = 0; j < want.size(); ++j) {
      PBT_T(static_cast<size_t>(m.rows()) == want[j].size(), "rows");
      for (size_t i = 0; i < want[j].size(); ++i)
        PBT_TM(m(i, j) == want[j][i], tag,
                      std::to_string(i) + "," + std::to_string(j) + " of " +
                          std::to_string(m.rows()) + "x" +
                          std::to_string(m.cols()));
    }
  }

  static void Fft(Case& c) {
    bool naive = c.OneIn(3), inverse = c.OneIn(3);
    size_t log = Log(c, 0), n = size_t{1} << log, cols = Cols(c);
    Mat m = AnyMatrix(c, n, cols);
    c.Nontrivial(log > 1 && cols > 1);
    c.Note(n, "x", cols, " matrix");
    c.Label(naive ? "naive" : "radix2");
    c.LabelIf(inverse, "inverse");
    F g = Gen(c, n);
    std::vector<std::vector<F>> want(cols);
    for (size_t j = 0; j < cols; ++j)
      want[j] = inverse ? Idft(Col(m, j), g) : Dft(Col(m, j), n, g, F::One());
    if (naive) {
      NaiveBatchFFT<F> f;
      if (inverse)
        f.IFFTBatch(m);
      else
        f.FFTBatch(m);
    } else {
      std::unique_ptr<D> d = D::Create(n);
      if (inverse)
        d->IFFTBatch(m);
      else
        d->FFTBatch(m);
    }
    Same(c, m, want, inverse ? "IFFTBatch" : "FFTBatch");
  }

  static void Lde(Case& c) {
    bool naive = c.OneIn(3), moved = c.Bool();
    size_t log = Log(c, 0), n = size_t{1} << log, cols = Cols(c);
    size_t added = c.Draw(3), n2 = n << added;
    Mat m = AnyMatrix(c, n, cols);
    c.Nontrivial(log > 1 && added > 0);
    F shift = c.OneIn(4) ? F::One() : AnyPrimeField<F>(c);
    F g = Gen(c, n), g2 = Gen(c, n2);
    std::vector<std::vector<F>> want(cols);
    for (size_t j = 0; j < cols; ++j)
      want[j] = Dft(Idft(Col(m, j), g), n2, g2, shift);
    Mat out(n2, cols);
    bool rev = c.Bool();
    if (naive) {
      NaiveBatchFFT<F> f;
      if (moved)
        f.CosetLDEBatch(Mat(m), added, shift, out);
      else
        f.CosetLDEBatch(m, added, shift, out);
    } else {
      Mat keep = m;
      std::unique_ptr<D> d = D::Create(n);
      if (moved)
        d->CosetLDEBatch(Mat(m), added, shift, out, rev);
      else
        d->CosetLDEBatch(m, added, shift, out, rev);
      PBT_T(m == keep, "input kept");
      if (!rev) {
        c.Label("left bit-reversed");
        std::vector<std::vector<F>> w = want;
        for (size_t j = 0; j < cols; ++j)
          for (size_t i = 0; i < n2; ++i)
            w[j][i] = want[j][Rev(i, log + added)];
        want = w;
      }
    }
    Same(c, out, want, "CosetLDEBatch");
  }

  // Domains of the same sizes created, used and dropped in any order.
  static void History(Case& c) {
    size_t steps = 2 + c.Draw(6);
    std::vector<std::unique_ptr<D>> kept;
    c.Nontrivial(true);
    for (size_t k = 0; k < steps; ++k) {
      size_t log = c.Range(0, 4), n = size_t{1} << log;
      std::unique_ptr<D> d;
      size_t reuse = c.Draw(kept.size());
      if (reuse < kept.size()) {
        d = std::move(kept[reuse]);
        kept.erase(kept.begin() + reuse);
        n = d->size();
        log = d->log_size_of_group();
      } else {
        d = D::Create(n);
      }
      std::vector<F> v = AnyValues<F>(c, n);
      F g = Gen(c, n);
      switch (c.Draw(3)) {
        case 0: {
          auto e = d->FFT(typename D::DensePoly(
              UnivariateDenseCoefficients<F, D::kMaxDegree>(v, true)));
          std::vector<F> want = Dft(v, n, g, F::One());
          for (size_t i = 0; i < n; ++i)
            PBT_TM(e[i] == want[i], "FFT", "step " + std::to_string(k));
          break;
        }
        case 1: {
          auto p = d->IFFT(typename D::Evals(v));
          std::vector<F> want = Idft(v, g);
          for (size_t i = 0; i < n; ++i)
            PBT_TM(p[i] == want[i], "IFFT", "step " + std::to_string(k));
          break;
        }
        case 2: {
          Mat m(n, 1);
          for (size_t i = 0; i < n; ++i) m(i, 0) = v[i];
          d->FFTBatch(m);
          Same(c, m, {Dft(v, n, g, F::One())}, "FFTBatch");
          break;
        }
        default: {
          size_t added = c.Draw(3), n2 = n << added;
          Mat m(n, 1), out(n2, 1);
          for (size_t i = 0; i < n; ++i) m(i, 0) = v[i];
          F shift = AnyPrimeField<F>(c);
          d->CosetLDEBatch(std::move(m), added, shift, out);
          Same(c, out, {Dft(Idft(v, g), n2, Gen(c, n2), shift)}, "CosetLDEBatch");
        }
      }
      if (c.Bool()) kept.push_back(std::move(d));
    }
  }

  static void RegisterAll(const std::string& n) {
    Register(n + ".batch_fft", 200, 2000, Fft);
    Register(n + ".coset_lde", 200, 2000, Lde);
    Register(n + ".history", 300, 3000, History);
  }
};

// Constants of the vectorised fields.
int init = RegisterBeforeCase([](uint64_t) {
  PackedFieldTraits<BabyBear>::PackedField::Init();
  PackedFieldTraits<KoalaBear>::PackedField::Init();
});

PBT_INIT([] {
  BatchProps<BabyBear>::RegisterAll("baby_bear");
  BatchProps<KoalaBear>::RegisterAll("koala_bear");
});
}  // namespace
