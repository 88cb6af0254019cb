// Polynomials, evaluation domains, matrices and random generators behind the
// C interface.
#include <string.h>

#include <memory>
#include <utility>
#include <vector>

#include "tachyon/c/crypto/random/rng.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/fr_type_traits.h"
#include "tachyon/c/math/finite_fields/baby_bear/baby_bear_type_traits.h"
#include "tachyon/c/math/matrix/baby_bear_row_major_matrix.h"
#include "tachyon/c/math/polynomials/constants.h"
#include "tachyon/c/math/polynomials/univariate/bn254_univariate_dense_polynomial.h"
#include "tachyon/c/math/polynomials/univariate/bn254_univariate_dense_polynomial_type_traits.h"
#include "tachyon/c/math/polynomials/univariate/bn254_univariate_evaluation_domain.h"
#include "tachyon/c/math/polynomials/univariate/bn254_univariate_evaluation_domain_type_traits.h"
#include "tachyon/c/math/polynomials/univariate/bn254_univariate_evaluations.h"
#include "tachyon/c/math/polynomials/univariate/bn254_univariate_evaluations_type_traits.h"
#include "tachyon/c/math/polynomials/univariate/bn254_univariate_rational_evaluations.h"
#include "tachyon/c/math/polynomials/univariate/bn254_univariate_rational_evaluations_type_traits.h"
#include "tachyon/crypto/random/cha_cha20/cha_cha20_rng.h"
#include "tachyon/crypto/random/xor_shift/xor_shift_rng.h"
#include "verif/capi/cast.h"
#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace {

using namespace tachyon;
using pbt::Case;
using capi::c_cast;
using capi::native_cast;
using F = math::bn254::Fr;
using Domain = math::UnivariateEvaluationDomain<F, c::math::kMaxDegree>;
using Evals = math::UnivariateEvaluations<F, c::math::kMaxDegree>;
using Poly = math::UnivariateDensePolynomial<F, c::math::kMaxDegree>;

#define DP(x) tachyon_bn254_univariate_dense_polynomial##x
#define EV(x) tachyon_bn254_univariate_evaluations##x
#define RE(x) tachyon_bn254_univariate_rational_evaluations##x
#define ED(x) tachyon_bn254_univariate_evaluation_domain##x

std::vector<F> AnyValues(Case& c, size_t n) {
  pbt::Rng r = c.Bulk();
  std::vector<F> v = pbt::BulkPrimeFields<F>(r, n);
  size_t zeros = c.Draw(3);
  for (size_t i = 0; i < n; ++i) {
    if (zeros == 1 && r.Upto(1)) v[i] = F::Zero();
    if (zeros == 2 && i >= n / 2) v[i] = F::Zero();
  }
  return v;
}

F Horner(const std::vector<F>& coeffs, const F& x) {
  F acc = F::Zero();
  for (size_t i = coeffs.size(); i-- > 0;) acc = acc * x + coeffs[i];
  return acc;
}

Poly ToPoly(std::vector<F> v) {
  return Poly(Poly::Coefficients(std::move(v), /*cleanup=*/true));
}

void DomainTest(Case& c) {
  size_t want_n = c.Draw(7) == 0 ? c.Size(65, 300) : c.Size(1, 64);
  size_t n = 1;
  while (n < want_n) n *= 2;
  auto* d = ED(_create)(want_n);
  c.Note("num_coeffs=", want_n);
  const Domain& nd = native_cast(*d);
  PBT_T(nd.size() >= want_n, "domain_size");
  n = nd.size();
  if (n > 1) c.Nontrivial();
  F w = nd.group_gen();
  F values_at = pbt::AnyPrimeField<F>(c);
  // Empty ones have the length of the domain and are zero.
  auto* ev = ED(_empty_evals)(d);
  auto* dp = ED(_empty_poly)(d);
  auto* re = ED(_empty_rational_evals)(d);
  PBT_T(EV(_len)(ev) == n && RE(_len)(re) == n, "empty_len");
  for (size_t i = 0; i < n; ++i) {
    PBT_T(native_cast(*ev)[i] == F::Zero(), "empty_evals_value");
    tachyon_bn254_fr v = c_cast(F::One());
    RE(_evaluate)(re, i, &v);
    PBT_T(native_cast(v) == F::Zero(), "empty_rational_value");
  }
  PBT_T(native_cast(*dp).Evaluate(values_at).IsZero(), "empty_poly_value");
  DP(_destroy)(dp);

  // Evaluations to polynomial and back.
  std::vector<F> values = AnyValues(c, n);
  for (size_t i = 0; i < n; ++i) {
    tachyon_bn254_fr v = c_cast(values[i]);
    EV(_set_value)(ev, i, &v);
  }
  auto* cloned = EV(_clone)(ev);
  auto* poly = ED(_ifft)(d, ev);
  for (size_t i = 0; i < n; ++i) {
    PBT_T(native_cast(*ev)[i] == values[i], "ifft_changed_argument");
  }
  std::vector<F> coeffs(n);
  for (size_t i = 0; i < n; ++i) coeffs[i] = native_cast(*poly)[i];
  F x = F::One();
  for (size_t i = 0; i < n; ++i, x *= w) {
    PBT_T(Horner(coeffs, x) == values[i], "ifft_value");
  }
  PBT_T(native_cast(*poly).NumElements() <= n, "ifft_degree");
  // The clone does not follow the original.
  tachyon_bn254_fr other = c_cast(values[0] + F::One());
  EV(_set_value)(ev, 0, &other);
  PBT_T(native_cast(*cloned)[0] == values[0], "evals_clone_follows");
  EV(_set_value)(ev, 0, [&] {
    static tachyon_bn254_fr keep;
    keep = c_cast(values[0]);
    return &keep;
  }());
  auto* pclone = DP(_clone)(poly);
  PBT_T(native_cast(*pclone) == native_cast(*poly), "poly_clone");

  auto* back = ED(_fft)(d, poly);
  PBT_T(native_cast(*poly) == native_cast(*pclone), "fft_changed_argument");
  // Of the zero polynomial no values need to be stored.
  bool zero = native_cast(*pclone).IsZero();
  PBT_T(EV(_len)(back) == n || zero, "fft_len");
  for (size_t i = 0; i < n; ++i) {
    PBT_T(native_cast(*back)[i] == values[i], "fft_value");
  }
  auto* back2 = ED(_fft_inplace)(d, poly);
  PBT_T(EV(_len)(back2) == n || zero, "fft_inplace_len");
  for (size_t i = 0; i < n; ++i) {
    PBT_T(native_cast(*back2)[i] == values[i], "fft_inplace_value");
  }
  DP(_destroy)(poly);  // its content was taken, the object is still ours
  PBT_T(native_cast(*pclone).NumElements() <= n, "poly_clone_follows");
  F y = values[0] + F::One();
  PBT_T(native_cast(*pclone).Evaluate(y) == Horner(coeffs, y),
        "poly_clone_follows");
  auto* p2 = ED(_ifft_inplace)(d, cloned);
  PBT_T(native_cast(*p2) == native_cast(*pclone), "ifft_inplace_value");
  EV(_destroy)(cloned);
  DP(_destroy)(p2);
  DP(_destroy)(pclone);
  EV(_destroy)(back);
  EV(_destroy)(back2);

  // A polynomial shorter than the domain.
  size_t m = c.Size(0, n);
  std::vector<F> cs = AnyValues(c, m);
  std::unique_ptr<Poly> np(new Poly(ToPoly(cs)));
  auto* e3 = ED(_fft)(d, c_cast(np.get()));
  PBT_T(EV(_len)(e3) == n || np->IsZero(), "fft_short_len");
  x = F::One();
  for (size_t i = 0; i < n; ++i, x *= w) {
    PBT_T(native_cast(*e3)[i] == Horner(cs, x), "fft_short_value");
  }
  EV(_destroy)(e3);
  EV(_destroy)(ev);
  RE(_destroy)(re);
  ED(_destroy)(d);
}

void RationalTest(Case& c) {
  size_t n = size_t{1} << c.Draw(6);
  auto* d = ED(_create)(n);
  auto* re = ED(_empty_rational_evals)(d);
  n = RE(_len)(re);
  std::vector<F> model(n, F::Zero());
  size_t steps = c.Size(1, 40);
  for (size_t s = 0; s < steps; ++s) {
    size_t i = c.Draw(n - 1);
    F num = pbt::AnyPrimeField<F>(c);
    tachyon_bn254_fr cn = c_cast(num);
    switch (c.Draw(2)) {
      case 0:
        c.Label("set:zero");
        RE(_set_zero)(re, i);
        model[i] = F::Zero();
        break;
      case 1:
        c.Label("set:trivial");
        RE(_set_trivial)(re, i, &cn);
        model[i] = num;
        break;
      default: {
        c.Label("set:rational");
        F den = pbt::NonZeroPrimeField<F>(c);
        tachyon_bn254_fr cd = c_cast(den);
        RE(_set_rational)(re, i, &cn, &cd);
        model[i] = num * *den.Inverse();
        if (!num.IsZero()) c.Nontrivial();
      }
    }
  }
  auto* cl = RE(_clone)(re);
  RE(_set_zero)(re, 0);
  PBT_T(RE(_len)(cl) == n, "clone_len");
  for (size_t i = 0; i < n; ++i) {
    tachyon_bn254_fr v;
    RE(_evaluate)(cl, i, &v);
    PBT_T(native_cast(v) == model[i], "evaluate");
  }
  auto* ev = RE(_batch_evaluate)(cl);
  PBT_T(EV(_len)(ev) == n, "batch_len");
  for (size_t i = 0; i < n; ++i) {
    PBT_T(native_cast(*ev)[i] == model[i], "batch_evaluate");
    tachyon_bn254_fr v;
    RE(_evaluate)(cl, i, &v);
    PBT_T(native_cast(v) == model[i], "batch_changed_argument");
  }
  tachyon_bn254_fr v;
  RE(_evaluate)(re, 0, &v);
  PBT_T(native_cast(v) == F::Zero(), "clone_follows");
  EV(_destroy)(ev);
  RE(_destroy)(cl);
  RE(_destroy)(re);
  ED(_destroy)(d);
  auto* e0 = EV(_create)();
  auto* r0 = RE(_create)();
  auto* p0 = DP(_create)();
  PBT_T(native_cast(*p0).IsZero(), "create_poly");
  EV(_destroy)(e0);
  RE(_destroy)(r0);
  DP(_destroy)(p0);
}

void MatrixTest(Case& c) {
  using B = math::BabyBear;
  size_t rows = c.Size(1, 12), cols = c.Size(1, 12);
  pbt::Rng r = c.Bulk();
  std::vector<B> v = pbt::BulkPrimeFields<B>(r, rows * cols);
  if (rows > 1 && cols > 1) c.Nontrivial();
  std::vector<B> keep = v;
  auto* m = tachyon_baby_bear_row_major_matrix_create(c_cast(v.data()), rows,
                                                      cols);
  PBT_T(tachyon_baby_bear_row_major_matrix_get_rows(m) == rows &&
            tachyon_baby_bear_row_major_matrix_get_cols(m) == cols,
        "shape");
  auto same = [&](const tachyon_baby_bear_row_major_matrix* x) {
    const tachyon_baby_bear* p =
        tachyon_baby_bear_row_major_matrix_get_const_data_ptr(x);
    for (size_t i = 0; i < rows; ++i)
      for (size_t j = 0; j < cols; ++j) {
        auto e = tachyon_baby_bear_row_major_matrix_get_element(x, i, j);
        if (native_cast(e) != keep[i * cols + j]) return false;
        if (native_cast(p[i * cols + j]) != keep[i * cols + j]) return false;
      }
    return true;
  };
  PBT_T(same(m), "elements");
  auto* k = tachyon_baby_bear_row_major_matrix_clone(m);
  PBT_T(same(k), "clone");
  // It has a copy of its own of the elements.
  v[0] += B::One();
  PBT_T(same(m), "follows_source");
  size_t at = c.Draw(rows * cols - 1);
  tachyon_baby_bear* p = tachyon_baby_bear_row_major_matrix_get_data_ptr(m);
  p[at] = c_cast(keep[at] + B::One());
  auto e = tachyon_baby_bear_row_major_matrix_get_element(m, at / cols,
                                                          at % cols);
  PBT_T(native_cast(e) == keep[at] + B::One(), "write_through_data");
  PBT_T(same(k), "clone_follows");
  tachyon_baby_bear_row_major_matrix_destroy(m);
  PBT_T(same(k), "clone_dies");
  tachyon_baby_bear_row_major_matrix_destroy(k);
}

// A history over several generators: from a seed, from the state of another
// one, with 32 and 64 bit outputs mixed, beside the library's.
void RngTest(Case& c) {
  struct G {
    tachyon_rng* rng;
    std::unique_ptr<crypto::RNG> model;
    uint8_t type;
  };
  std::vector<G> gs;
  auto make = [&](uint8_t type) {
    std::vector<uint8_t> seed(type == TACHYON_RNG_XOR_SHIFT
                                  ? crypto::XORShiftRNG::kSeedSize
                                  : crypto::ChaCha20RNG::kSeedSize);
    for (uint8_t& b : seed) b = static_cast<uint8_t>(c.Draw(255));
    G g;
    g.type = type;
    g.rng = tachyon_rng_create_from_seed(type, seed.data(), seed.size());
    if (type == TACHYON_RNG_XOR_SHIFT) {
      g.model.reset(new crypto::XORShiftRNG);
    } else {
      g.model.reset(new crypto::ChaCha20RNG);
    }
    PBT_T(g.model->SetSeed(absl::MakeConstSpan(seed)), "seed_refused");
    gs.push_back(std::move(g));
  };
  make(static_cast<uint8_t>(c.Draw(1)));
  size_t steps = c.Size(1, 60);
  if (steps > 5) c.Nontrivial();
  for (size_t s = 0; s < steps; ++s) {
    G& g = gs[c.Draw(gs.size() - 1)];
    size_t op = c.Draw(9);
    if (op <= 3) {
      PBT_T(tachyon_rng_get_next_u32(g.rng) == g.model->NextUint32(), "u32");
    } else if (op <= 7) {
      PBT_T(tachyon_rng_get_next_u64(g.rng) == g.model->NextUint64(), "u64");
    } else if (op == 8 && gs.size() < 4) {
      make(static_cast<uint8_t>(c.Draw(1)));
    } else {
      c.Label("state:resumed");
      size_t len = 0;
      tachyon_rng_get_state(g.rng, nullptr, &len);
      std::vector<uint8_t> state(len + 8, 0xa5);
      size_t len2 = 0;
      tachyon_rng_get_state(g.rng, state.data(), &len2);
      PBT_T(len2 == len, "state_len");
      for (size_t i = len; i < len + 8; ++i)
        PBT_T(state[i] == 0xa5, "state_overrun");
      tachyon_rng* resumed =
          tachyon_rng_create_from_state(g.type, state.data(), len);
      PBT_T(resumed->type == g.type, "type");
      // The resumed one replaces the original half of the time; otherwise it
      // is compared with it over the next outputs.
      if (c.Draw(1)) {
        std::swap(g.rng, resumed);
        tachyon_rng_destroy(resumed);
      } else {
        for (size_t i = 0; i < 20; ++i) {
          uint64_t v = g.model->NextUint64();
          PBT_T(tachyon_rng_get_next_u64(resumed) == v, "resumed");
          PBT_T(tachyon_rng_get_next_u64(g.rng) == v, "original");
        }
        tachyon_rng_destroy(resumed);
      }
    }
  }
  for (G& g : gs) {
    PBT_T(tachyon_rng_get_next_u64(g.rng) == g.model->NextUint64(), "last");
    tachyon_rng_destroy(g.rng);
  }
}

void RegisterAll() {
  F::Init();
  math::BabyBear::Init();
  pbt::Register("polynomials", 800, 10000, DomainTest);
  pbt::Register("rational_evaluations", 1500, 20000, RationalTest);
  pbt::Register("matrix", 4000, 50000, MatrixTest);
  pbt::Register("rng", 4000, 80000, RngTest);
}

PBT_INIT(RegisterAll);

}  // namespace
