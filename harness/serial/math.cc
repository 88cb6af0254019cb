// Numbers, fields, points, polynomials and matrices.
#include "tachyon/math/elliptic_curves/bls12/bls12_381/bls12_381.h"
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"
#include "tachyon/math/finite_fields/goldilocks/goldilocks.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear4.h"
#include "tachyon/math/finite_fields/mersenne31/mersenne31.h"
#include "tachyon/math/geometry/dimensions.h"
#include "tachyon/math/geometry/point2.h"
#include "tachyon/math/geometry/point3.h"
#include "tachyon/math/geometry/point4.h"
#include "tachyon/math/matrix/matrix_types.h"
#include "tachyon/math/polynomials/multivariate/linear_combination_term.h"
#include "tachyon/math/polynomials/multivariate/multilinear_extension.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluations.h"
#include "tachyon/math/polynomials/univariate/univariate_polynomial.h"

#include "verif/pbt/gen.h"
#include "verif/serial/mathgen.h"

namespace serial_pbt {
namespace {

template <size_t N>
Type Int(const char* name) {
  return Of<tm::BigInt<N>>(name, [](Rng& r) {
    tm::BigInt<N> b;
    for (size_t i = 0; i < N; ++i) b.limbs[i] = r.Upto(3) ? r.Next() : -r.Upto(1);
    return b;
  });
}
struct SameXY {
  template <typename P>
  bool operator()(const P& a, const P& b) const {
    return a.x() == b.x() && a.y() == b.y();
  }
};
struct SameXYZ {
  template <typename P>
  bool operator()(const P& a, const P& b) const {
    return a.x() == b.x() && a.y() == b.y() && a.z() == b.z();
  }
};
struct SameXYZZ {
  template <typename P>
  bool operator()(const P& a, const P& b) const {
    return a.x() == b.x() && a.y() == b.y() && a.zz() == b.zz() && a.zzz() == b.zzz();
  }
};

template <typename G>
void AddPoints(std::vector<Type>* t) {
  using A = typename G::AffinePoint;
  t->push_back(Of<A>("affine point", AnyAffine<G>));
  t->push_back(Of<typename G::JacobianPoint>(
      "jacobian point", [](Rng& r) { return AnyAffine<G>(r).ToJacobian() + AnyAffine<G>(r); },
      SameXYZ()));
  t->push_back(Of<typename G::ProjectivePoint>(
      "projective point",
      [](Rng& r) { return AnyAffine<G>(r).ToProjective() + AnyAffine<G>(r); }, SameXYZ()));
  t->push_back(Of<typename G::PointXYZZ>(
      "point xyzz", [](Rng& r) { return AnyAffine<G>(r).ToXYZZ() + AnyAffine<G>(r); },
      SameXYZZ()));
  t->push_back(Of<std::vector<A>>("vector of affine points", VectorOf(AnyAffine<G>)).Counted());
}

template <typename F>
void AddPolynomials(std::vector<Type>* t) {
  constexpr size_t kMax = 63;
  using Dense = tm::UnivariateDensePolynomial<F, kMax>;
  using Sparse = tm::UnivariateSparsePolynomial<F, kMax>;
  using Evals = tm::UnivariateEvaluations<F, kMax>;
  using Table = tm::MultilinearDenseEvaluations<F, 6>;
  using MLE = tm::MultilinearExtension<Table>;
  t->push_back(Of<Dense>("dense polynomial",
                         [](Rng& r) {
                           return Dense(typename Dense::Coefficients(AnyFields<F>(r, r.Upto(64))));
                         })
                   .Counted());
  t->push_back(Of<Sparse>("sparse polynomial",
                          [](Rng& r) {
                            std::vector<tm::UnivariateTerm<F>> terms;
                            for (size_t i = 0; i <= kMax; ++i)
                              if (r.Upto(4) == 0) terms.push_back({i, AnyNonZero<F>(r)});
                            return Sparse(typename Sparse::Coefficients(terms));
                          })
                   .Counted());
  t->push_back(Of<tm::UnivariateTerm<F>>(
      "term", [](Rng& r) { return tm::UnivariateTerm<F>{r.Upto(1000), AnyField<F>(r)}; },
      [](const tm::UnivariateTerm<F>& a, const tm::UnivariateTerm<F>& b) {
        return a.degree == b.degree && a.coefficient == b.coefficient;
      }));
  t->push_back(Of<Evals>("evaluations",
                         [](Rng& r) { return Evals(AnyFields<F>(r, size_t{1} << r.Upto(6))); })
                   .Counted());
  t->push_back(Of<MLE>("multilinear extension", [](Rng& r) {
                 return MLE(Table(AnyFields<F>(r, size_t{1} << r.Upto(6))));
               }).Counted());
  t->push_back(Of<tm::LinearCombinationTerm<F>>(
      "product of a linear combination",
      [](Rng& r) {
        std::vector<size_t> v(r.Upto(5));
        for (size_t& x : v) x = r.Upto(30);
        return tm::LinearCombinationTerm<F>{AnyField<F>(r), v};
      },
      [](const tm::LinearCombinationTerm<F>& a, const tm::LinearCombinationTerm<F>& b) {
        return a.coefficient == b.coefficient && a.indexes == b.indexes;
      }));
}

struct SameMatrix {
  template <typename M>
  bool operator()(const M& a, const M& b) const {
    if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
    for (Eigen::Index i = 0; i < a.rows(); ++i)
      for (Eigen::Index j = 0; j < a.cols(); ++j)
        if (a(i, j) != b(i, j)) return false;
    return true;
  }
};

template <typename F>
void AddMatrices(std::vector<Type>* t) {
  using M = tm::Matrix<F>;
  using RM = tm::RowMajorMatrix<F>;
  using D = tm::DiagonalMatrix<F>;
  using D3 = tm::DiagonalMatrix<F, 3>;
  t->push_back(Of<M>("matrix", AnyMatrix<M>, SameMatrix()).Counted(2));
  t->push_back(Of<RM>("row-major matrix", AnyMatrix<RM>, SameMatrix()).Counted(2));
  t->push_back(Of<tm::Vector<F>>("vector", AnyMatrix<tm::Vector<F>>, SameMatrix()).Counted(2));
  t->push_back(
      Of<tm::RowVector<F>>("row vector", AnyMatrix<tm::RowVector<F>>, SameMatrix()).Counted(2));
  t->push_back(Of<tm::Matrix<F, 2, 3>>("matrix of 2 x 3", AnyMatrix<tm::Matrix<F, 2, 3>>,
                                       SameMatrix()));
  t->push_back(Of<tm::Matrix<F, 4, Eigen::Dynamic>>(
      "matrix of 4 rows", AnyMatrix<tm::Matrix<F, 4, Eigen::Dynamic>>, SameMatrix()));
  auto same = [](const auto& a, const auto& b) {
    return SameMatrix()(a.diagonal(), b.diagonal());
  };
  t->push_back(
      Of<D>("diagonal matrix", [](Rng& r) { return D(AnyMatrix<tm::Vector<F>>(r)); }, same)
          .Counted());
  t->push_back(Of<D3>("diagonal matrix of 3 x 3",
                      [](Rng& r) { return D3(AnyMatrix<tm::Vector<F, 3>>(r)); }, same));
  // Through a map.
  t->push_back({"mapped matrix", [](Rng& r) {
                  std::shared_ptr<RM> m(new RM(AnyMatrix<RM>(r))), into(new RM());
                  using Map = Eigen::Map<const RM>;
                  std::shared_ptr<Map> map(new Map(m->data(), m->rows(), m->cols()));
                  Item it;
                  it.type = "mapped matrix";
                  it.size = tb::EstimateSize(*map);
                  it.write = [m, map](tb::Buffer& b) { return b.Write(*map); };
                  it.write_at = [m, map](tb::Buffer& b, size_t at) { return b.WriteAt(at, *map); };
                  it.read = [m, into](const tb::ReadOnlyBuffer& b) {
                    if (!b.Read(into.get())) return Got::kFailed;
                    return SameMatrix()(*m, *into) ? Got::kSame : Got::kOther;
                  };
                  it.read_at = [m, into](const tb::ReadOnlyBuffer& b, size_t at) {
                    if (!b.ReadAt(at, into.get())) return Got::kFailed;
                    return SameMatrix()(*m, *into) ? Got::kSame : Got::kOther;
                  };
                  return it;
                }});
}

template <typename F>
Type Field(const char* name) {
  return Of<F>(name, AnyField<F>);
}

std::vector<Type> Types() {
  using BN = tm::bn254::BN254Curve;
  using BLS = tm::bls12_381::BLS12_381Curve;
  BN::Init();
  BLS::Init();
  tm::Goldilocks::Init();
  tm::BabyBear4::Init();
  tm::KoalaBear4::Init();
  tm::Mersenne31::Init();
  std::vector<Type> t = {
      Int<1>("BigInt<1>"),
      Int<2>("BigInt<2>"),
      Int<4>("BigInt<4>"),
      Int<9>("BigInt<9>"),
      Field<tm::bn254::Fr>("bn254::Fr"),
      Field<tm::bn254::Fq>("bn254::Fq"),
      Field<tm::bn254::Fq2>("bn254::Fq2"),
      Field<tm::bn254::Fq6>("bn254::Fq6"),
      Field<tm::bn254::Fq12>("bn254::Fq12"),
      Field<tm::bls12_381::Fq>("bls12_381::Fq"),
      Field<tm::Goldilocks>("Goldilocks"),
      Field<tm::BabyBear>("BabyBear"),
      Field<tm::BabyBear4>("BabyBear4"),
      Field<tm::KoalaBear>("KoalaBear"),
      Field<tm::KoalaBear4>("KoalaBear4"),
      Field<tm::Mersenne31>("Mersenne31"),
      Of<std::vector<tm::bn254::Fr>>("vector<bn254::Fr>", VectorOf(AnyField<tm::bn254::Fr>))
          .Counted(),
      Of<std::vector<tm::BabyBear>>("vector<BabyBear>", VectorOf(AnyField<tm::BabyBear>))
          .Counted(),
      Of<std::array<tm::Mersenne31, 8>>("array<Mersenne31, 8>",
                                        ArrayOf<8>(AnyField<tm::Mersenne31>)),
      Of<tm::Point2<tm::Goldilocks>>("Point2",
                                     [](Rng& r) {
                                       auto f = AnyField<tm::Goldilocks>;
                                       return tm::Point2<tm::Goldilocks>(f(r), f(r));
                                     }),
      Of<tm::Point3<tm::BabyBear>>("Point3",
                                   [](Rng& r) {
                                     auto f = AnyField<tm::BabyBear>;
                                     return tm::Point3<tm::BabyBear>(f(r), f(r), f(r));
                                   }),
      Of<tm::Point4<tm::bn254::Fr>>("Point4",
                                    [](Rng& r) {
                                      auto f = AnyField<tm::bn254::Fr>;
                                      return tm::Point4<tm::bn254::Fr>(f(r), f(r), f(r), f(r));
                                    }),
      Of<tm::Dimensions>("Dimensions",
                         [](Rng& r) { return tm::Dimensions(r.Next(), r.Upto(20)); }),
  };
  AddPoints<BN::G1Curve>(&t);
  AddPoints<BN::G2Curve>(&t);
  AddPoints<BLS::G1Curve>(&t);
  AddPolynomials<tm::bn254::Fr>(&t);
  AddPolynomials<tm::BabyBear>(&t);
  AddPolynomials<tm::KoalaBear4>(&t);
  AddMatrices<tm::bn254::Fr>(&t);
  AddMatrices<tm::Mersenne31>(&t);
  AddMatrices<tm::BabyBear4>(&t);
  return t;
}

void Montgomery(bool on) {
  SetMontgomery<tm::bn254::Fr, tm::bn254::Fq, tm::bls12_381::Fq, tm::bls12_381::Fr,
                tm::Goldilocks, tm::BabyBear, tm::KoalaBear>(on);
}

// The bytes of a field element are those of its integer; no other integer is one.
template <typename F>
void FieldBytes(Case& c) {
  mpz_class p = pbt::Modulus<F>(), v;
  Rng r = c.Bulk();
  const size_t n = F::Config::kModulusBits <= 32 ? 4 : 8 * ((F::Config::kModulusBits + 63) / 64);
  uint8_t bytes[64] = {};
  switch (c.Draw(3)) {
    case 0:
      for (size_t i = 0; i < n; ++i) bytes[i] = r.Next();
      break;
    case 1:
      for (size_t i = 0; i < n; ++i) bytes[i] = r.Upto(30) ? 0xff : r.Next();
      break;
    default: {
      mpz_class near = c.Draw(1) ? p - 3 + r.Upto(6) : pbt::FieldToMpz(AnyField<F>(r));
      mpz_export(bytes, nullptr, -1, 1, 0, 0, near.get_mpz_t());
    }
  }
  mpz_import(v.get_mpz_t(), n, -1, 1, 0, 0, bytes);
  c.Note(v, " of ", p);
  c.LabelIf(v < p, "below the modulus");
  c.Nontrivial();
  tb::ReadOnlyBuffer in(bytes, n);
  F f = F::One();
  bool ok = in.Read(&f);
  PBT_T(ok == (v < p), "accepted");
  if (!ok) return;
  PBT_T(in.Done(), "done");
  PBT_T(pbt::FieldToMpz(f) == v, "value");
  tb::Uint8VectorBuffer out;
  PBT_T(out.Write(f), "write");
  PBT_T(out.buffer_len() == n && memcmp(out.buffer(), bytes, n) == 0, "bytes");
}

// A matrix goes into one of a given size only if it has that size.
template <typename F>
void Shapes(Case& c) {
  Rng r = c.Bulk();
  Eigen::Index rows = c.Draw(4), cols = c.Draw(4);
  tm::Matrix<F> m(rows, cols);
  for (Eigen::Index i = 0; i < m.size(); ++i) m.data()[i] = AnyField<F>(r);
  c.Nontrivial();
  c.Note(rows, " x ", cols);
  tb::Uint8VectorBuffer out;
  PBT_T(out.Write(m), "write");
  // What follows would do for the missing elements.
  PBT_T(out.Write(tm::Vector<F>(tm::Vector<F>::Constant(20, F::One()))), "write");
  size_t size = tb::EstimateSize(m);
  auto read = [&](auto into, Eigen::Index want_rows, Eigen::Index want_cols) {
    bool fits = (want_rows < 0 || rows == want_rows) && (want_cols < 0 || cols == want_cols);
    out.set_buffer_offset(0);
    bool ok = out.Read(&into);
    PBT_TM(ok == fits, "shape", want_rows << " x " << want_cols);
    if (!ok) return;
    PBT_T(into.rows() == rows && into.cols() == cols, "dimensions");
    for (Eigen::Index i = 0; i < m.size(); ++i) PBT_T(into.data()[i] == m.data()[i], "elements");
    PBT_T(out.buffer_offset() == size, "offset");
  };
  read(tm::Matrix<F>(), -1, -1);
  read(tm::Matrix<F, 3, 2>(), 3, 2);
  read(tm::Matrix<F, 2, 2>(), 2, 2);
  read(tm::Matrix<F, 2, Eigen::Dynamic>(), 2, -1);
  read(tm::Matrix<F, Eigen::Dynamic, 3>(), -1, 3);
  read(tm::Vector<F>(), -1, 1);
  read(tm::Vector<F, 3>(), 3, 1);
}

void RegisterAll() {
  pbt::Register("math.bytes.bn254_fr", 4000, 80000, FieldBytes<tm::bn254::Fr>);
  pbt::Register("math.bytes.bls12_381_fq", 4000, 80000, FieldBytes<tm::bls12_381::Fq>);
  pbt::Register("math.bytes.goldilocks", 4000, 80000, FieldBytes<tm::Goldilocks>);
  pbt::Register("math.bytes.baby_bear", 4000, 80000, FieldBytes<tm::BabyBear>);
  pbt::Register("math.bytes.koala_bear", 4000, 80000, FieldBytes<tm::KoalaBear>);
  pbt::Register("math.bytes.mersenne31", 4000, 80000, FieldBytes<tm::Mersenne31>);
  pbt::Register("math.shapes.bn254_fr", 2000, 40000, Shapes<tm::bn254::Fr>);
  pbt::Register("math.shapes.baby_bear", 2000, 40000, Shapes<tm::BabyBear>);
  RegisterTypes(
      "math", 2, Types, [](Rng& r) { Montgomery(r.Upto(2) == 0); }, [] { Montgomery(false); });
}
PBT_INIT(RegisterAll);

}  // namespace
}  // namespace serial_pbt
