// C14: dense matrices over fields.
#include <string>
#include <type_traits>
#include <vector>

#include "third_party/eigen3/Eigen/LU"

#include "tachyon/base/buffer/vector_buffer.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"
#include "tachyon/math/finite_fields/baby_bear/packed_baby_bear4.h"
#include "tachyon/math/finite_fields/test/gf7.h"
#include "tachyon/math/matrix/matrix_operations.h"
#include "tachyon/math/matrix/matrix_utils.h"

#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace {
using namespace pbt;  // NOLINT
namespace tm = tachyon::math;

template <typename F>
struct D {
  using V = std::vector<F>;
  using Rows = std::vector<V>;
  using Mat = tm::Matrix<F>;
  using RMat = tm::RowMajorMatrix<F>;

  static F Any(Rng& r) {
    if constexpr (std::is_same_v<F, tm::BabyBear4>) {
      auto b = [&] { return r.Upto(4) ? BulkPrimeField<tm::BabyBear>(r) : tm::BabyBear(0); };
      auto w = b(), x = b(), y = b(), z = b();
      return F(w, x, y, z);
    } else {
      return r.Upto(5) ? BulkPrimeField<F>(r) : F::Zero();
    }
  }
  static size_t Dim(Case& c) { return c.OneIn(8) ? c.Draw(70) : 1 + c.Draw(8); }
  static Rows AnyRows(Case& c, size_t n, size_t m) {
    Rng r = c.Bulk();
    Rows x(n, V(m));
    for (auto& row : x)
      for (auto& v : row) v = Any(r);
    return x;
  }
  template <typename M = Mat>
  static M Mk(const Rows& r, size_t n, size_t m) {
    M x(n, m);
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < m; ++j) x(i, j) = r[i][j];
    return x;
  }
  template <typename M>
  static bool Is(const M& x, const Rows& r, size_t n, size_t m) {
    if (static_cast<size_t>(x.rows()) != n || static_cast<size_t>(x.cols()) != m)
      return false;
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < m; ++j)
        if (!(x(i, j) == r[i][j])) return false;
    return true;
  }
  static Rows MulR(const Rows& a, const Rows& b, size_t n, size_t k, size_t m) {
    Rows r(n, V(m, F::Zero()));
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < m; ++j)
        for (size_t l = 0; l < k; ++l) r[i][j] = r[i][j] + a[i][l] * b[l][j];
    return r;
  }

  static void Mul(Case& c) {
    size_t n = Dim(c), k = Dim(c), m = Dim(c);
    Rows a = AnyRows(c, n, k), b = AnyRows(c, k, m);
    c.Nontrivial(n > 1 && k > 1);
    c.LabelIf(n > k, "tall");
    c.LabelIf(n < k, "wide");
    c.Note(n, "x", k, " by ", k, "x", m);
    Mat x = Mk(a, n, k), y = Mk(b, k, m);
    Rows want = MulR(a, b, n, k, m);
    PBT_T(Is(tm::MulMatMat(x, y), want, n, m), "MulMatMat");
    PBT_T(Is(tm::MulMatMatSerial(x, y), want, n, m), "MulMatMatSerial");
    PBT_T(Is(Mat(x * y), want, n, m), "Eigen product");
    RMat rx = x, ry = y;
    PBT_T(Is(tm::MulMatMat(rx, y), want, n, m), "MulMatMat row-major");
    PBT_T(Is(tm::MulMatMatSerial(x, ry), want, n, m), "MulMatMatSerial row-major");
    PBT_T(Is(tm::MulMatMat(Mat(y.transpose()), Mat(x.transpose())).transpose().eval(),
             want, n, m),
          "transposed");
    if (m) {
      size_t j = c.Draw(m - 1);
      Rows col(n, V(1));
      for (size_t i = 0; i < n; ++i) col[i][0] = want[i][j];
      tm::Vector<F> v = y.col(j);
      tm::RowVector<F> rv = v.transpose();
      PBT_T(Is(tm::MulMatVec(x, v), col, n, 1), "MulMatVec");
      PBT_T(Is(tm::MulMatVecSerial(x, v), col, n, 1), "MulMatVecSerial");
      PBT_T(Is(tm::MulMatVec(x, rv), col, n, 1), "MulMatVec row vector");
      PBT_T(Is(tm::MulMatVecSerial(x, rv), col, n, 1), "MulMatVecSerial row vector");
      PBT_T(Is(tm::MulMatVec(x, y.col(j)), col, n, 1), "MulMatVec column block");
      PBT_T(Is(tm::MulMatVecSerial(x, y.col(j)), col, n, 1), "MulMatVecSerial block");
      Mat yt = y.transpose();
      PBT_T(Is(tm::MulMatVec(x, yt.row(j)), col, n, 1), "MulMatVec row block");
      PBT_T(Is(tm::MulMatVecSerial(x, yt.row(j)), col, n, 1), "MulMatVecSerial row block");
      PBT_T(Is(tm::Vector<F>(x * v), col, n, 1), "Eigen matrix times vector");
    }
    PBT_T(Is(tm::Map(x), a, n, k), "Map");
    PBT_T(Is(tm::Map(const_cast<const Mat&>(x)), a, n, k), "Map const");
    PBT_T(Is(tm::Map(rx), a, n, k), "Map row-major");
  }

  // Laplace-free: elimination on rows.
  static F Det(Rows a) {
    F d = F::One();
    size_t n = a.size();
    for (size_t i = 0; i < n; ++i) {
      size_t p = i;
      while (p < n && a[p][i].IsZero()) ++p;
      if (p == n) return F::Zero();
      if (p != i) {
        std::swap(a[p], a[i]);
        d = -d;
      }
      d = d * a[i][i];
      F inv = *a[i][i].Inverse();
      for (size_t r = i + 1; r < n; ++r) {
        F f = a[r][i] * inv;
        for (size_t k = i; k < n; ++k) a[r][k] = a[r][k] - f * a[i][k];
      }
    }
    return d;
  }
  static void Inverse(Case& c) {
    size_t n = 1 + c.Draw(9);
    Rows a = AnyRows(c, n, n);
    if (c.OneIn(5) && n > 1) a[n - 1] = a[0];
    F d = Det(a);
    c.LabelIf(d.IsZero(), "singular");
    c.Nontrivial(n > 1 && !d.IsZero());
    Mat x = Mk(a, n, n);
    PBT_T(x.determinant() == d, "determinant");
    if (!d.IsZero()) {
      Mat inv = x.inverse();
      PBT_T(Mat(x * inv) == Mat::Identity(n, n) && Mat(inv * x) == Mat::Identity(n, n),
            "inverse");
    }
  }

  static void Circulant(Case& c) {
    size_t n = 1 + c.Draw(c.OneIn(6) ? 60 : 9);
    Rows r = AnyRows(c, 1, n);
    c.Nontrivial(n > 2);
    tm::Vector<F> v(n);
    for (size_t i = 0; i < n; ++i) v[i] = r[0][i];
    Rows want(n, V(n));
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < n; ++j) want[i][j] = r[0][(i + n - j) % n];
    Mat got = tm::MakeCirculant(v);
    PBT_T(Is(got, want, n, n), "MakeCirculant");
  }

  static void Reverse(Case& c) {
    size_t log = c.Draw(c.OneIn(6) ? 9 : 4), n = size_t{1} << log;
    size_t m = Dim(c);
    Rows a = AnyRows(c, n, m);
    c.Nontrivial(log > 1 && m > 1);
    c.Note(n, "x", m);
    RMat x = Mk<RMat>(a, n, m);
    Rows want(n);
    for (size_t i = 0; i < n; ++i) {
      size_t k = 0;
      for (size_t b = 0; b < log; ++b) k |= ((i >> b) & 1) << (log - 1 - b);
      want[k] = a[i];
    }
    tm::ReverseMatrixIndexBits(x);
    PBT_T(Is(x, want, n, m), "ReverseMatrixIndexBits");
    tm::ReverseMatrixIndexBits(x);
    PBT_T(Is(x, a, n, m), "twice");
    auto map = tm::Map(x);
    tm::ReverseMatrixIndexBits(map);
    PBT_T(Is(x, want, n, m), "on a map");
  }

  static void Serialise(Case& c) {
    size_t n = c.Draw(9), m = c.Draw(9);
    Rows a = AnyRows(c, n, m);
    c.Nontrivial(n > 1 && m > 1);
    Mat x = Mk(a, n, m);
    auto trip = [&](const auto& v, auto out, const char* tag) {
      using T = std::decay_t<decltype(v)>;
      tachyon::base::Uint8VectorBuffer b;
      PBT_T(b.Grow(tachyon::base::EstimateSize(v)), "Grow");
      PBT_T(b.Write(v), tag);
      PBT_T(b.buffer_offset() == tachyon::base::EstimateSize(v), "EstimateSize");
      b.set_buffer_offset(0);
      PBT_T(b.Read(&out), tag);
      PBT_T(out.rows() == v.rows() && out.cols() == v.cols(), tag);
      if constexpr (std::is_same_v<T, tm::DiagonalMatrix<F>>) {
        PBT_T(out.diagonal() == v.diagonal(), tag);
      } else {
        PBT_T(out == v, tag);
      }
      size_t len = b.buffer_offset();
      if (len) {  // truncated: refused, the target keeps its value
        size_t cut = c.Draw(len - 1);
        tachyon::base::ReadOnlyBuffer ro(b.buffer(), cut);
        auto keep = out;
        PBT_T(!ro.Read(&keep), "truncated accepted");
        PBT_T(keep.rows() == out.rows() && keep.cols() == out.cols(), "truncated");
      }
    };
    RMat rx = x;
    trip(x, Mat(Mat::Constant(2, 3, F::One())), "matrix");
    trip(rx, RMat(), "row-major matrix");
    if (n) {
      tm::Vector<F> v(n);
      for (size_t i = 0; i < n; ++i) v[i] = m ? a[i][0] : F::One();
      trip(v, tm::Vector<F>(), "vector");
      trip(tm::RowVector<F>(v.transpose()), tm::RowVector<F>(), "row vector");
      trip(tm::DiagonalMatrix<F>(v), tm::DiagonalMatrix<F>(), "diagonal matrix");
    }
    tm::Matrix<F, 3, 2> fixed;
    Rows fr = AnyRows(c, 3, 2);
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 2; ++j) fixed(i, j) = fr[i][j];
    trip(fixed, tm::Matrix<F, 3, 2>(), "fixed matrix");
    {  // a matrix of another shape does not fit a fixed one
      tachyon::base::Uint8VectorBuffer b;
      PBT_T(b.Grow(tachyon::base::EstimateSize(x)) && b.Write(x), "write");
      b.set_buffer_offset(0);
      tm::Matrix<F, 3, 2> into;
      bool ok = b.Read(&into);
      PBT_T(ok == (n == 3 && m == 2), "shape mismatch");
    }
  }
};

using Ext = tm::BabyBear4;
using Base = tm::BabyBear;
using Packed = tm::PackedBabyBear;

void PackHorizontal(Case& c) {
  size_t n = 1 + c.Draw(5), m = c.OneIn(5) ? 1 + c.Draw(70) : 1 + c.Draw(20);
  auto a = D<Base>::AnyRows(c, n, m);
  c.Nontrivial(m > 1);
  c.LabelIf(m % Packed::N != 0, "padded");
  auto x = D<Base>::Mk<tm::RowMajorMatrix<Base>>(a, n, m);
  auto y = D<Base>::Mk<tm::ColMajorMatrix<Base>>(a, n, m);
  size_t r = c.Draw(n - 1);
  auto check = [&](const std::vector<Packed>& p) {
    PBT_T(p.size() == (m + Packed::N - 1) / Packed::N, "size");
    for (size_t i = 0; i < p.size() * Packed::N; ++i)
      PBT_TM(p[i / Packed::N][i % Packed::N] == (i < m ? a[r][i] : Base::Zero()),
             "PackRowHorizontallyPadded", i << " of " << m);
  };
  check(tm::PackRowHorizontallyPadded(x.row(r)));
  check(tm::PackRowHorizontallyPadded(y.row(r)));
}

template <typename F>
void PackVertical(Case& c) {
  size_t n = 1 + c.Draw(c.OneIn(4) ? 70 : 20), m = 1 + c.Draw(6);
  auto a = D<F>::AnyRows(c, n, m);
  size_t r = c.Draw(n + 2);
  c.Nontrivial(n > 1);
  c.LabelIf(r + Packed::N > n, "wraps around");
  c.Note(n, "x", m, " from row ", r);
  auto x = D<F>::template Mk<tm::RowMajorMatrix<F>>(a, n, m);
  auto p = tm::PackRowVertically<Packed>(x, r);
  constexpr size_t d = std::is_same_v<F, Ext> ? 4 : 1;
  PBT_T(p.size() == m * d, "size");
  for (size_t k = 0; k < p.size(); ++k)
    for (size_t i = 0; i < Packed::N; ++i) {
      if constexpr (d == 4) {
        PBT_T(p[k][i] == a[(r + i) % n][k / 4][k % 4], "PackRowVertically ext");
      } else {
        PBT_T(p[k][i] == a[(r + i) % n][k], "PackRowVertically");
      }
    }
}

void DotPowers(Case& c) {
  size_t n = c.Draw(12), m = 1 + c.Draw(c.OneIn(4) ? 70 : 20);
  auto a = D<Base>::AnyRows(c, n, m);
  Rng r = c.Bulk();
  Ext b = c.OneIn(6) ? Ext::Zero() : D<Ext>::Any(r);
  c.Nontrivial(n > 0 && m > 1 && !b.IsZero());
  auto x = D<Base>::Mk<tm::RowMajorMatrix<Base>>(a, n, m);
  std::vector<Ext> got = tm::DotExtPowers(x, b);
  PBT_T(got.size() == n, "size");
  for (size_t i = 0; i < n; ++i) {
    Ext want = Ext::Zero();
    for (size_t j = m; j-- > 0;) want = want * b + Ext(a[i][j]);
    PBT_TM(got[i] == want, "DotExtPowers", n << "x" << m);
  }
}

void Split(Case& c) {
  size_t n = 1 + c.Draw(20), m = 1 + c.Draw(6), k = 1 + c.Draw(n - 1);
  auto a = D<Base>::AnyRows(c, n, m);
  c.Nontrivial(n > 1);
  tm::Matrix<Base> x = D<Base>::Mk(a, n, m);
  auto s = tm::SplitMat(k, x);
  PBT_T(s.size() == k, "number of blocks");
  for (size_t i = 0; i < k; ++i) {
    PBT_T(static_cast<size_t>(s[i].rows()) == n - k + 1 &&
              static_cast<size_t>(s[i].cols()) == m,
          "block size");
    for (size_t r = 0; r < n - k + 1; ++r)
      for (size_t j = 0; j < m; ++j)
        PBT_T(s[i](r, j) == a[i + r][j], "SplitMat");
  }
}

template <typename F>
void Reg(const std::string& n) {
  RegisterBeforeCase([](uint64_t) { F::Init(); });
  Register("dense." + n + ".mul", 100, 10000, D<F>::Mul);
  Register("dense." + n + ".reverse", 60, 6000, D<F>::Reverse);
  Register("dense." + n + ".circulant", 60, 6000, D<F>::Circulant);
  Register("dense." + n + ".serialise", 100, 10000, D<F>::Serialise);
}

void RegisterAll() {
  RegisterBeforeCase([](uint64_t) {
    Base::Init();
    Ext::Init();
    Packed::Init();
    tm::PackedBabyBear4::Init();
  });
  Reg<tm::GF7>("gf7");
  Reg<Base>("baby_bear");
  Reg<tm::bn254::Fr>("bn254_fr");
  Reg<Ext>("baby_bear4");
  Register("dense.gf7.inverse", 60, 6000, D<tm::GF7>::Inverse);
  Register("dense.bn254_fr.inverse", 60, 6000, D<tm::bn254::Fr>::Inverse);
  Register("pack.horizontal", 100, 10000, PackHorizontal);
  Register("pack.vertical", 100, 10000, PackVertical<Base>);
  Register("pack.vertical_ext", 100, 10000, PackVertical<Ext>);
  Register("pack.dot_ext_powers", 100, 10000, DotPowers);
  Register("pack.split", 100, 10000, Split);
}
PBT_INIT(RegisterAll);
}  // namespace
