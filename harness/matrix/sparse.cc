// C14: sparse matrices.
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <utility>
#include <vector>

#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/test/gf7.h"
#include "tachyon/math/matrix/matrix_types.h"
#include "tachyon/math/matrix/sparse/sparse_matrix.h"

#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace {
using namespace pbt;  // NOLINT
namespace tm = tachyon::math;

template <typename F>
struct Sp {
  using Ell = tm::ELLSparseMatrix<F>;
  using Csr = tm::CSRSparseMatrix<F>;
  using Rows = std::vector<std::map<size_t, F>>;  // the matrix

  static F Value(Rng& r) {
    if (r.Upto(3) == 0) return F(1 + r.Upto(4));
    return BulkPrimeField<F>(r);
  }
  // Rows with the columns in any order; empty rows at every place.
  static Rows Any(Case& c, std::vector<std::vector<size_t>>* order) {
    size_t rows = c.Draw(c.OneIn(6) ? 60 : 8);
    size_t cols = 1 + c.Draw(c.OneIn(6) ? 60 : 7);
    Rng r = c.Bulk();
    int mode = c.Draw(3);  // sparse, dense, few rows, only one entry
    static const char* kModes[] = {"sparse", "dense", "empty rows", "one entry"};
    c.Label(kModes[mode]);
    Rows m(rows);
    order->assign(rows, {});
    for (size_t i = 0; i < rows; ++i) {
      if (mode == 2 && r.Upto(1)) continue;
      for (size_t j = 0; j < cols; ++j) {
        if (mode != 1 && r.Upto(3)) continue;
        m[i][j] = Value(r);
        (*order)[i].push_back(j);
      }
    }
    if (mode == 3) {
      for (auto& x : m) x.clear();
      for (auto& x : *order) x.clear();
      if (rows) {
        size_t i = r.Upto(rows - 1), j = r.Upto(cols - 1);
        m[i][j] = Value(r);
        (*order)[i].push_back(j);
      }
    }
    return m;
  }
  static size_t Cols(const Rows& m) {
    size_t n = 0;
    for (const auto& r : m)
      for (const auto& [j, v] : r) n = std::max(n, j + 1);
    return n;
  }
  static size_t Count(const Rows& m) {
    size_t n = 0;
    for (const auto& r : m) n += r.size();
    return n;
  }
  static Ell MkEll(const Rows& m, const std::vector<std::vector<size_t>>& order) {
    std::vector<typename Ell::Elements> l(m.size());
    for (size_t i = 0; i < m.size(); ++i)
      for (size_t j : order[i]) l[i].push_back({j, m[i].at(j)});
    return Ell(std::move(l));
  }
  static Csr MkCsr(const Rows& m, const std::vector<std::vector<size_t>>& order) {
    typename Csr::Elements e;
    std::vector<size_t> p{0};
    for (size_t i = 0; i < m.size(); ++i) {
      for (size_t j : order[i]) e.push_back({j, m[i].at(j)});
      p.push_back(e.size());
    }
    return Csr(std::move(e), std::move(p));
  }
  static Rows From(const Ell& m) {
    auto d = m.GetData();
    auto k = m.GetColumnIndices();
    Rows r(d.size());
    for (size_t i = 0; i < d.size(); ++i)
      for (size_t j = 0; j < d[i].size(); ++j) r[i][k[i][j]] = d[i][j];
    return r;
  }
  static Rows From(const Csr& m) {
    auto d = m.GetData();
    auto k = m.GetColumnIndices();
    Rows r(m.MaxRows());
    for (size_t i = 0; i + 1 < m.row_ptrs().size(); ++i)
      for (size_t j = m.row_ptrs()[i]; j < m.row_ptrs()[i + 1]; ++j)
        r[i][k.at(j)] = d.at(j);
    return r;
  }
  template <typename E>
  static Rows FromEigen(const E& m) {
    Rows r(m.rows());
    for (int i = 0; i < m.rows(); ++i)
      for (int j = 0; j < m.cols(); ++j) {
        F v = m.coeff(i, j);
        if (!v.IsZero()) r[i][j] = v;
      }
    return r;
  }
  static Rows NonZero(Rows m) {
    for (auto& r : m)
      for (auto it = r.begin(); it != r.end();)
        it = it->second.IsZero() ? r.erase(it) : std::next(it);
    return m;
  }

  static void Convert(Case& c) {
    std::vector<std::vector<size_t>> order;
    Rows m = Any(c, &order);
    c.Nontrivial(Count(m) >= 2 && m.size() >= 2);
    c.Note(m.size(), " rows, ", Count(m), " entries");
    bool shuffled = c.Bool();
    if (shuffled) {
      Rng r = c.Bulk();
      for (auto& o : order)
        for (size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[r.Upto(i - 1)]);
    }
    c.LabelIf(shuffled, "unsorted");
    bool empty = false, is_sorted = true;
    for (const auto& r : m) empty |= r.empty();
    for (const auto& o : order) is_sorted &= std::is_sorted(o.begin(), o.end());
    c.LabelIf(empty, "an empty row");
    Ell e = MkEll(m, order);
    Csr s = MkCsr(m, order);
    PBT_T(From(e) == m, "ELL entries");
    PBT_T(From(s) == m, "CSR entries");
    PBT_T(e.IsSorted() == is_sorted, "ELL IsSorted");
    PBT_T(s.IsSorted() == is_sorted, "CSR IsSorted");
    PBT_T(e.MaxRows() == m.size() && s.MaxRows() == m.size(), "rows");
    PBT_T(e.NonZeros() == Count(m) && s.NonZeros() == Count(m), "NonZeros");
    e.Sort();
    s.Sort();
    PBT_T(e.IsSorted() && s.IsSorted(), "Sort");
    PBT_T(From(e) == m, "ELL entries sorted");
    PBT_T(From(s) == m, "CSR entries sorted");
    PBT_T(e.MaxCols() == Cols(m), "ELL cols");
    PBT_T(s.MaxCols() == Cols(m), "CSR cols");
    PBT_T(e.ToCSR() == s, "ToCSR");
    PBT_T(s.ToELL() == e, "ToELL");
    PBT_T(Csr::FromELL(e) == s && Ell::FromCSR(s) == e, "From");
    PBT_T(!(e.ToCSR() != s) && !(s.ToELL() != e), "!=");
    Rows nz = NonZero(m);
    auto ee = e.ToEigenSparseMatrix();
    auto se = s.ToEigenSparseMatrix();
    PBT_T(FromEigen(ee) == nz, "ELL to Eigen");
    PBT_T(FromEigen(se) == nz, "CSR to Eigen");
    PBT_T(static_cast<size_t>(ee.rows()) == m.size() &&
              static_cast<size_t>(se.rows()) == m.size(),
          "Eigen rows");
    PBT_T(static_cast<size_t>(ee.cols()) == Cols(m) &&
              static_cast<size_t>(se.cols()) == Cols(m),
          "Eigen cols");
    PBT_T(From(Ell::FromEigenSparseMatrix(ee)) == m, "ELL from Eigen");
    PBT_T(From(Csr::FromEigenSparseMatrix(se)) == m, "CSR from Eigen");
    Eigen::SparseMatrix<F, Eigen::RowMajor> rm = ee;
    PBT_T(From(Ell::FromEigenSparseMatrix(rm)) == m, "ELL from row-major Eigen");
    PBT_T(From(Csr::FromEigenSparseMatrix(rm)) == m, "CSR from row-major Eigen");
    // one entry changed, moved or dropped is another matrix
    if (Count(m)) {
      Rows d = m;
      size_t i = 0;
      while (d[i].empty()) ++i;
      auto it = d[i].begin();
      int how = c.Draw(2);
      if (how == 0) {
        it->second += F::One();
      } else if (how == 1) {
        F v = it->second;
        d[i].erase(it);
        d[i][70] = v;
      } else {
        d[i].erase(it);
      }
      std::vector<std::vector<size_t>> o(d.size());
      for (size_t x = 0; x < d.size(); ++x)
        for (const auto& [j, v] : d[x]) o[x].push_back(j);
      PBT_T(MkEll(d, o) != e && !(MkEll(d, o) == e), "ELL equal to another");
      PBT_T(MkCsr(d, o) != s && !(MkCsr(d, o) == s), "CSR equal to another");
    }
  }
};

void RegisterAll() {
  RegisterBeforeCase([](uint64_t) {
    tm::GF7::Init();
    tm::BabyBear::Init();
    tm::bn254::Fr::Init();
  });
  Register("sparse.gf7", 300, 30000, Sp<tm::GF7>::Convert);
  Register("sparse.baby_bear", 300, 30000, Sp<tm::BabyBear>::Convert);
  Register("sparse.bn254_fr", 300, 30000, Sp<tm::bn254::Fr>::Convert);
}
PBT_INIT(RegisterAll);
}  // namespace
