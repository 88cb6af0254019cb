// C17: the two-adic FRI commitment and its domains.
#include <array>
#include <memory>
#include <sstream>
#include <utility>
#include <vector>

#include "tachyon/base/buffer/vector_buffer.h"
#include "tachyon/crypto/challenger/duplex_challenger.h"
#include "tachyon/crypto/commitments/fri/fri_config.h"
#include "tachyon/crypto/commitments/fri/two_adic_fri.h"
#include "tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h"
#include "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/extension_field_merkle_tree_mmcs.h"
#include "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h"
#include "tachyon/crypto/hashes/sponge/padding_free_sponge.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_koala_bear.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2_params.h"
#include "tachyon/crypto/hashes/sponge/truncated_permutation.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"
#include "tachyon/math/finite_fields/baby_bear/packed_baby_bear4.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear4.h"
#include "tachyon/math/finite_fields/koala_bear/packed_koala_bear4.h"

#include "verif/merkle/toy.h"
#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace {
using namespace pbt;  // NOLINT
namespace tb = tachyon::base;
namespace tc = tachyon::crypto;
namespace tm = tachyon::math;

template <typename F, int Alpha>
using P2 = tc::Poseidon2Sponge<tc::Poseidon2Params<
    tc::Poseidon2Vendor::kPlonky3, tc::Poseidon2Vendor::kPlonky3, F, 15, Alpha>>;

template <typename F_, typename ExtF_, int Alpha>
struct ToyKit {
  using F = F_;
  using ExtF = ExtF_;
  using Pk = typename tm::PackedFieldTraits<F>::PackedField;
  static constexpr size_t kN = 3;
  using H = ToyHasher<F, kN>;
  using PH = ToyHasher<Pk, kN>;
  using C = ToyCompressor<F, kN>;
  using PC = ToyCompressor<Pk, kN>;
  using Challenger = tc::DuplexChallenger<P2<F, Alpha>, 8>;
};

template <typename F_, typename ExtF_, int Alpha>
struct RealKit {
  using F = F_;
  using ExtF = ExtF_;
  using Pk = typename tm::PackedFieldTraits<F>::PackedField;
  static constexpr size_t kN = 8;
  using H = tc::PaddingFreeSponge<P2<F, Alpha>, 8, 8>;
  using PH = tc::PaddingFreeSponge<P2<Pk, Alpha>, 8, 8>;
  using C = tc::TruncatedPermutation<P2<F, Alpha>, 8, 2>;
  using PC = tc::TruncatedPermutation<P2<Pk, Alpha>, 8, 2>;
  using Challenger = tc::DuplexChallenger<P2<F, Alpha>, 8>;
};

template <typename F>
F Generator() {
  return F::FromMontgomery(F::Config::kSubgroupGenerator);
}

template <typename K>
void InitAll() {
  static bool init = [] {
    K::F::Init();
    K::ExtF::Init();
    K::Pk::Init();
    tm::ExtendedPackedFieldTraits<typename K::ExtF>::ExtendedPackedField::Init();
    return true;
  }();
  (void)init;
}

template <typename ExtF>
ExtF AnyExt(Case& c) {
  ExtF v = ExtF::Zero();
  for (size_t i = 0; i < 4; ++i) v[i] = AnyPrimeField<typename ExtF::BasePrimeField>(c);
  return v;
}
template <typename ExtF>
ExtF BulkExt(Rng& r) {
  ExtF v = ExtF::Zero();
  for (size_t i = 0; i < 4; ++i) v[i] = BulkPrimeField<typename ExtF::BasePrimeField>(r);
  return v;
}
template <typename ExtF>
void BumpExt(Case& c, ExtF* v) {
  (*v)[c.Draw(3)] += NonZeroPrimeField<typename ExtF::BasePrimeField>(c);
}

// The value at |z| of the polynomial which is |ys| on s * <w>.
template <typename F, typename ExtF>
ExtF Lagrange(const std::vector<F>& ys, F s, F w, const ExtF& z) {
  ExtF sum = ExtF::Zero();
  F x = s;
  ExtF all = ExtF::One();
  F sn = F::One();
  for (size_t i = 0; i < ys.size(); ++i) {
    all *= z;
    sn *= s;
  }
  all -= ExtF(sn);  // zⁿ - sⁿ
  // Lᵢ(z) = (zⁿ - sⁿ) xᵢ / (n sⁿ (z - xᵢ))
  for (const F& y : ys) {
    ExtF d = z - ExtF(x);
    if (d.IsZero()) return ExtF(y);
    sum += ExtF(y * x) * *d.Inverse();
    x *= w;
  }
  F n(static_cast<uint32_t>(ys.size()));
  return sum * all * ExtF(*(n * sn).Inverse());
}

template <typename K>
struct Fri {
  using F = typename K::F;
  using ExtF = typename K::ExtF;
  using MMCS = tc::FieldMerkleTreeMMCS<F, typename K::H, typename K::PH, typename K::C,
                                       typename K::PC, K::kN>;
  using ExtMMCS = tc::FieldMerkleTreeMMCS<ExtF, typename K::H, typename K::PH,
                                          typename K::C, typename K::PC, K::kN>;
  using ChMMCS = tc::ExtensionFieldMerkleTreeMMCS<ExtF, ExtMMCS>;
  using Challenger = typename K::Challenger;
  using PCS = tc::TwoAdicFRI<ExtF, MMCS, ChMMCS, Challenger>;
  using Coset = tc::TwoAdicMultiplicativeCoset<F>;
  using M = tm::RowMajorMatrix<F>;
  using Commitment = typename MMCS::Commitment;
  using Data = typename MMCS::ProverData;
  using Proof = tc::FRIProof<PCS>;
  using Values = typename PCS::OpenedValues;
  using Points = typename PCS::OpeningPoints;

  struct Kit {
    typename K::H h;
    typename K::PH ph;
    typename K::C c;
    typename K::PC pc;
    MMCS mmcs{h, ph, c, pc};
    ExtMMCS ext{h, ph, c, pc};
    Challenger challenger;
  };
  static Kit& Get() {
    static Kit* k = (InitAll<K>(), new Kit());
    return *k;
  }
  static PCS Make(uint32_t blowup, size_t queries, size_t pow) {
    Kit& k = Get();
    MMCS mmcs = k.mmcs;
    ExtMMCS ext = k.ext;
    return PCS(std::move(mmcs), tc::FRIConfig<ChMMCS>{blowup, queries, pow,
                                                      ChMMCS(std::move(ext))});
  }

  static void Run(Case& c) {
    Kit& kit = Get();
    uint32_t blowup = c.Draw(3);
    bool low = !c.OneIn(8);  // degrees are low
    if (!low && blowup == 0) blowup = 1;
    size_t queries = low ? 1 + c.Draw(c.OneIn(3) ? 11 : 3) : 40;
    size_t pow = c.Draw(6);
    PCS pcs = Make(blowup, queries, pow);
    size_t rounds = 1 + (c.OneIn(2) ? c.Draw(2) : 0);
    uint32_t max_log = c.OneIn(4) ? 6 : 4;

    Challenger base = kit.challenger;
    for (size_t i = c.Draw(9); i > 0; --i) base.Observe(AnyPrimeField<F>(c));
    Rng r = c.Bulk();
    std::vector<std::vector<Coset>> domains(rounds);
    std::vector<std::vector<M>> mats(rounds);
    std::vector<Commitment> commits(rounds);
    std::vector<std::unique_ptr<Data>> data(rounds);
    std::ostringstream note;
    note << "blowup " << blowup << " queries " << queries << " pow " << pow << ":";
    size_t total = 0;
    uint32_t top = 0;
    bool any_one = false, different = false;
    for (size_t i = 0; i < rounds; ++i) {
      size_t count = 1 + c.Draw(c.OneIn(3) ? 4 : 2);
      note << " [";
      for (size_t j = 0; j < count; ++j) {
        uint32_t log = c.OneIn(6) ? 0 : 1 + c.Draw(max_log - 1);
        if (!low) log = 3 + c.Draw(2);
        different |= total && log != top;
        top = std::max(top, log);
        any_one |= log == 0;
        size_t cols = 1 + c.Draw(c.OneIn(4) ? 9 : 3);
        if (c.OneIn(3)) {
          F s = c.Bool() ? Generator<F>() * Generator<F>() : NonZeroPrimeField<F>(c);
          domains[i].push_back(Coset(log, s));
        } else {
          domains[i].push_back(pcs.GetNaturalDomainForDegree(size_t{1} << log));
        }
        M m(1 << log, cols);
        int how = c.Draw(5);
        for (Eigen::Index a = 0; a < m.rows(); ++a)
          for (Eigen::Index b = 0; b < m.cols(); ++b)
            m(a, b) = how == 0 ? F::Zero()
                      : how == 1 && a ? m(0, b)
                                      : BulkPrimeField<F>(r);
        mats[i].push_back(std::move(m));
        note << " " << (1 << log) << "x" << cols;
        ++total;
      }
      note << " ]";
    }
    c.LabelIf(any_one, "matrix of one row");
    c.LabelIf(different, "different heights");
    c.LabelIf(blowup == 0, "no blowup");
    c.LabelIf(rounds > 1, "several rounds");
    c.Nontrivial(total > 1 || top > 2);
    for (size_t i = 0; i < rounds; ++i) {
      data[i].reset(new Data());
      if (low) {
        std::vector<M> copy = mats[i];
        PBT_T(pcs.Commit(domains[i], copy, &commits[i], data[i].get()), "commit");
      } else {
        std::vector<M> words;
        for (auto& m : mats[i]) {
          M w(m.rows() << blowup, m.cols());
          for (Eigen::Index a = 0; a < w.rows(); ++a)
            for (Eigen::Index b = 0; b < w.cols(); ++b) w(a, b) = F(static_cast<uint32_t>(r.Upto(F::Config::kModulus - 1)));
          words.push_back(std::move(w));
        }
        MMCS mmcs = kit.mmcs;
        PBT_T(mmcs.CommitOwned(std::move(words), &commits[i], data[i].get()), "commit");
      }
    }
    base.ObserveContainer2D(commits);

    // points off every committed coset
    std::vector<ExtF> pool;
    auto fresh = [&](bool challenge) {
      for (;;) {
        ExtF z = challenge ? base.template SampleExtElement<ExtF>() : AnyExt<ExtF>(c);
        if (!challenge && c.OneIn(4))
          for (size_t i = 1; i < 4; ++i) z[i] = F::Zero();
        if (!challenge && c.OneIn(8)) z = ExtF::One();
        ExtF u = z * *Generator<F>().Inverse();
        bool on = false;
        for (uint32_t i = 0; i <= top + blowup; ++i, u.SquareInPlace()) on |= u.IsOne();
        if (!on) return z;
        challenge = true;
      }
    };
    for (size_t i = 1 + c.Draw(2); i > 0; --i) pool.push_back(fresh(c.Bool()));
    Points points(rounds);
    bool opened = false;
    for (size_t i = 0; i < rounds; ++i) {
      for (size_t j = 0; j < mats[i].size(); ++j) {
        std::vector<ExtF> zs;
        size_t count = c.OneIn(8) && low ? 0 : 1 + c.Draw(2);
        for (size_t k = 0; k < count; ++k) {
          ExtF z = pool[c.Draw(pool.size() - 1)];
          if (c.OneIn(3)) {
            ExtF next = domains[i][j].GetNextPoint(z);
            ExtF u = next * *Generator<F>().Inverse();
            bool on = false;
            for (uint32_t t = 0; t <= top + blowup; ++t, u.SquareInPlace()) on |= u.IsOne();
            if (!on) z = next;
          }
          zs.push_back(z);
        }
        opened |= count;
        note << " @" << count;
        points[i].push_back(std::move(zs));
      }
    }
    c.Note(note.str());

    Challenger p = base;
    Values values;
    Proof proof;
    PBT_T(pcs.CreateOpeningProof(data, points, p, &values, &proof), "prove");
    PBT_T(values.size() == rounds, "opened values");
    if (low) {
      for (size_t i = 0; i < rounds; ++i) {
        PBT_T(values[i].size() == mats[i].size(), "opened values");
        for (size_t j = 0; j < mats[i].size(); ++j) {
          PBT_T(values[i][j].size() == points[i][j].size(), "opened values");
          auto* d = domains[i][j].domain();
          for (size_t k = 0; k < points[i][j].size(); ++k) {
            PBT_T(values[i][j][k].size() == size_t(mats[i][j].cols()), "opened values");
            for (Eigen::Index t = 0; t < mats[i][j].cols(); ++t) {
              std::vector<F> ys;
              for (Eigen::Index a = 0; a < mats[i][j].rows(); ++a) ys.push_back(mats[i][j](a, t));
              PBT_T(values[i][j][k][t] ==
                        Lagrange(ys, d->offset(), d->group_gen(), points[i][j][k]),
                    "opened value");
            }
          }
        }
      }
    }
    Challenger v = base;
    bool ok = pcs.VerifyOpeningProof(commits, domains, points, values, proof, v);
    if (!low) {
      if (opened) PBT_T(!ok, "reject high degree");
      c.Label("high degree");
      return;
    }
    PBT_T(ok, "verify");
    PBT_T(v.Sample() == p.Sample(), "challenges after the proof");
    if (c.OneIn(8)) {
      tb::Uint8VectorBuffer b;
      PBT_T(b.Grow(tb::EstimateSize(proof)), "grow");
      PBT_T(b.Write(proof) && b.Done(), "write");
      b.set_buffer_offset(0);
      Proof back;
      PBT_T(b.Read(&back), "read");
      PBT_T(back == proof, "proof read back");
      proof = std::move(back);
    }

    // one change
    for (int k = 0; k < 4; ++k) {
      auto commits2 = commits;
      auto points2 = points;
      Values values2 = values;
      Proof proof2 = proof;
      Challenger v2 = base;
      PCS* pcs2 = &pcs;
      PCS other;
      bool reject = true;
      const char* what = "";
      auto digest = [&](auto& d) { d[c.Draw(d.size() - 1)] += NonZeroPrimeField<F>(c); };
      auto path = [&](auto& o) {
        if (o.empty()) return false;
        digest(o[c.Draw(o.size() - 1)]);
        return true;
      };
      size_t i = c.Draw(rounds - 1);
      size_t j = c.Draw(mats[i].size() - 1);
      auto& query = proof2.query_proofs[c.Draw(queries - 1)];
      switch (c.Draw(10)) {
        case 0:
          what = "claimed value";
          if (points[i][j].empty()) {
            reject = false;
          } else {
            auto& ys = values2[i][j][c.Draw(points[i][j].size() - 1)];
            BumpExt(c, &ys[c.Draw(ys.size() - 1)]);
          }
          break;
        case 1:
          what = "commitment";
          digest(commits2[i]);
          break;
        case 2:
          what = "folded commitment";
          if (proof2.commit_phase_commits.empty()) {
            reject = false;
          } else {
            auto& cs = proof2.commit_phase_commits;
            digest(cs[c.Draw(cs.size() - 1)]);
          }
          break;
        case 3: {
          what = "query answer";
          auto& row = query.input_proof[i].opened_values[j];
          row[c.Draw(row.size() - 1)] += NonZeroPrimeField<F>(c);
          break;
        }
        case 4:
          what = "query path";
          reject = path(query.input_proof[i].opening_proof);
          break;
        case 5:
          what = "folded value";
          if (query.commit_phase_openings.empty()) {
            reject = false;
          } else {
            auto& o = query.commit_phase_openings;
            BumpExt(c, &o[c.Draw(o.size() - 1)].sibling_value);
          }
          break;
        case 6: {
          what = "folded path";
          auto& o = query.commit_phase_openings;
          reject = !o.empty() && path(o[c.Draw(o.size() - 1)].opening_proof);
          break;
        }
        case 7:
          what = "final value";
          BumpExt(c, &proof2.final_eval);
          break;
        case 8: {
          what = "proof of work";
          proof2.pow_witness += NonZeroPrimeField<F>(c);
          Challenger t = base;
          (void)t.template SampleExtElement<ExtF>();
          for (auto& commit : proof2.commit_phase_commits) {
            t.ObserveContainer(commit);
            (void)t.template SampleExtElement<ExtF>();
          }
          t.ObserveContainer(proof2.final_eval);
          t.Observe(proof2.pow_witness);
          reject = t.SampleBits(pow) != 0;
          break;
        }
        case 9: {
          what = "point";
          reject = false;
          if (points[i][j].empty()) break;
          ExtF z = fresh(false);
          points2[i][j][c.Draw(points[i][j].size() - 1)] = z;
          // a change if the values there are not those claimed
          for (size_t q = 0; q < points[i][j].size(); ++q) {
            for (Eigen::Index t = 0; t < mats[i][j].cols(); ++t) {
              std::vector<F> ys;
              for (Eigen::Index a = 0; a < mats[i][j].rows(); ++a) ys.push_back(mats[i][j](a, t));
              auto* d = domains[i][j].domain();
              reject |= values[i][j][q][t] !=
                        Lagrange(ys, d->offset(), d->group_gen(), points2[i][j][q]);
            }
          }
          break;
        }
        default: {
          what = "queries wanted";
          other = Make(blowup, queries + 1 + c.Draw(3), pow);
          pcs2 = &other;
        }
      }
      c.Label(reject ? what : "no real change");
      if (reject)
        PBT_TM(!pcs2->VerifyOpeningProof(commits2, domains, points2, values2, proof2, v2),
               "reject a change", what);
    }
  }

  static void Fold(Case& c) {
    Get();
    uint32_t log = c.Draw(6);
    size_t n = size_t{1} << log;  // rows
    Rng r = c.Bulk();
    std::vector<ExtF> coeffs(2 * n);
    for (auto& x : coeffs) x = BulkExt<ExtF>(r);
    if (c.OneIn(3))
      for (size_t i = c.Draw(2 * n - 1); i < 2 * n; ++i) coeffs[i] = ExtF::Zero();
    ExtF beta = AnyExt<ExtF>(c);
    c.Note(n);
    c.Nontrivial(n > 1);
    auto at = [](const std::vector<ExtF>& cs, const ExtF& x) {
      ExtF s = ExtF::Zero();
      for (size_t i = cs.size(); i-- > 0;) s = s * x + cs[i];
      return s;
    };
    F w;
    PBT_T(F::GetRootOfUnity(2 * n, &w), "root of unity");
    auto rev = [](size_t i, uint32_t bits) {
      size_t o = 0;
      for (uint32_t k = 0; k < bits; ++k) o |= (i >> k & 1) << (bits - 1 - k);
      return o;
    };
    tm::RowMajorMatrix<ExtF> m(n, 2);
    for (size_t i = 0; i < 2 * n; ++i)
      m(i / 2, i % 2) = at(coeffs, ExtF(w.Pow(rev(i, log + 1))));
    std::vector<ExtF> folded(n);
    for (size_t i = 0; i < n; ++i) folded[i] = coeffs[2 * i] + beta * coeffs[2 * i + 1];
    std::vector<ExtF> got = tc::FoldMatrix(beta, m);
    PBT_T(got.size() == n, "fold a matrix");
    for (size_t i = 0; i < n; ++i) {
      ExtF want = at(folded, ExtF(w.Pow(2 * rev(i, log))));
      PBT_TM(got[i] == want, "fold a matrix", "row " << i);
      PBT_TM(tc::FoldRow(i, log, beta, std::vector<ExtF>{m(i, 0), m(i, 1)}) == want,
             "fold a row", "row " << i);
    }
  }

  static void Domain(Case& c) {
    Get();
    uint32_t log = c.Draw(6);
    size_t n = size_t{1} << log;
    F s = c.OneIn(3) ? F::One() : NonZeroPrimeField<F>(c);
    Coset d(log, s);
    F w;
    PBT_T(F::GetRootOfUnity(n, &w), "root of unity");
    PBT_T(d.domain()->size() == n && d.domain()->offset() == s &&
              d.domain()->group_gen() == w,
          "coset");
    c.Note(n);
    c.Nontrivial(n > 2);
    std::vector<F> xs;
    F x = s;
    for (size_t i = 0; i < n; ++i, x *= w) xs.push_back(x);
    ExtF z = AnyExt<ExtF>(c);
    if (c.OneIn(4)) z = ExtF(xs[c.Draw(n - 1)]);
    bool on = false;
    for (auto& a : xs) on |= ExtF(a) == z;
    PBT_T(d.GetNextPoint(z) == z * ExtF(w), "next point");
    // Z(z) up to the scale that makes it (X / s)ⁿ - 1
    ExtF prod = ExtF::One();
    F sn = F::One();
    for (auto& a : xs) {
      prod *= z - ExtF(a);
      sn *= s;
    }
    ExtF zp = prod * ExtF(*sn.Inverse());
    PBT_T(d.GetZpAtPoint(z) == zp, "vanishing polynomial");
    if (!on) {
      tc::LagrangeSelectors<ExtF> sel = d.GetSelectorsAtPoint(z);
      ExtF u = z * ExtF(*s.Inverse());
      F wi = *w.Inverse();
      PBT_T(sel.first_row * (u - ExtF::One()) == zp, "first row at a point");
      PBT_T(sel.last_row * (u - ExtF(wi)) == zp, "last row at a point");
      PBT_T(sel.transition == u - ExtF(wi), "transition at a point");
      PBT_T(sel.inv_zeroifier * zp == ExtF::One(), "inverse at a point");
    }
    // a disjoint domain
    size_t min = 1 + c.Draw(4 * n - 1);
    Coset other = d.CreateDisjointDomain(min);
    size_t size = other.domain()->size();
    PBT_T(size >= min && (size == 1 || size / 2 < min), "size of a disjoint domain");
    F big;
    PBT_T(F::GetRootOfUnity(size, &big), "root of unity");
    PBT_T(other.domain()->group_gen() == big, "disjoint domain");
    x = other.domain()->offset();
    for (size_t i = 0; i < size; ++i, x *= big)
      PBT_T(!(x * *s.Inverse()).Pow(n).IsOne(), "disjoint domain");
    // split
    size_t parts = size_t{1} << c.Draw(log);
    auto split = d.SplitDomains(parts);
    PBT_T(split.size() == parts, "split");
    for (size_t i = 0; i < parts; ++i) {
      PBT_T(split[i].domain()->size() == n / parts, "split");
      x = split[i].domain()->offset();
      for (size_t j = 0; j < n / parts; ++j, x *= split[i].domain()->group_gen())
        PBT_TM(x == xs[(j * parts + i) % n], "split", "part " << i << " row " << j);
    }
    // selectors on a coset
    Coset trace(log, F::One());
    uint32_t added = c.Draw(3);
    F t = c.OneIn(3) ? Generator<F>() : NonZeroPrimeField<F>(c);
    size_t qn = n << added;
    if (t.Pow(qn).IsOne()) return;
    Coset q(log + added, t);
    auto sel = trace.GetSelectorsOnCoset(q);
    PBT_T(sel.first_row.size() == qn && sel.last_row.size() == qn &&
              sel.transition.size() == qn && sel.inv_zeroifier.size() == qn,
          "selectors");
    x = t;
    F wi = *w.Inverse();
    c.LabelIf(added > 0, "larger coset");
    for (size_t i = 0; i < qn; ++i, x *= q.domain()->group_gen()) {
      F zh = x.Pow(n) - F::One();
      PBT_TM(sel.first_row[i] * (x - F::One()) == zh, "first row", "row " << i);
      PBT_TM(sel.last_row[i] * (x - wi) == zh, "last row", "row " << i);
      PBT_TM(sel.transition[i] == x - wi, "transition", "row " << i);
      PBT_TM(sel.inv_zeroifier[i] * zh == F::One(), "inverse", "row " << i);
    }
  }
};

void RegisterAll() {
  using BT = Fri<ToyKit<tm::BabyBear, tm::BabyBear4, 7>>;
  using KT = Fri<ToyKit<tm::KoalaBear, tm::KoalaBear4, 7>>;
  using BR = Fri<RealKit<tm::BabyBear, tm::BabyBear4, 7>>;
  Register("two_adic.toy.baby_bear", 250, 3000, BT::Run);
  Register("two_adic.toy.koala_bear", 250, 3000, KT::Run);
  Register("two_adic.poseidon2.baby_bear", 30, 600, BR::Run);
  Register("fold.baby_bear", 200, 2000, BT::Fold);
  Register("fold.koala_bear", 200, 2000, KT::Fold);
  Register("domain.baby_bear", 200, 2000, BT::Domain);
  Register("domain.koala_bear", 200, 2000, KT::Domain);
}

}  // namespace
PBT_INIT(RegisterAll);
