// Hash configurations, commitment schemes, proofs.
#include "tachyon/c/zk/air/sp1/block.h"
#include "tachyon/crypto/commitments/fri/fri_proof.h"
#include "tachyon/crypto/commitments/kzg/gwc.h"
#include "tachyon/crypto/commitments/kzg/shplonk.h"
#include "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree.h"
#include "tachyon/crypto/commitments/pedersen/pedersen.h"
#include "tachyon/crypto/hashes/sponge/poseidon/poseidon.h"
#include "tachyon/crypto/hashes/sponge/poseidon/poseidon_params.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_bn254.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2_params.h"
#include "tachyon/crypto/sumcheck/multilinear/sumcheck_prover_msg.h"
#include "tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h"
#include "tachyon/crypto/sumcheck/multilinear/sumcheck_verifier_msg.h"
#include "tachyon/crypto/sumcheck/multilinear/sumcheck_verifying_key.h"
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"
#include "tachyon/math/finite_fields/baby_bear/packed_baby_bear4.h"
#include "tachyon/math/finite_fields/goldilocks/goldilocks.h"
#include "tachyon/math/polynomials/multivariate/multilinear_extension.h"

#include "verif/merkle/toy.h"
#include "verif/serial/mathgen.h"

namespace serial_pbt {
namespace {

namespace tc = tachyon::crypto;

using BN = tm::bn254::BN254Curve;
using G1 = BN::G1Curve::AffinePoint;
using G2 = BN::G2Curve::AffinePoint;
using Fr = tm::bn254::Fr;

// The types a commitment scheme's proofs are made of.
template <typename F, typename E>
struct Scheme {
  struct InputMMCS {
    using Field = F;
    using Proof = std::vector<std::array<F, 4>>;
  };
  struct ChallengeMMCS {
    using Field = E;
    using Commitment = std::array<F, 4>;
    using ProverData = std::vector<F>;
    using Proof = std::vector<std::array<F, 4>>;
  };
  using InputProof = std::vector<tc::BatchOpening<Scheme>>;
};

template <typename F>
struct SpongeParams {
  static auto Config(Rng& r) {
    using P = tc::PoseidonParams<F, 2, 5, 8, 3>;
    tc::PoseidonConfig<P> c;
    c.ark = AnyMatrix<tm::Matrix<F>>(r);
    c.mds = AnyMatrix<tm::Matrix<F>>(r);
    c.pre_sparse_mds = AnyMatrix<tm::Matrix<F>>(r);
    c.sparse_mds_matrices.resize(r.Upto(3));
    for (auto& m : c.sparse_mds_matrices) {
      size_t n = r.Upto(5);
      tm::Vector<F> row(n + 1), col(n);
      for (size_t i = 0; i <= n; ++i) row[i] = AnyField<F>(r);
      for (size_t i = 0; i < n; ++i) col[i] = AnyField<F>(r);
      m = tc::SparseMDSMatrix<F>(row, col);
    }
    return c;
  }
};

template <typename F>
void AddPoseidon(std::vector<Type>* t) {
  using P = tc::PoseidonParams<F, 2, 5, 8, 3>;
  using Config = tc::PoseidonConfig<P>;
  auto any = SpongeParams<F>::Config;
  t->push_back(Of<Config>("Poseidon configuration", any));
  t->push_back(Of<tc::PoseidonSponge<P>>(
      "Poseidon sponge", [any](Rng& r) { return tc::PoseidonSponge<P>(any(r)); }));
  t->push_back(Of<tc::SpongeState<P>>("sponge state", [](Rng& r) {
    tc::SpongeState<P> s;
    for (Eigen::Index i = 0; i < s.elements.size(); ++i) s.elements[i] = AnyField<F>(r);
    s.mode = r.Bool() ? tc::DuplexSpongeMode::Absorbing(r.Upto(9))
                      : tc::DuplexSpongeMode::Squeezing(r.Next());
    return s;
  }));
  t->push_back(Of<std::vector<tc::SparseMDSMatrix<F>>>("sparse MDS matrices", [any](Rng& r) {
                 return any(r).sparse_mds_matrices;
               }).Counted());
}

template <typename F, typename E>
void AddFRI(std::vector<Type>* t) {
  using S = Scheme<F, E>;
  auto digest = ArrayOf<4>(AnyField<F>);
  auto opening = [=](Rng& r) {
    tc::BatchOpening<S> o;
    o.opened_values = VectorOf(VectorOf(AnyField<F>))(r);
    o.opening_proof = VectorOf(digest)(r);
    return o;
  };
  auto step = [=](Rng& r) {
    tc::CommitPhaseProofStep<S> s;
    s.sibling_value = AnyField<E>(r);
    s.opening_proof = VectorOf(digest)(r);
    return s;
  };
  auto query = [=](Rng& r) {
    tc::QueryProof<S> q;
    for (size_t n = r.Upto(2); n > 0; --n) q.input_proof.push_back(opening(r));
    for (size_t n = r.Upto(3); n > 0; --n) q.commit_phase_openings.push_back(step(r));
    return q;
  };
  t->push_back(Of<tc::BatchOpening<S>>("batch opening", opening));
  t->push_back(Of<tc::CommitPhaseProofStep<S>>("commit phase step", step));
  t->push_back(Of<tc::QueryProof<S>>("query proof", query));
  t->push_back(Of<tc::CommitPhaseResult<S>>("commit phase result", [=](Rng& r) {
    tc::CommitPhaseResult<S> c;
    c.commits = VectorOf(digest)(r);
    c.data = VectorOf(VectorOf(AnyField<F>))(r);
    c.final_eval = AnyField<E>(r);
    return c;
  }));
  t->push_back(Of<tc::FRIProof<S>>("FRI proof", [=](Rng& r) {
    tc::FRIProof<S> p;
    p.commit_phase_commits = VectorOf(digest)(r);
    for (size_t n = r.Upto(3); n > 0; --n) p.query_proofs.push_back(query(r));
    p.final_eval = AnyField<E>(r);
    p.pow_witness = AnyField<F>(r);
    return p;
  }));
}

template <typename F>
void AddSumcheck(std::vector<Type>* t) {
  using Table = tm::MultilinearDenseEvaluations<F, 5>;
  using MLE = tm::MultilinearExtension<Table>;
  using Msg = tc::SumcheckProverMsg<F, 7>;
  using VMsg = tc::SumcheckVerifierMsg<F>;
  using Key = tc::SumcheckProvingKey<MLE>;
  t->push_back(Of<Msg>("sumcheck prover message", [](Rng& r) {
                 return Msg{tm::UnivariateEvaluations<F, 7>(AnyFields<F>(r, 1 + r.Upto(7)))};
               }).Counted());
  t->push_back(
      Of<VMsg>("sumcheck verifier message", [](Rng& r) { return VMsg{AnyField<F>(r)}; }));
  t->push_back(Of<Key>("sumcheck proving key", [](Rng& r) {
    Key k;
    k.verifying_key = {r.Upto(9), r.Next()};
    for (size_t n = r.Upto(3); n > 0; --n) {
      std::vector<size_t> v(r.Upto(4));
      for (size_t& x : v) x = r.Upto(8);
      k.terms.push_back({AnyField<F>(r), v});
    }
    size_t v = r.Upto(5);
    for (size_t n = r.Upto(3); n > 0; --n)
      k.flattened_ml_evaluations.push_back(
          MLE(Table(AnyFields<F>(r, size_t{1} << v))));
    return k;
  }));
}

std::vector<Type> Types() {
  BN::Init();
  tm::Goldilocks::Init();
  tm::BabyBear4::Init();
  tm::PackedBabyBear::Init();
  auto p1 = AnyAffine<BN::G1Curve>;
  auto p2 = AnyAffine<BN::G2Curve>;
  using KZG = tc::KZG<G1, 31, G1>;
  using GWC = tc::GWC<BN, 31, G1>;
  using SHPlonk = tc::SHPlonk<BN, 31, G1>;
  using Pedersen = tc::Pedersen<G1, 31, G1>;
  auto kzg = [p1](Rng& r) {
    size_t n = size_t{1} << r.Upto(4);
    std::vector<G1> a(n), b(n);
    for (G1& p : a) p = p1(r);
    for (G1& p : b) p = p1(r);
    return KZG(std::move(a), std::move(b));
  };
  auto same = [](const KZG& a, const KZG& b) {
    return a.g1_powers_of_tau() == b.g1_powers_of_tau() &&
           a.g1_powers_of_tau_lagrange() == b.g1_powers_of_tau_lagrange();
  };
  auto same2 = [same](const auto& a, const auto& b) {
    return same(a.kzg(), b.kzg()) && a.s_g2() == b.s_g2() && a.N() == b.N();
  };
  std::vector<Type> t = {
      Of<KZG>("KZG", kzg, same),
      Of<GWC>("GWC", [=](Rng& r) { return GWC(kzg(r), p2(r)); }, same2),
      Of<SHPlonk>("SHPlonk", [=](Rng& r) { return SHPlonk(kzg(r), p2(r)); }, same2),
      Of<Pedersen>("Pedersen",
                   [=](Rng& r) {
                     auto g = VectorOf(p1)(r);
                     if (g.size() > 31) g.resize(31);
                     return Pedersen(p1(r), std::move(g));
                   },
                   [](const Pedersen& a, const Pedersen& b) {
                     return a.h() == b.h() && a.generators() == b.generators();
                   }),
      Of<tc::DuplexSpongeMode>("duplex sponge mode",
                               [](Rng& r) {
                                 return r.Bool() ? tc::DuplexSpongeMode::Absorbing(r.Next())
                                                 : tc::DuplexSpongeMode::Squeezing(r.Upto(9));
                               }),
      Of<tc::SumcheckVerifyingKey>("sumcheck verifying key",
                                   [](Rng& r) {
                                     return tc::SumcheckVerifyingKey{r.Next(), r.Upto(9)};
                                   }),
      Of<tachyon::c::zk::air::sp1::Block<tm::BabyBear>>(
          "sp1 block",
          [](Rng& r) {
            return tachyon::c::zk::air::sp1::Block<tm::BabyBear>(
                ArrayOf<4>(AnyField<tm::BabyBear>)(r));
          },
          [](const auto& a, const auto& b) { return a.value() == b.value(); }),
  };
  {
    using F = tm::BabyBear;
    using Tree = tc::FieldMerkleTree<F, 4>;
    using Pk = tm::PackedBabyBear;
    t.push_back(Of<Tree>("Merkle tree", [](Rng& r) {
      std::vector<tm::RowMajorMatrix<F>> leaves;
      size_t rows = size_t{1} << r.Upto(4);
      for (size_t n = 1 + r.Upto(2); n > 0; --n) {
        tm::RowMajorMatrix<F> m(rows, 1 + r.Upto(4));
        for (Eigen::Index i = 0; i < m.size(); ++i) m.data()[i] = AnyField<F>(r);
        leaves.push_back(std::move(m));
        if (rows > 1 && r.Bool()) rows /= 2;
      }
      return Tree::BuildOwnedCpu(pbt::ToyHasher<F, 4>(), pbt::ToyHasher<Pk, 4>(),
                                 pbt::ToyCompressor<F, 4>(), pbt::ToyCompressor<Pk, 4>(),
                                 std::move(leaves));
    }));
  }
  {
    constexpr auto kH = tc::Poseidon2Vendor::kHorizen;
    using P = tc::Poseidon2Params<kH, kH, Fr, 2, 5>;
    using Config = tc::Poseidon2Config<P>;
    auto any = [](Rng& r) {
      Config c;
      c.ark = AnyMatrix<tm::Matrix<Fr>>(r);
      c.internal_diagonal_minus_one = AnyMatrix<tm::Vector<Fr>>(r);
      c.internal_shifts.resize(r.Upto(5));
      for (Eigen::Index i = 0; i < c.internal_shifts.size(); ++i)
        c.internal_shifts[i] = static_cast<uint8_t>(r.Next());
      return c;
    };
    t.push_back(Of<Config>("Poseidon2 configuration", any));
    t.push_back(Of<tc::Poseidon2Sponge<P>>(
        "Poseidon2 sponge", [any](Rng& r) { return tc::Poseidon2Sponge<P>(any(r)); }));
  }
  AddPoseidon<Fr>(&t);
  AddPoseidon<tm::BabyBear>(&t);
  AddFRI<tm::BabyBear, tm::BabyBear4>(&t);
  AddFRI<tm::Goldilocks, tm::Goldilocks>(&t);
  AddSumcheck<Fr>(&t);
  AddSumcheck<tm::BabyBear4>(&t);
  return t;
}

void RegisterAll() {
  RegisterTypes(
      "crypto", 4, Types,
      [](Rng& r) { SetMontgomery<Fr, tm::bn254::Fq, tm::BabyBear, tm::Goldilocks>(r.Upto(2) == 0); },
      [] { SetMontgomery<Fr, tm::bn254::Fq, tm::BabyBear, tm::Goldilocks>(false); });
}
PBT_INIT(RegisterAll);

}  // namespace
}  // namespace serial_pbt
