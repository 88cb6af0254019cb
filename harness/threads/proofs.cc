// Trees, commitments and whole proofs.
#include <string>
#include <vector>

#include "tachyon/base/buffer/vector_buffer.h"
#include "tachyon/crypto/challenger/duplex_challenger.h"
#include "tachyon/crypto/commitments/fri/fri_config.h"
#include "tachyon/crypto/commitments/fri/two_adic_fri.h"
#include "tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h"
#include "tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h"
#include "tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/simple_binary_merkle_tree_storage.h"
#include "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/extension_field_merkle_tree_mmcs.h"
#include "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h"
#include "tachyon/crypto/hashes/sponge/padding_free_sponge.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2_params.h"
#include "tachyon/crypto/hashes/sponge/truncated_permutation.h"
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"
#include "tachyon/math/finite_fields/baby_bear/packed_baby_bear4.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#include "tachyon/zk/base/commitments/gwc_extension.h"
#include "tachyon/zk/base/commitments/shplonk_extension.h"
#include "tachyon/zk/r1cs/constraint_system/quadratic_arithmetic_program.h"
#include "tachyon/zk/r1cs/groth16/prove.h"
#include "tachyon/zk/r1cs/groth16/proving_key.h"
#include "verif/plonk/e2e.h"
#include "verif/r1cs/program.h"
#include "verif/threads/threads.h"

namespace {

using namespace pbt;      // NOLINT
using namespace threads;  // NOLINT
namespace tc = tachyon::crypto;
namespace tm = tachyon::math;

// ---- Merkle trees
class Hasher : public tc::BinaryMerkleHasher<uint64_t, uint64_t> {
 public:
  static uint64_t Mix(uint64_t x) { x ^= x >> 31; x *= 0x9e3779b97f4a7c15; return x ^ (x >> 29); }
  uint64_t ComputeLeafHash(const uint64_t& leaf) const override { return Mix(leaf + 1); }
  uint64_t ComputeParentHash(const uint64_t& l, const uint64_t& r) const override { return Mix(Mix(l) * 3 + r); }
};

void Binary(Case& c) {
  using Tree = tc::BinaryMerkleTree<uint64_t, uint64_t, 4096>;
  Rng r = c.Bulk();
  auto t = Counts(c);
  size_t k = c.Draw(12), n = size_t{1} << k;
  std::vector<uint64_t> v(n);
  for (auto& x : v) x = r.Next();
  size_t par = size_t{1} << c.Draw(k + 1);
  c.Nontrivial(n > 4);
  c.Note(n, " leaves, ", par, " per part");
  Same(c, t, "binary_tree", [&] {
    Hasher h;
    tc::SimpleBinaryMerkleTreeStorage<uint64_t> s;
    Tree tree(&s, &h);
    tree.set_leaves_size_for_parallelization(par);
    uint64_t root = 0;
    bool ok = tree.Commit(v, &root);
    std::vector<uint64_t> all{ok, root};
    for (size_t i = 0; i < s.GetSize(); ++i) all.push_back(s.GetHash(i));
    return all;
  });
}

using F = tm::BabyBear;
using ExtF = tm::BabyBear4;
using Pk = tm::PackedBabyBear;
template <typename T>
using P2 = tc::Poseidon2Sponge<tc::Poseidon2Params<tc::Poseidon2Vendor::kPlonky3, tc::Poseidon2Vendor::kPlonky3, T, 15, 7>>;
using H = tc::PaddingFreeSponge<P2<F>, 8, 8>;
using PH = tc::PaddingFreeSponge<P2<Pk>, 8, 8>;
using C2 = tc::TruncatedPermutation<P2<F>, 8, 2>;
using PC2 = tc::TruncatedPermutation<P2<Pk>, 8, 2>;
using MMCS = tc::FieldMerkleTreeMMCS<F, H, PH, C2, PC2, 8>;
using ExtMMCS = tc::FieldMerkleTreeMMCS<ExtF, H, PH, C2, PC2, 8>;
using ChMMCS = tc::ExtensionFieldMerkleTreeMMCS<ExtF, ExtMMCS>;
using Challenger = tc::DuplexChallenger<P2<F>, 8>;
using FRI = tc::TwoAdicFRI<ExtF, MMCS, ChMMCS, Challenger>;
using M = tm::RowMajorMatrix<F>;

struct Kit {
  H h; PH ph; C2 c; PC2 pc;
  MMCS mmcs{h, ph, c, pc};
  ExtMMCS ext{h, ph, c, pc};
};
Kit& TheKit() {
  static Kit* k = new Kit();
  return *k;
}
M AnyM(Rng& r, size_t n, size_t cols) {
  M m(n, cols);
  std::vector<F> v = BulkPrimeFields<F>(r, n * cols);
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < cols; ++j) m(i, j) = v[i * cols + j];
  return m;
}

void FieldTree(Case& c) {
  Rng r = c.Bulk();
  auto t = Counts(c);
  std::vector<M> ms;
  size_t k = 1 + c.Draw(3), most = 0;
  for (size_t i = 0; i < k; ++i) {
    size_t rows = size_t{1} << c.Draw(8);
    most = std::max(most, rows);
    ms.push_back(AnyM(r, rows, 1 + c.Draw(20)));
  }
  c.Nontrivial(most > 4);
  c.Note(k, " matrices of up to ", most, " rows");
  Same(c, t, "field_tree", [&] {
    MMCS mmcs = TheKit().mmcs;
    MMCS::Commitment root;
    MMCS::ProverData data;
    std::vector<M> copy = ms;
    bool ok = mmcs.CommitOwned(std::move(copy), &root, &data);
    return std::make_tuple(ok, root, data.digest_layers());
  });
}

void Fri(Case& c) {
  Rng r = c.Bulk();
  auto t = Counts(c);
  uint32_t blowup = c.Draw(2);
  size_t k = 1 + c.Draw(2);
  std::vector<M> ms;
  std::vector<uint32_t> logs;
  for (size_t i = 0; i < k; ++i) {
    logs.push_back(1 + c.Draw(6));
    ms.push_back(AnyM(r, size_t{1} << logs.back(), 1 + c.Draw(6)));
  }
  ExtF z = ExtF::Zero();
  for (size_t i = 0; i < 4; ++i) z[i] = BulkPrimeField<F>(r) + F::One();
  c.Nontrivial(logs[0] > 2);
  c.Note(k, " matrices, first 2^", logs[0], ", blowup ", blowup);
  // The proof of work may be any solution, so the queries may differ; the
  // commitments, the opened values and the folded commitments may not.
  Same(c, t, "fri", [&] {
    MMCS mmcs = TheKit().mmcs;
    ExtMMCS ext = TheKit().ext;
    FRI pcs(std::move(mmcs), tc::FRIConfig<ChMMCS>{blowup, 2, 0, ChMMCS(std::move(ext))});
    std::vector<FRI::Domain> domains;
    for (uint32_t l : logs) domains.push_back(pcs.GetNaturalDomainForDegree(size_t{1} << l));
    std::vector<MMCS::Commitment> commits(1);
    std::vector<std::unique_ptr<MMCS::ProverData>> data;
    data.emplace_back(new MMCS::ProverData());
    std::vector<M> copy = ms;
    bool ok = pcs.Commit(domains, copy, &commits[0], data[0].get());
    Challenger ch;
    ch.ObserveContainer2D(commits);
    FRI::OpeningPoints points(1);
    for (size_t i = 0; i < k; ++i) points[0].push_back({z, domains[i].GetNextPoint(z)});
    FRI::OpenedValues values;
    tc::FRIProof<FRI> proof;
    ok = ok && pcs.CreateOpeningProof(data, points, ch, &values, &proof);
    return std::make_tuple(ok, commits, values, proof.commit_phase_commits, proof.final_eval);
  });
}

// ---- Quadratic programs and Groth16 proofs
void R1cs(Case& c) {
  using Curve = tm::bn254::BN254Curve;
  using G1 = Curve::G1Curve::AffinePoint;
  using G2 = Curve::G2Curve::AffinePoint;
  using Fr = G1::ScalarField;
  using Q = tachyon::zk::r1cs::QuadraticArithmeticProgram<Fr>;
  namespace tg = tachyon::zk::r1cs::groth16;
  constexpr size_t kMax = 127;
  size_t steps = c.Size(1, 32);
  Rng r = c.Bulk();
  auto t = Counts(c);
  auto p = r1cs_pbt::AnyProgram<Fr>(r, steps, r.Bool());
  c.Nontrivial(p.constraints >= 2);
  c.Note(p.constraints, " constraints");
  r1cs_pbt::Scripted<Fr> circuit(&p);
  tachyon::zk::r1cs::ConstraintSystem<Fr> cs;
  circuit.Synthesize(cs);
  cs.Finalize();
  Fr x = BulkPrimeField<Fr>(r) + Fr(5);
  auto d = tm::UnivariateEvaluationDomainFactory<Fr, kMax>::Create(p.constraints + p.instance.size());
  Same(c, t, "qap", [&] {
    auto i = Q::InstanceMap(d.get(), cs, x);
    auto w = Q::WitnessMap(d.get(), cs);
    return std::make_tuple(i.a, i.b, i.c, i.t_x, w.h, w.full_assignments);
  });
  if (!c.OneIn(3)) return;
  auto scalar = [&] { return BulkPrimeField<Fr>(r) + Fr(3); };
  tg::ToxicWaste<Curve> waste(scalar(), scalar(), scalar(), scalar(), Fr::Zero(),
                              (scalar() * G1::Generator()).ToAffine(), (scalar() * G2::Generator()).ToAffine());
  tg::ProvingKey<Curve> pk;
  Use(3);
  if (!pk.template Load<kMax, Q>(waste, circuit)) return;
  Fr rr = scalar(), ss = scalar();
  c.Label("groth16");
  Same(c, t, "groth16", [&] {
    auto proof = tg::CreateProofWithReduction<kMax, Q>(circuit, pk, rr, ss);
    return std::make_tuple(proof.a(), proof.b(), proof.c());
  });
}

// ---- Halo2 proofs
template <typename PS>
struct Halo2 : plonk_pbt::E2E<PS, tachyon::zk::plonk::SimpleFloorPlanner> {
  using Base = plonk_pbt::E2E<PS, tachyon::zk::plonk::SimpleFloorPlanner>;
  static void Proof(Case& c) {
    plonk_pbt::Shape s;
    std::vector<plonk_pbt::Data> ds;
    int transcript;
    plonk_pbt::Bytes seed;
    auto t = Counts(c);
    Base::Common(c, &s, &ds, &transcript, &seed);
    Same(c, t, "halo2_proof", [&] {
      plonk_pbt::Bytes proof;
      plonk_pbt::F repr;
      bool ok = Base::Prove(s, transcript, ds, seed, false, &proof, &repr);
      return std::make_tuple(ok, proof, repr);
    });
  }
};

template <typename Base>
using Scroll = tachyon::zk::plonk::halo2::ProvingScheme<
    tachyon::zk::plonk::halo2::Vendor::kScroll, tachyon::zk::lookup::Type::kHalo2, Base>;
template <typename Base>
using ScrollLog = tachyon::zk::plonk::halo2::ProvingScheme<
    tachyon::zk::plonk::halo2::Vendor::kScroll, tachyon::zk::lookup::Type::kLogDerivativeHalo2, Base>;
using GWC = tachyon::zk::GWCExtension<tm::bn254::BN254Curve, plonk_pbt::kMaxDegree,
                                      plonk_pbt::kMaxExtendedDegree, tm::bn254::G1AffinePoint>;
using SHPlonk = tachyon::zk::SHPlonkExtension<tm::bn254::BN254Curve, plonk_pbt::kMaxDegree,
                                              plonk_pbt::kMaxExtendedDegree, tm::bn254::G1AffinePoint>;

void RegisterAll() {
  tm::bn254::BN254Curve::Init();
  tm::halo2::OverrideSubgroupGenerator();
  F::Init();
  ExtF::Init();
  Pk::Init();
  tm::ExtendedPackedFieldTraits<ExtF>::ExtendedPackedField::Init();
  pbt::Register("binary_tree", 30, 3000, Binary);
  pbt::Register("field_tree", 12, 1200, FieldTree);
  pbt::Register("fri", 10, 1000, Fri);
  pbt::Register("r1cs", 10, 1000, R1cs);
  pbt::Register("halo2.gwc", 2, 200, Halo2<Scroll<GWC>>::Proof);
  pbt::Register("halo2.shplonk_log", 2, 200, Halo2<ScrollLog<SHPlonk>>::Proof);
}
PBT_INIT(RegisterAll);

}  // namespace
