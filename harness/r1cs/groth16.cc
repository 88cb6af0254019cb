// Proofs of random programs.
#include "tachyon/math/elliptic_curves/bls12/bls12_381/bls12_381.h"
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#include "tachyon/zk/r1cs/constraint_system/quadratic_arithmetic_program.h"
#include "tachyon/zk/r1cs/groth16/prove.h"
#include "tachyon/zk/r1cs/groth16/proving_key.h"
#include "tachyon/zk/r1cs/groth16/verify.h"

#include "verif/r1cs/program.h"

namespace r1cs_pbt {
namespace {

namespace tg = tachyon::zk::r1cs::groth16;

template <typename Curve>
void Prove(Case& c) {
  using G1 = typename Curve::G1Curve::AffinePoint;
  using G2 = typename Curve::G2Curve::AffinePoint;
  using F = typename G1::ScalarField;
  using Q = tr::QuadraticArithmeticProgram<F>;
  constexpr size_t kMax = 127;
  size_t steps = c.Size(1, 32);
  Rng r = c.Bulk();
  Program<F> p = AnyProgram<F>(r, steps, r.Bool());
  if (p.constraints >= 1 && p.instance.size() >= 2) c.Nontrivial();
  c.LabelIf(p.instance.size() == 1, "no public input");
  c.LabelIf(p.witness.empty(), "no witness");
  c.Note(p.instance.size(), " instance, ", p.witness.size(), " witness, ", p.constraints,
         " constraints");
  Scripted<F> circuit(&p);
  auto scalar = [&] { return UniformF<F>(r); };
  tg::ToxicWaste<Curve> waste(
      scalar(), scalar(), scalar(), scalar(), F::Zero(),
      (scalar() * G1::Generator()).ToAffine(), (scalar() * G2::Generator()).ToAffine());
  tg::ProvingKey<Curve> pk;
  bool loaded = pk.template Load<kMax, Q>(waste, circuit);
  PBT_T(loaded, "load");
  tg::Proof<Curve> proof;
  switch (r.Upto(2)) {
    case 0: proof = tg::CreateProofWithReductionZK<kMax, Q>(circuit, pk); break;
    case 1: proof = tg::CreateProofWithReductionNoZK<kMax, Q>(circuit, pk); break;
    default:
      proof = tg::CreateProofWithReduction<kMax, Q>(circuit, pk, AnyF<F>(r), AnyF<F>(r));
  }
  tg::PreparedVerifyingKey<Curve> pvk =
      std::move(pk).TakeVerifyingKey().ToPreparedVerifyingKey();
  std::vector<F> inputs(p.instance.begin() + 1, p.instance.end());
  PBT_T(VerifyProof(pvk, proof, inputs), "verify");
  tg::Proof<Curve> again = tg::ReRandomizeProof(pvk.verifying_key(), proof);
  PBT_T(VerifyProof(pvk, again, inputs), "rerandomized");
  // Another input, another number of inputs, another proof.
  const tg::Proof<Curve>& some = r.Bool() ? proof : again;
  if (!inputs.empty()) {
    std::vector<F> bad = inputs;
    bad[r.Upto(bad.size() - 1)] += NonZeroF<F>(r);
    PBT_T(!VerifyProof(pvk, some, bad), "other_input");
    bad = inputs;
    bad.pop_back();
    PBT_T(!VerifyProof(pvk, some, bad), "fewer_inputs");
  }
  std::vector<F> more = inputs;
  more.push_back(AnyF<F>(r));
  PBT_T(!VerifyProof(pvk, some, more), "more_inputs");
  auto g1 = [&](const G1& old) {
    G1 x;
    do {
      switch (r.Upto(3)) {
        case 0: x = -old; break;
        case 1: x = G1::Zero(); break;
        case 2: x = (old + (scalar() * G1::Generator()).ToAffine()).ToAffine(); break;
        default: x = (scalar() * G1::Generator()).ToAffine();
      }
    } while (x == old);
    return x;
  };
  auto g2 = [&](const G2& old) {
    G2 x;
    do {
      switch (r.Upto(2)) {
        case 0: x = -old; break;
        case 1: x = (old + (scalar() * G2::Generator()).ToAffine()).ToAffine(); break;
        default: x = (scalar() * G2::Generator()).ToAffine();
      }
    } while (x == old);
    return x;
  };
  tg::Proof<Curve> forged;
  switch (r.Upto(3)) {
    case 0: forged = {g1(some.a()), some.b(), some.c()}; break;
    case 1: forged = {some.a(), g2(some.b()), some.c()}; break;
    case 2: forged = {some.a(), some.b(), g1(some.c())}; break;
    default:
      if (some.a() == some.c()) return;
      forged = {some.c(), some.b(), some.a()};
  }
  PBT_T(!VerifyProof(pvk, forged, inputs), "forged");
}

template <typename Curve>
void Broken(Case& c) {
  using G1 = typename Curve::G1Curve::AffinePoint;
  using G2 = typename Curve::G2Curve::AffinePoint;
  using F = typename G1::ScalarField;
  using Q = tr::QuadraticArithmeticProgram<F>;
  constexpr size_t kMax = 127;
  size_t steps = c.Size(2, 16);
  Rng r = c.Bulk();
  Program<F> p = AnyProgram<F>(r, steps, false), q = p;
  if (!q.witness.empty()) q.witness[r.Upto(q.witness.size() - 1)] += NonZeroF<F>(r);
  if (q.Satisfied()) return;
  c.Nontrivial();
  c.Note(p.instance.size(), " instance, ", p.witness.size(), " witness, ", p.constraints,
         " constraints");
  Scripted<F> good(&p), bad(&q);
  auto scalar = [&] { return UniformF<F>(r); };
  tg::ToxicWaste<Curve> waste(scalar(), scalar(), scalar(), scalar(), F::Zero(),
                              G1::Generator(), G2::Generator());
  tg::ProvingKey<Curve> pk;
  bool loaded = pk.template Load<kMax, Q>(waste, good);
  PBT_T(loaded, "load");
  tg::Proof<Curve> proof =
      tg::CreateProofWithReduction<kMax, Q>(bad, pk, AnyF<F>(r), AnyF<F>(r));
  tg::PreparedVerifyingKey<Curve> pvk =
      std::move(pk).TakeVerifyingKey().ToPreparedVerifyingKey();
  std::vector<F> inputs(p.instance.begin() + 1, p.instance.end());
  PBT_T(!VerifyProof(pvk, proof, inputs), "unsatisfied");
}

void RegisterAll() {
  using BN = tm::bn254::BN254Curve;
  using BLS = tm::bls12_381::BLS12_381Curve;
  BN::Init();
  BLS::Init();
  pbt::Register("groth16.bn254", 150, 3000, Prove<BN>);
  pbt::Register("groth16.bls12_381", 80, 1500, Prove<BLS>);
  pbt::Register("groth16_unsatisfied.bn254", 100, 2000, Broken<BN>);
}
PBT_INIT(RegisterAll);

}  // namespace
}  // namespace r1cs_pbt
