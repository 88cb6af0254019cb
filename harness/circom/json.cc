// Proofs and public signals as JSON, and the quotient that a proof is made of.
#include <memory>

#include "circomlib/circuit/quadratic_arithmetic_program.h"
#include "circomlib/json/groth16_proof.h"
#include "circomlib/json/json.h"
#include "circomlib/json/prime_field.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/bls12_381.h"
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"

#include "verif/circom/format.h"

namespace circom_pbt {
namespace {

namespace tc = tachyon::circom;
namespace tm = tachyon::math;
using tachyon::base::FilePath;

template <typename Curve>
struct Checks {
  using G1 = typename Curve::G1Curve::AffinePoint;
  using G2 = typename Curve::G2Curve::AffinePoint;
  using Fq = typename G1::BaseField;
  using Fr = typename G1::ScalarField;

  static mpz_class Any(Case& c) {
    switch (c.Draw(3)) {
      case 0: return Below(c, Modulus<Fq>());
      default: {
        Rng r = c.Bulk();
        return FieldToMpz(BulkPrimeField<Fq>(r));
      }
    }
  }
  static bool Is(const rapidjson::Value& v, const mpz_class& want) {
    return v.IsString() && std::string(v.GetString(), v.GetStringLength()) == want.get_str();
  }
  static bool Is(const rapidjson::Document& d, const char* name, const std::vector<mpz_class>& want) {
    if (!d.IsObject() || !d.HasMember(name) || !d[name].IsArray()) return false;
    const auto& v = d[name];
    size_t per = want.size() / 3;
    if (v.Size() != 3) return false;
    for (unsigned i = 0; i < 3; ++i) {
      if (per == 1) {
        if (!Is(v[i], want[i])) return false;
      } else {
        if (!v[i].IsArray() || v[i].Size() != per) return false;
        for (unsigned j = 0; j < per; ++j)
          if (!Is(v[i][j], want[i * per + j])) return false;
      }
    }
    return true;
  }
  static rapidjson::Document Text(const rapidjson::Document& d) {
    rapidjson::StringBuffer buffer;
    rapidjson::Writer<rapidjson::StringBuffer> writer(buffer);
    d.Accept(writer);
    rapidjson::Document back;
    back.Parse(buffer.GetString(), buffer.GetSize());
    return back;
  }

  static void Proof(Case& c) {
    std::array<mpz_class, 8> x;
    for (mpz_class& v : x) v = Any(c);
    for (int i : {0, 2, 6})  // no point at infinity
      if (x[i] == 0) x[i] = 1;
    c.Nontrivial();
    auto f = [](const mpz_class& v) { return FieldFromMpz<Fq>(v); };
    using Fq2 = typename G2::BaseField;
    tachyon::zk::r1cs::groth16::Proof<Curve> proof(
        G1(f(x[0]), f(x[1])), G2(Fq2(f(x[2]), f(x[3])), Fq2(f(x[4]), f(x[5]))), G1(f(x[6]), f(x[7])));
    for (mpz_class& v : x) c.Note(v);
    rapidjson::Document d = Text(tc::ConvertToJson(proof));
    if (c.OneIn(4)) {
      c.Label("through a file");
      files::Scratch dir;
      PBT_T(tc::WriteToJson(proof, FilePath(dir("proof.json"))), "not written");
      std::string text = files::Slurp(dir("proof.json"));
      d = rapidjson::Document();
      d.Parse(text.c_str(), text.size());
    }
    PBT_T(!d.HasParseError() && d.IsObject(), "not an object");
    PBT_T(Is(d, "pi_a", {x[0], x[1], 1}), "pi_a");
    PBT_T(Is(d, "pi_b", {x[2], x[3], x[4], x[5], 1, 0}), "pi_b");
    PBT_T(Is(d, "pi_c", {x[6], x[7], 1}), "pi_c");
    PBT_T(d.HasMember("protocol") && d["protocol"] == "groth16", "protocol");
    PBT_T(d.HasMember("curve") && d["curve"] == (sizeof(Fq) == 32 ? "bn128" : "bls12381"), "curve");
  }

  static void Public(Case& c) {
    size_t n = c.Size(0, 20);
    Rng r = c.Bulk();
    std::vector<Fr> v = BulkPrimeFields<Fr>(r, n);
    for (Fr& x : v)
      if (r.Upto(3) == 0) x = FieldFromMpz<Fr>(Below(c, Modulus<Fr>()));
    if (n > 1) c.Nontrivial();
    absl::Span<const Fr> span = absl::MakeConstSpan(v);
    rapidjson::Document d = Text(tc::ConvertToJson(span));
    if (c.OneIn(4)) {
      c.Label("through a file");
      files::Scratch dir;
      PBT_T(tc::WriteToJson(span, FilePath(dir("public.json"))), "not written");
      std::string text = files::Slurp(dir("public.json"));
      d = rapidjson::Document();
      d.Parse(text.c_str(), text.size());
    }
    PBT_T(!d.HasParseError() && d.IsArray(), "not an array");
    PBT_TM(d.Size() == n, "length", d.Size());
    for (unsigned i = 0; i < n; ++i) PBT_TM(Is(d[i], FieldToMpz(v[i])), "value", i);
  }

  // A(x) B(x) - C(x) on the coset of the domain by a root of twice its order,
  // with A, B the polynomials of the sums on the domain and C that of their
  // products.
  static void Quotient(Case& c) {
    constexpr size_t kMax = 64;
    using Domain = tm::UnivariateEvaluationDomain<Fr, kMax>;
    size_t n = size_t{1} << c.Draw(5);
    size_t signals = 1 + c.Size(0, 12);
    Rng r = c.Bulk();
    std::vector<Fr> z = BulkPrimeFields<Fr>(r, signals);
    z[0] = Fr::One();
    std::vector<tc::Coefficient<Fr>> coefs;
    std::vector<Fr> a(n, Fr::Zero()), b(n, Fr::Zero());
    size_t m = c.OneIn(5) ? c.Draw(200) : c.Size(0, 30);
    bool one_row = c.OneIn(5);
    for (size_t i = 0; i < m; ++i) {
      uint32_t matrix = static_cast<uint32_t>(r.Upto(1)), row = one_row ? 0 : static_cast<uint32_t>(r.Upto(n - 1)),
               col = static_cast<uint32_t>(r.Upto(signals - 1));
      Fr v = BulkPrimeField<Fr>(r);
      coefs.push_back({matrix, row, col, v});
      (matrix ? b : a)[row] += v * z[col];
    }
    bool dull = std::all_of(a.begin(), a.end(), [](const Fr& x) { return x.IsZero(); });
    if (dull) {  // the constant signal is always constrained
      coefs.push_back({0, 0, 0, Fr::One()});
      a[0] += Fr::One();
    }
    if (n > 1 && m > 3) c.Nontrivial();
    c.Note("domain ", n, ", ", signals, " signals, ", coefs.size(), " coefficients");
    auto domain = tm::UnivariateEvaluationDomainFactory<Fr, kMax>::Create(n);
    std::vector<Fr> h = tc::QuadraticArithmeticProgram<Fr>::WitnessMapFromMatrices(
        domain.get(), absl::MakeConstSpan(coefs), absl::MakeConstSpan(z));
    PBT_TM(h.size() == n, "size", h.size());
    Fr root;
    PBT_T(Fr::GetRootOfUnity(static_cast<uint32_t>(2 * n), &root), "root");
    std::vector<Fr> w(n);
    for (size_t i = 0; i < n; ++i) w[i] = i ? w[i - 1] * domain->group_gen() : Fr::One();
    Fr k = -(Fr::One() + Fr::One()) * FieldFromMpz<Fr>(mpz_class(static_cast<unsigned long>(n))).Inverse().value();
    for (size_t i = 0; i < n; ++i) {
      Fr x = root * w[i], sa = Fr::Zero(), sb = Fr::Zero(), sc = Fr::Zero();
      for (size_t j = 0; j < n; ++j) {
        Fr l = w[j] * (x - w[j]).Inverse().value();
        sa += a[j] * l, sb += b[j] * l, sc += a[j] * b[j] * l;
      }
      PBT_TM(h[i] == (sa * k) * (sb * k) - sc * k, "evaluation", i);
    }
  }

  static void Add(const std::string& name) {
    Curve::Init();
    Register("json_proof." + name, 100, 4000, Proof);
    Register("json_public." + name, 100, 4000, Public);
    Register("quotient." + name, 60, 2500, Quotient);
  }
};

void RegisterAll() {
  Checks<tm::bn254::BN254Curve>::Add("bn254");
  Checks<tm::bls12_381::BLS12_381Curve>::Add("bls12_381");
}
PBT_INIT(RegisterAll);

}  // namespace
}  // namespace circom_pbt
