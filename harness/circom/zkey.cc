// Proving keys (.zkey).
#include "circomlib/zkey/zkey.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/bls12_381.h"
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"

#include "verif/circom/format.h"

namespace circom_pbt {
namespace {

namespace tc = tachyon::circom;
namespace tm = tachyon::math;
using tachyon::base::FilePath;

template <typename Curve>
struct Checks {
  using G1 = typename Curve::G1Curve::AffinePoint;
  using G2 = typename Curve::G2Curve::AffinePoint;
  using Fq = typename G1::BaseField;
  using Fr = typename G1::ScalarField;
  using M1 = std::array<mpz_class, 2>;
  using M2 = std::array<mpz_class, 4>;
  struct MCoef {
    uint32_t matrix, constraint, signal;
    mpz_class v;
  };
  struct M {
    uint32_t vars, pubs, domain;
    M1 alpha, beta1, delta1;
    M2 beta2, gamma2, delta2;
    std::vector<M1> ic, a, b, cc, h;
    std::vector<M2> b2;
    std::vector<MCoef> coefs;
    File file;
  };

  template <size_t N>
  static std::array<mpz_class, N> AnyPoint(Rng& r) {
    std::array<mpz_class, N> p;
    bool zero = r.Upto(6) == 0;
    for (mpz_class& x : p) x = zero ? mpz_class(0) : AnyValue<Fq>(r);
    return p;
  }
  template <size_t N>
  static std::vector<std::array<mpz_class, N>> AnyPoints(Rng& r, size_t n) {
    std::vector<std::array<mpz_class, N>> v(n);
    for (auto& p : v) p = AnyPoint<N>(r);
    return v;
  }
  template <size_t N>
  static std::string Bytes(const std::array<mpz_class, N>& p) {
    std::string s;
    for (const mpz_class& x : p) s += Plain<Fq>(TimesR<Fq>(x, 1));
    return s;
  }
  template <size_t N>
  static std::string Bytes(const std::vector<std::array<mpz_class, N>>& v) {
    std::string s;
    for (auto& p : v) s += Bytes(p);
    return s;
  }

  static M Any(Case& c) {
    M m;
    m.vars = 1 + static_cast<uint32_t>(c.Size(0, 10));
    m.pubs = static_cast<uint32_t>(c.Draw(m.vars - 1));
    m.domain = c.OneIn(5) ? static_cast<uint32_t>(c.Draw(5)) : 1u << c.Draw(4);
    Rng r = c.Bulk();
    m.alpha = AnyPoint<2>(r), m.beta1 = AnyPoint<2>(r), m.delta1 = AnyPoint<2>(r);
    m.beta2 = AnyPoint<4>(r), m.gamma2 = AnyPoint<4>(r), m.delta2 = AnyPoint<4>(r);
    m.ic = AnyPoints<2>(r, m.pubs + 1);
    m.a = AnyPoints<2>(r, m.vars), m.b = AnyPoints<2>(r, m.vars), m.b2 = AnyPoints<4>(r, m.vars);
    m.cc = AnyPoints<2>(r, m.vars - m.pubs - 1);
    m.h = AnyPoints<2>(r, m.domain);
    std::string coefs;
    size_t n = c.OneIn(6) ? c.Draw(100) : c.Size(0, 12);
    for (size_t i = 0; i < n; ++i) {
      MCoef x{static_cast<uint32_t>(r.Upto(1)), static_cast<uint32_t>(r.Upto(m.domain)),
              static_cast<uint32_t>(r.Upto(3) ? r.Upto(m.vars - 1) : r.Next()), AnyValue<Fr>(r)};
      // Stored as v * R^2, for the sake of one multiplication less in snarkjs.
      coefs += U32(x.matrix) + U32(x.constraint) + U32(x.signal) + Plain<Fr>(TimesR<Fr>(x.v, 2));
      m.coefs.push_back(x);
    }
    std::string groth = ModulusBytes<Fq>() + ModulusBytes<Fr>() + U32(m.vars) + U32(m.pubs) + U32(m.domain) +
                        Bytes(m.alpha) + Bytes(m.beta1) + Bytes(m.beta2) + Bytes(m.gamma2) + Bytes(m.delta1) +
                        Bytes(m.delta2);
    m.file = {"zkey",
              1,
              {{1, U32(1)},
               {2, groth},
               {3, Bytes(m.ic)},
               {4, U32(n) + coefs},
               {5, Bytes(m.a)},
               {6, Bytes(m.b)},
               {7, Bytes(m.b2)},
               {8, Bytes(m.cc)},
               {9, Bytes(m.h)}}};
    if (c.Bool()) m.file.parts.push_back({10, std::string(c.Draw(9), 'x'), false});
    Shuffle(c, &m.file, {10, 11, 0x77});
    c.LabelIf(m.pubs == 0, "no public inputs");
    c.LabelIf(m.pubs + 1 == m.vars, "no witness variables");
    c.Note(m.vars, " variables, ", m.pubs, " public, domain ", m.domain, ", ", n, " coefficients, ",
           m.file.parts.size(), " sections");
    return m;
  }

  static bool Same(const G1& q, const M1& m) {
    G1 p = q;
    return FieldToMpz(p.x()) == m[0] && FieldToMpz(p.y()) == m[1] && p.IsZero() == (m[0] == 0 && m[1] == 0);
  }
  static bool Same(const G2& q, const M2& m) {
    G2 p = q;
    return FieldToMpz(p.x().c0()) == m[0] && FieldToMpz(p.x().c1()) == m[1] && FieldToMpz(p.y().c0()) == m[2] &&
           FieldToMpz(p.y().c1()) == m[3];
  }
  template <typename S, typename V>
  static bool SameAll(const S& s, const V& v) {
    if (s.size() != v.size()) return false;
    for (size_t i = 0; i < v.size(); ++i)
      if (!Same(s[i], v[i])) return false;
    return true;
  }

  static void Read(Case& c) {
    M m = Any(c);
    bool mmap = c.Bool();
    c.LabelIf(mmap, "mapped");
    if (m.vars > 2 && m.coefs.size() > 1) c.Nontrivial();
    std::string bytes = m.file.Bytes();
    files::Scratch dir;
    files::Spill(dir("a.zkey"), bytes);
    for (int round = 0; round < 2; ++round) {
      auto z = tc::ParseZKey<Curve>(FilePath(dir("a.zkey")), mmap);
      PBT_T(z != nullptr, "refused");
      PBT_T(z->GetVersion() == 1 && z->ToV1() != nullptr, "version");
      PBT_T(z->GetDomainSize() == m.domain, "domain size");
      PBT_T(z->GetNumInstanceVariables() == m.pubs + 1, "instance variables");
      PBT_T(z->GetNumWitnessVariables() == m.vars - m.pubs - 1, "witness variables");
      tc::ProvingKey<Curve> k = z->GetProvingKey();
      PBT_T(Same(*k.verifying_key.alpha_g1, m.alpha), "alpha");
      PBT_T(Same(*k.verifying_key.beta_g1, m.beta1), "beta in G1");
      PBT_T(Same(*k.verifying_key.beta_g2, m.beta2), "beta in G2");
      PBT_T(Same(*k.verifying_key.gamma_g2, m.gamma2), "gamma");
      PBT_T(Same(*k.verifying_key.delta_g1, m.delta1), "delta in G1");
      PBT_T(Same(*k.verifying_key.delta_g2, m.delta2), "delta in G2");
      PBT_T(SameAll(k.ic, m.ic), "ic");
      PBT_T(SameAll(k.a_g1_query, m.a), "a");
      PBT_T(SameAll(k.b_g1_query, m.b), "b in G1");
      PBT_T(SameAll(k.b_g2_query, m.b2), "b in G2");
      PBT_T(SameAll(k.c_g1_query, m.cc), "c");
      PBT_T(SameAll(k.h_g1_query, m.h), "h");
      auto coefs = z->GetCoefficients();
      PBT_T(coefs.size() == m.coefs.size(), "number of coefficients");
      for (size_t i = 0; i < coefs.size(); ++i) {
        Fr v;
        memcpy(&v, reinterpret_cast<const char*>(&coefs[i]) + 12, sizeof v);
        PBT_TM(coefs[i].matrix == m.coefs[i].matrix && coefs[i].constraint == m.coefs[i].constraint &&
                   coefs[i].signal == m.coefs[i].signal,
               "coefficient place", i);
        PBT_TM(FieldToMpz(v) == m.coefs[i].v, "coefficient value", i << ": " << v.ToString());
      }
      // The key of the prover made of it.
      auto n = k.ToNativeProvingKey();
      const auto& vk = n.verifying_key();
      PBT_T(Same(vk.alpha_g1(), m.alpha) && Same(vk.beta_g2(), m.beta2) && Same(vk.gamma_g2(), m.gamma2) &&
                Same(vk.delta_g2(), m.delta2) && SameAll(vk.l_g1_query(), m.ic),
            "native verifying key");
      PBT_T(Same(n.beta_g1(), m.beta1) && Same(n.delta_g1(), m.delta1), "native points");
      PBT_T(SameAll(n.a_g1_query(), m.a), "native a");
      PBT_T(SameAll(n.b_g1_query(), m.b), "native b in G1");
      PBT_T(SameAll(n.b_g2_query(), m.b2), "native b in G2");
      PBT_T(SameAll(n.h_g1_query(), m.h), "native h");
      PBT_T(SameAll(n.l_g1_query(), m.cc), "native l");
      PBT_T(files::Slurp(dir("a.zkey")) == bytes, "file changed");
    }
    // What follows is read as it is written, not in the form of these files.
    Fr one = Fr::One();
    std::string plain = Plain<Fr>(1);
    tachyon::base::ReadOnlyBuffer buffer(plain.data(), plain.size());
    Fr got;
    PBT_T(buffer.Read(&got) && got == one, "reading of other data disturbed");
  }

  static void Refuse(Case& c) {
    LimitMemory();
    M m = Any(c);
    bool mmap = c.Bool();
    c.LabelIf(mmap, "mapped");
    c.Nontrivial();
    std::string bytes;
    size_t h = 8 + kBytes<Fq> + kBytes<Fr>;
    if (c.OneIn(8)) {
      c.Label("another prover");
      uint32_t type = c.Bool() ? 2 : static_cast<uint32_t>(c.Draw(0xffffffff));
      if (type == 1) type = 0;
      m.file.Of(1).data = U32(type);
      bytes = m.file.Bytes();
    } else if (c.OneIn(8)) {
      c.Label("more public inputs than variables");
      uint32_t pubs = c.Bool() ? m.vars + static_cast<uint32_t>(c.Draw(3)) : 0xffffffff - static_cast<uint32_t>(c.Draw(2));
      m.file.Of(2).data.replace(h + 4, 4, U32(pubs));
      bytes = m.file.Bytes();
    } else {
      bytes = Spoil(c, m.file, {{2, 0}, {2, 4 + kBytes<Fq>}, {2, h}, {2, h + 4}, {2, h + 8}, {4, 0}}, 1,
                    {2, c.Bool() ? 0 : 4 + kBytes<Fq>});
    }
    files::Scratch dir;
    files::Spill(dir("a.zkey"), bytes);
    PBT_T(tc::ParseZKey<Curve>(FilePath(dir("a.zkey")), mmap) == nullptr, "accepted");
  }

  static void Garbled(Case& c) {
    LimitMemory();
    M m = Any(c);
    c.Nontrivial();
    bool mmap = c.Bool();
    files::Scratch dir;
    files::Spill(dir("a.zkey"), Garble(c, m.file.Bytes()));
    auto z = tc::ParseZKey<Curve>(FilePath(dir("a.zkey")), mmap);
    c.Label(z ? "accepted" : "refused");
    if (!z) return;
    tc::ProvingKey<Curve> k = z->GetProvingKey();
    PBT_T(k.ic.size() == z->GetNumInstanceVariables(), "ic");
    PBT_T(k.c_g1_query.size() == z->GetNumWitnessVariables(), "c");
    PBT_T(k.a_g1_query.size() == z->GetNumInstanceVariables() + z->GetNumWitnessVariables(), "a");
    PBT_T(k.b_g1_query.size() == k.a_g1_query.size() && k.b_g2_query.size() == k.a_g1_query.size(), "b");
    PBT_T(k.h_g1_query.size() == z->GetDomainSize(), "h");
    unsigned char sum = 0;
    auto touch = [&sum](const void* p, size_t n) {
      for (size_t i = 0; i < n; ++i) sum ^= static_cast<const unsigned char*>(p)[i];
    };
    for (auto s : {k.ic, k.a_g1_query, k.b_g1_query, k.c_g1_query, k.h_g1_query}) touch(s.data(), s.size() * sizeof(G1));
    touch(k.b_g2_query.data(), k.b_g2_query.size() * sizeof(G2));
    touch(z->GetCoefficients().data(), z->GetCoefficients().size() * (12 + sizeof(Fr)));
    volatile unsigned char use = sum;
    (void)use;
  }

  static void Add(const std::string& name) {
    Curve::Init();
    Register("zkey_read." + name, 100, 4000, Read);
    Register("zkey_refuse." + name, 100, 4000, Refuse);
    Register("zkey_garbled." + name, 100, 4000, Garbled);
  }
};

void NoFile(Case& c) {
  c.Nontrivial();
  files::Scratch dir;
  FilePath path(dir("nothing"));
  if (c.Bool()) files::Spill(path.value(), std::string(c.Draw(7), 'z'));
  PBT_T(tc::ParseZKey<tm::bn254::BN254Curve>(path, c.Bool()) == nullptr, "zkey");
}

void RegisterAll() {
  Checks<tm::bn254::BN254Curve>::Add("bn254");
  Checks<tm::bls12_381::BLS12_381Curve>::Add("bls12_381");
  Register("no_file.zkey", 20, 200, NoFile);
}
PBT_INIT(RegisterAll);

}  // namespace
}  // namespace circom_pbt
