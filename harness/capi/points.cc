// The point functions of the C interface, its multi-scalar multiplication and
// the C++ wrappers, on known multiples of the generator.
#include <string.h>

#include <sstream>
#include <type_traits>
#include <vector>

#include "tachyon/c/math/elliptic_curves/bls12/bls12_381/fq2_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bls12/bls12_381/fq_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bls12/bls12_381/fr_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bls12/bls12_381/g1.h"
#include "tachyon/c/math/elliptic_curves/bls12/bls12_381/g1_point_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bls12/bls12_381/g2.h"
#include "tachyon/c/math/elliptic_curves/bls12/bls12_381/g2_point_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bls12/bls12_381/msm.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/fq2_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/fq_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/fr_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/g1.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/g1_point_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/g2.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/g2_point_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/msm.h"
#include "tachyon/cc/math/elliptic_curves/bls12/bls12_381/g1.h"
#include "tachyon/cc/math/elliptic_curves/bn/bn254/g1.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/g1.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/g2.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g1.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g2.h"
#include "verif/capi/cast.h"
#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace {

using namespace tachyon;
using pbt::Case;

#define REP(P, R)                                                             \
  struct R {                                                                  \
    using C = tachyon_##P##_##R;                                              \
    static auto zero() { return tachyon_##P##_##R##_zero(); }                 \
    static auto generator() { return tachyon_##P##_##R##_generator(); }       \
    static auto random() { return tachyon_##P##_##R##_random(); }             \
    static auto add(const C* a, const C* b) {                                 \
      return tachyon_##P##_##R##_add(a, b);                                   \
    }                                                                         \
    static auto sub(const C* a, const C* b) {                                 \
      return tachyon_##P##_##R##_sub(a, b);                                   \
    }                                                                         \
    static auto neg(const C* a) { return tachyon_##P##_##R##_neg(a); }        \
    static auto dbl(const C* a) { return tachyon_##P##_##R##_dbl(a); }        \
    static bool eq(const C* a, const C* b) {                                  \
      return tachyon_##P##_##R##_eq(a, b);                                    \
    }                                                                         \
    static bool ne(const C* a, const C* b) {                                  \
      return tachyon_##P##_##R##_ne(a, b);                                    \
    }                                                                         \
    REP_MIXED_##R(P)                                                          \
  };
#define MIXED(P, R)                                                           \
  static auto add_mixed(const C* a, const tachyon_##P##_affine* b) {          \
    return tachyon_##P##_##R##_add_mixed(a, b);                               \
  }                                                                           \
  static auto sub_mixed(const C* a, const tachyon_##P##_affine* b) {          \
    return tachyon_##P##_##R##_sub_mixed(a, b);                               \
  }
#define REP_MIXED_affine(P)
#define REP_MIXED_projective(P) MIXED(P, projective)
#define REP_MIXED_jacobian(P) MIXED(P, jacobian)
#define REP_MIXED_xyzz(P) MIXED(P, xyzz)
#define GROUP(P, CURVE)                  \
  struct Api_##P {                       \
    using Curve = CURVE;                 \
    REP(P, affine)                       \
    REP(P, projective)                   \
    REP(P, jacobian)                     \
    REP(P, xyzz)                         \
  };
GROUP(bn254_g1, math::bn254::G1Curve)
GROUP(bn254_g2, math::bn254::G2Curve)
GROUP(bls12_381_g1, math::bls12_381::G1Curve)
GROUP(bls12_381_g2, math::bls12_381::G2Curve)

constexpr int kMax = 24;  // multiples of the generator that are operands

template <typename A>
struct Points {
  using Curve = typename A::Curve;
  using Affine = typename Curve::AffinePoint;
  using Projective = typename Curve::ProjectivePoint;
  using Jacobian = typename Curve::JacobianPoint;
  using XYZZ = typename Curve::PointXYZZ;
  using B = typename Affine::BaseField;

  // The i-th multiple of the generator for -2 kMax - 1 <= i <= 2 kMax + 1.
  static const Affine& Mul(int i) {
    static const std::vector<Affine>& table = *new std::vector<Affine>([] {
      std::vector<Affine> t(4 * kMax + 3);
      int o = 2 * kMax + 1;
      Jacobian acc = Jacobian::Zero();
      for (int i = 0; i <= o; ++i) {
        t[o + i] = acc.ToAffine();
        t[o - i] = (-acc).ToAffine();
        acc = acc + Jacobian::Generator();
      }
      return t;
    }());
    return table[2 * kMax + 1 + i];
  }

  static B AnyZ(Case& c) {
    switch (c.Draw(2)) {
      case 0:
        return B::One();
      case 1:
        return -B::One();
      default: {
        pbt::Rng r = c.Bulk();
        B ret;
        do {
          if constexpr (B::ExtensionDegree() == 1) {
            ret = pbt::BulkPrimeField<B>(r);
          } else {
            using BB = typename B::BasePrimeField;
            std::vector<BB> v = pbt::BulkPrimeFields<BB>(r, 2);
            ret = B::FromBasePrimeFields(absl::MakeConstSpan(v));
          }
        } while (ret.IsZero());
        return ret;
      }
    }
  }

  template <typename N>
  static N Rep(Case& c, int i) {
    const Affine& a = Mul(i);
    if constexpr (std::is_same_v<N, Affine>) {
      return a;
    } else {
      if (i == 0) return N::Zero();
      B z = AnyZ(c);
      if constexpr (std::is_same_v<N, Projective>) {
        return N(a.x() * z, a.y() * z, z);
      } else if constexpr (std::is_same_v<N, Jacobian>) {
        return N(a.x() * z * z, a.y() * z * z * z, z);
      } else {
        B zz = z * z;
        return N(a.x() * zz, a.y() * zz * z, zz, zz * z);
      }
    }
  }

  template <typename P>
  static bool Is(const P& p, int i) {
    if constexpr (std::is_same_v<P, Affine>) {
      return p == Mul(i);
    } else {
      return p.ToAffine() == Mul(i);
    }
  }

  static int AnyIndex(Case& c) {
    return c.Draw(4) == 0 ? 0 : static_cast<int>(c.Draw(2 * kMax)) - kMax;
  }
  static int OtherIndex(Case& c, int i) {
    switch (c.Draw(4)) {
      case 0:
        c.Label("operands:same_point");
        return i;
      case 1:
        c.Label("operands:opposite");
        return -i;
      default:
        c.Label("operands:any");
        return AnyIndex(c);
    }
  }

  template <typename R, typename N>
  static void Ops(Case& c, const char* rep) {
    using C = typename R::C;
    using capi::c_cast;
    using capi::native_cast;
    static_assert(sizeof(C) == sizeof(N));
    int i = AnyIndex(c), j = OtherIndex(c, i);
    c.Note(rep, " i=", i, " j=", j);
    if (i != 0 && j != 0 && i != j && i != -j) c.Nontrivial();
    N a = Rep<N>(c, i), b = Rep<N>(c, j);
    Affine m = Mul(j);
    C ca = c_cast(a), cb = c_cast(b);
    auto cm = c_cast(m);
    C ka = ca, kb = cb;
    // What the members of the C structure mean.
    if constexpr (std::is_same_v<N, XYZZ>) {
      PBT_T(native_cast(ca.x) == a.x() && native_cast(ca.y) == a.y() &&
                native_cast(ca.zz) == a.zz() && native_cast(ca.zzz) == a.zzz(),
            "members");
    } else {
      PBT_T(native_cast(ca.x) == a.x() && native_cast(ca.y) == a.y(),
            "members");
      if constexpr (!std::is_same_v<N, Affine>) {
        PBT_T(native_cast(ca.z) == a.z(), "members_z");
      }
    }
    const C* pa = &ca;
    const C* pb = &cb;
    if (i == j && c.Draw(1)) {
      c.Label("arguments:aliased");
      pb = pa;
    }
    auto sum = R::add(pa, pb);
    PBT_T(Is(native_cast(sum), i + j), "add");
    auto diff = R::sub(pa, pb);
    PBT_T(Is(native_cast(diff), i - j), "sub");
    auto neg = R::neg(pa);
    PBT_T(Is(native_cast(neg), -i), "neg");
    auto dbl = R::dbl(pa);
    PBT_T(Is(native_cast(dbl), 2 * i), "dbl");
    PBT_T(R::eq(pa, pb) == (i == j), "eq");
    PBT_T(R::ne(pa, pb) == (i != j), "ne");
    if constexpr (!std::is_same_v<N, Affine>) {
      auto ms = R::add_mixed(pa, &cm);
      PBT_T(Is(native_cast(ms), i + j), "add_mixed");
      auto md = R::sub_mixed(pa, &cm);
      PBT_T(Is(native_cast(md), i - j), "sub_mixed");
    }
    PBT_T(memcmp(&ca, &ka, sizeof(C)) == 0 && memcmp(&cb, &kb, sizeof(C)) == 0,
          "arguments_changed");
    auto z = R::zero();
    PBT_T(Is(native_cast(z), 0), "zero");
    auto g = R::generator();
    PBT_T(Is(native_cast(g), 1), "generator");
  }

  static void All(Case& c) {
    switch (c.Draw(3)) {
      case 0:
        c.Label("affine");
        return Ops<typename A::affine, Affine>(c, "affine");
      case 1:
        c.Label("projective");
        return Ops<typename A::projective, Projective>(c, "projective");
      case 2:
        c.Label("jacobian");
        return Ops<typename A::jacobian, Jacobian>(c, "jacobian");
      default:
        c.Label("xyzz");
        return Ops<typename A::xyzz, XYZZ>(c, "xyzz");
    }
  }
};

template <typename W, typename = void>
struct Streams : std::false_type {};
template <typename W>
struct Streams<W, std::void_t<decltype(std::declval<std::ostream&>()
                                       << std::declval<const W&>())>>
    : std::true_type {};

#define CURVE_WRAPPERS(P, NS)                       \
  struct Wrap_##P {                                 \
    using Affine = cc::math::NS::G1AffinePoint;     \
    using Projective = cc::math::NS::G1ProjectivePoint; \
    using Jacobian = cc::math::NS::G1JacobianPoint; \
    using XYZZ = cc::math::NS::G1PointXYZZ;         \
    using Point2 = cc::math::NS::G1Point2;          \
    using Point3 = cc::math::NS::G1Point3;          \
    using Point4 = cc::math::NS::G1Point4;          \
    using CPoint2 = tachyon_##P##_point2;           \
    using CPoint3 = tachyon_##P##_point3;           \
    using CPoint4 = tachyon_##P##_point4;           \
    using Fq = cc::math::NS::Fq;                    \
  };
CURVE_WRAPPERS(bn254_g1, bn254)
CURVE_WRAPPERS(bls12_381_g1, bls12_381)

template <typename A, typename Ws>
struct Wrappers {
  using T = Points<A>;
  using B = typename T::B;

  template <typename W>
  static auto N(const W& w) {
    auto cp = w.ToCPoint();
    return capi::native_cast(cp);
  }

  template <typename W>
  static void Text(Case& c, const W& w) {
    std::string s = N(w).ToString();
    PBT_T(w.ToString() == s, "to_string");
    PBT_T(Streams<W>::value, "no_stream_operator");
    if constexpr (Streams<W>::value) {
      std::ostringstream os;
      os << w;
      PBT_T(os.str() == s, "stream");
    }
  }

  template <typename W, typename P>
  static void Ops(Case& c, const char* rep) {
    using capi::c_cast;
    int i = T::AnyIndex(c), j = T::OtherIndex(c, i);
    c.Note(rep, " i=", i, " j=", j);
    if (i != 0 && j != 0 && i != j && i != -j) c.Nontrivial();
    P a = T::template Rep<P>(c, i), b = T::template Rep<P>(c, j);
    W wa(c_cast(a)), wb(c_cast(b));
    // The accessors.
    auto f = [](const auto& fq) { return capi::native_cast(fq.value()); };
    if constexpr (std::is_same_v<P, typename T::XYZZ>) {
      PBT_T(f(wa.x()) == a.x() && f(wa.y()) == a.y() && f(wa.zz()) == a.zz() &&
                f(wa.zzz()) == a.zzz(),
            "accessors");
      W w2(wa.x(), wa.y(), wa.zz(), wa.zzz());
      PBT_T(T::Is(N(w2), i), "from_coordinates");
    } else if constexpr (std::is_same_v<P, typename T::Affine>) {
      PBT_T(f(wa.x()) == a.x() && f(wa.y()) == a.y(), "accessors");
      W w2(wa.x(), wa.y());
      PBT_T(T::Is(N(w2), i), "from_coordinates");
    } else {
      PBT_T(f(wa.x()) == a.x() && f(wa.y()) == a.y() && f(wa.z()) == a.z(),
            "accessors");
      W w2(wa.x(), wa.y(), wa.z());
      PBT_T(T::Is(N(w2), i), "from_coordinates");
    }
    PBT_T(T::Is(N(wa + wb), i + j), "add");
    PBT_T(T::Is(N(wa - wb), i - j), "sub");
    PBT_T(T::Is(N(-wa), -i), "neg");
    PBT_T(T::Is(N(wa.Double()), 2 * i), "double");
    PBT_T((wa == wb) == (i == j) && (wa != wb) == (i != j), "equality");
    if constexpr (!std::is_same_v<P, typename T::Affine>) {
      W t = wa;
      W& ref = (t += wb);
      PBT_T(&ref == &t && T::Is(N(t), i + j), "add_assign");
      t = wa;
      t -= wb;
      PBT_T(T::Is(N(t), i - j), "sub_assign");
      t = wa;
      t += t;
      PBT_T(T::Is(N(t), 2 * i), "add_self");
      t -= t;
      PBT_T(T::Is(N(t), 0), "sub_self");
    }
    PBT_T(T::Is(N(wa), i) && T::Is(N(wb), j), "arguments_changed");
    PBT_T(T::Is(N(W::Zero()), 0) && T::Is(N(W::Generator()), 1), "constants");
    Text(c, wa);
  }

  static void All(Case& c) {
    switch (c.Draw(4)) {
      case 0:
        c.Label("affine");
        return Ops<typename Ws::Affine, typename T::Affine>(c, "affine");
      case 1:
        c.Label("projective");
        return Ops<typename Ws::Projective, typename T::Projective>(
            c, "projective");
      case 2:
        c.Label("jacobian");
        return Ops<typename Ws::Jacobian, typename T::Jacobian>(c, "jacobian");
      case 3:
        c.Label("xyzz");
        return Ops<typename Ws::XYZZ, typename T::XYZZ>(c, "xyzz");
      default: {
        c.Label("plain_points");
        pbt::Rng r = c.Bulk();
        std::vector<B> v = pbt::BulkPrimeFields<B>(r, 4);
        c.Nontrivial();
        using Fq = typename Ws::Fq;
        using capi::c_cast;
        Fq x(c_cast(v[0])), y(c_cast(v[1])), z(c_cast(v[2])), w(c_cast(v[3]));
        typename Ws::Point2 p2(x, y);
        typename Ws::Point3 p3(x, y, z);
        typename Ws::Point4 p4(x, y, z, w);
        PBT_T(N(p2).x == v[0] && N(p2).y == v[1], "point2");
        PBT_T(N(p3).x == v[0] && N(p3).y == v[1] && N(p3).z == v[2], "point3");
        PBT_T(N(p4).x == v[0] && N(p4).y == v[1] && N(p4).z == v[2] &&
                  N(p4).w == v[3],
              "point4");
        Text(c, p2);
        Text(c, p3);
        Text(c, p4);
        typename Ws::Point2 q2(p2.ToCPoint());
        typename Ws::Point3 q3(p3.ToCPoint());
        typename Ws::Point4 q4(p4.ToCPoint());
        PBT_T(q2.x() == x && q2.y() == y, "point2_again");
        PBT_T(q3.x() == x && q3.y() == y && q3.z() == z, "point3_again");
        PBT_T(q4.x() == x && q4.y() == y && q4.z() == z && q4.w() == w,
              "point4_again");
      }
    }
  }
};

#define MSM(P, FR)                                                         \
  struct Msm_##P {                                                         \
    using Ptr = tachyon_##P##_msm_ptr;                                     \
    using Affine = tachyon_##P##_affine;                                   \
    using Point2 = tachyon_##P##_point2;                                   \
    using Fr = tachyon_##FR;                                               \
    static Ptr create(uint8_t d) { return tachyon_##P##_create_msm(d); }   \
    static void destroy(Ptr p) { tachyon_##P##_destroy_msm(p); }           \
    static auto affine(Ptr p, const Affine* b, const Fr* s, size_t n) {    \
      return tachyon_##P##_affine_msm(p, b, s, n);                         \
    }                                                                      \
    static auto point2(Ptr p, const Point2* b, const Fr* s, size_t n) {    \
      return tachyon_##P##_point2_msm(p, b, s, n);                         \
    }                                                                      \
  };
MSM(bn254_g1, bn254_fr)
MSM(bls12_381_g1, bls12_381_fr)

// One context over a history of calls with different sizes. The oracle: the
// bases are known multiples of the generator, so the answer is one multiple
// of it.
template <typename A, typename M>
void Msm(Case& c) {
  using T = Points<A>;
  using Affine = typename T::Affine;
  using Jacobian = typename T::Jacobian;
  using Fr = typename Affine::ScalarField;
  using capi::c_cast;
  using capi::native_cast;
  typename M::Ptr ctx = M::create(static_cast<uint8_t>(c.Draw(20)));
  size_t calls = c.Size(1, 3);
  c.LabelIf(calls > 1, "context:reused");
  for (size_t k = 0; k < calls; ++k) {
    size_t n = c.Draw(9) == 0 ? c.Size(64, 200) : c.Size(1, 40);
    std::vector<Affine> bases;
    std::vector<Fr> scalars;
    mpz_class total = 0;
    pbt::Rng r = c.Bulk();
    for (size_t i = 0; i < n; ++i) {
      int idx = static_cast<int>(r.Upto(2 * kMax)) - kMax;
      bases.push_back(T::Mul(idx));
      Fr s;
      switch (r.Upto(5)) {
        case 0:
          s = Fr::Zero();
          break;
        case 1:
          s = Fr::One();
          break;
        case 2:
          s = -Fr::One();
          break;
        default:
          s = pbt::BulkPrimeField<Fr>(r);
      }
      scalars.push_back(s);
      total += pbt::FieldToMpz(s) * idx;
    }
    mpz_class p = pbt::Modulus<Fr>();
    total %= p;
    if (total < 0) total += p;
    Affine want =
        (Jacobian::Generator() * pbt::FieldFromMpz<Fr>(total)).ToAffine();
    if (n > 1) c.Nontrivial();
    auto kb = bases;
    auto ks = scalars;
    bool p2 = c.Draw(1);
    // A point2 is the same pair of coordinates.
    auto* got =
        p2 ? M::point2(ctx,
                       reinterpret_cast<const typename M::Point2*>(
                           c_cast(bases.data())),
                       c_cast(scalars.data()), n)
           : M::affine(ctx, c_cast(bases.data()), c_cast(scalars.data()), n);
    c.Note("call ", k, " n=", n, p2 ? " point2" : " affine");
    PBT_T(native_cast(*got).ToAffine() == want, "result");
    PBT_T(kb == bases && ks == scalars, "arguments_changed");
    delete got;
  }
  M::destroy(ctx);
}

void RegisterAll() {
  // Initialise through the C interface.
  tachyon_bn254_g1_init();
  tachyon_bn254_g2_init();
  tachyon_bls12_381_g1_init();
  tachyon_bls12_381_g2_init();
#define POINTS(P) \
  pbt::Register("points." #P, 4000, 80000, Points<Api_##P>::All)
  POINTS(bn254_g1);
  POINTS(bn254_g2);
  POINTS(bls12_381_g1);
  POINTS(bls12_381_g2);
#define WRAP(P) \
  pbt::Register("wrapper." #P, 3000, 60000, Wrappers<Api_##P, Wrap_##P>::All)
  WRAP(bn254_g1);
  WRAP(bls12_381_g1);
#define MSMS(P) pbt::Register("msm." #P, 100, 1500, Msm<Api_##P, Msm_##P>)
  MSMS(bn254_g1);
  MSMS(bls12_381_g1);
}

PBT_INIT(RegisterAll);

}  // namespace
