// The field functions of the C interface and the C++ wrappers around them
// compared with the library.
#include <string.h>

#include <sstream>
#include <type_traits>

#include "tachyon/c/math/elliptic_curves/bls12/bls12_381/fq12_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bls12/bls12_381/fq2_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bls12/bls12_381/fq6_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bls12/bls12_381/fq_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bls12/bls12_381/fr_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/fq12_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/fq2_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/fq6_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/fq_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/fr_type_traits.h"
#include "tachyon/c/math/finite_fields/baby_bear/baby_bear4_type_traits.h"
#include "tachyon/c/math/finite_fields/baby_bear/baby_bear_type_traits.h"
#include "tachyon/cc/math/elliptic_curves/bls12/bls12_381/fq.h"
#include "tachyon/cc/math/elliptic_curves/bls12/bls12_381/fr.h"
#include "tachyon/cc/math/elliptic_curves/bn/bn254/fq.h"
#include "tachyon/cc/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/g2.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g2.h"
#include "verif/capi/cast.h"
#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace {

using namespace tachyon;
using pbt::Case;

template <typename C>
using Native = typename c::base::TypeTraits<C>::NativeType;

template <typename F, bool = (F::ExtensionDegree() > 1)>
struct Prime {
  using T = F;
};
template <typename F>
struct Prime<F, true> {
  using T = typename F::BasePrimeField;
};

template <typename F>
F Any(Case& c) {
  if constexpr (F::ExtensionDegree() == 1) {
    return pbt::AnyPrimeField<F>(c);
  } else {
    using B = typename Prime<F>::T;
    std::vector<B> v(F::ExtensionDegree(), B::Zero());
    size_t kind = c.Draw(4);
    if (kind == 0) {  // one coordinate only
      v[c.Draw(v.size() - 1)] = pbt::AnyPrimeField<B>(c);
    } else if (kind == 1) {
      for (auto& x : v) x = pbt::AnyPrimeField<B>(c);
    } else {
      pbt::Rng r = c.Bulk();
      for (auto& x : v) x = pbt::BulkPrimeField<B>(r);
    }
    return F::FromBasePrimeFields(absl::MakeConstSpan(v));
  }
}

// A second operand: unrelated, the same, the opposite, or one that differs
// from the first in one coordinate only (what decides comparisons).
template <typename F>
F Other(Case& c, const F& a) {
  switch (c.Draw(4)) {
    case 0:
      c.Label("operands:same");
      return a;
    case 1:
      c.Label("operands:opposite");
      return -a;
    case 2: {
      c.Label("operands:close");
      using B = typename Prime<F>::T;
      std::vector<B> v(F::ExtensionDegree(), B::Zero());
      v[c.Draw(v.size() - 1)] = c.Draw(1) ? B::One() : -B::One();
      if constexpr (F::ExtensionDegree() == 1) {
        return a + v[0];
      } else {
        return a + F::FromBasePrimeFields(absl::MakeConstSpan(v));
      }
    }
    default:
      c.Label("operands:any");
      return Any<F>(c);
  }
}

template <typename T>
bool SameBytes(const T& a, const T& b) {
  return memcmp(&a, &b, sizeof(T)) == 0;
}

#define API(P)                                                               \
  struct Api_##P {                                                           \
    using C = tachyon_##P;                                                   \
    static C zero() { return tachyon_##P##_zero(); }                         \
    static C one() { return tachyon_##P##_one(); }                           \
    static C minus_one() { return tachyon_##P##_minus_one(); }               \
    static C random() { return tachyon_##P##_random(); }                     \
    static C add(const C* a, const C* b) { return tachyon_##P##_add(a, b); } \
    static C sub(const C* a, const C* b) { return tachyon_##P##_sub(a, b); } \
    static C mul(const C* a, const C* b) { return tachyon_##P##_mul(a, b); } \
    static C div(const C* a, const C* b) { return tachyon_##P##_div(a, b); } \
    static C neg(const C* a) { return tachyon_##P##_neg(a); }                \
    static C dbl(const C* a) { return tachyon_##P##_dbl(a); }                \
    static C sqr(const C* a) { return tachyon_##P##_sqr(a); }                \
    static C inv(const C* a) { return tachyon_##P##_inv(a); }                \
    static bool eq(const C* a, const C* b) { return tachyon_##P##_eq(a, b); } \
    static bool ne(const C* a, const C* b) { return tachyon_##P##_ne(a, b); } \
    static bool gt(const C* a, const C* b) { return tachyon_##P##_gt(a, b); } \
    static bool ge(const C* a, const C* b) { return tachyon_##P##_ge(a, b); } \
    static bool lt(const C* a, const C* b) { return tachyon_##P##_lt(a, b); } \
    static bool le(const C* a, const C* b) { return tachyon_##P##_le(a, b); } \
  };
API(bn254_fq)
API(bn254_fr)
API(bn254_fq2)
API(bn254_fq6)
API(bn254_fq12)
API(bls12_381_fq)
API(bls12_381_fr)
API(bls12_381_fq2)
API(bls12_381_fq6)
API(bls12_381_fq12)
API(baby_bear)
API(baby_bear4)
#undef API

template <typename A>
void Field(Case& c) {
  using C = typename A::C;
  using F = Native<C>;
  using capi::c_cast;
  using capi::native_cast;
  F a = Any<F>(c), b = Other<F>(c, a);
  c.Note("a=", a.ToString(), " b=", b.ToString());
  if (!a.IsZero() && !b.IsZero() && a != b) c.Nontrivial();
  c.LabelIf(b.IsZero(), "operand:zero");
  static_assert(sizeof(C) == sizeof(F));
  C ca = c_cast(a), cb = c_cast(b);
  // The cast keeps the value, both ways.
  PBT_T(native_cast(ca) == a && native_cast(cb) == b, "round_trip");
  const C ka = ca, kb = cb;
  // Sometimes pass one object for both arguments.
  bool alias = a == b && c.Draw(1);
  const C* pa = &ca;
  const C* pb = alias ? &ca : &cb;
  c.LabelIf(alias, "arguments:aliased");
  C r = A::add(pa, pb);
  PBT_T(native_cast(r) == a + b, "add");
  r = A::sub(pa, pb);
  PBT_T(native_cast(r) == a - b, "sub");
  r = A::mul(pa, pb);
  PBT_T(native_cast(r) == a * b, "mul");
  r = A::neg(pa);
  PBT_T(native_cast(r) == -a, "neg");
  r = A::dbl(pa);
  PBT_T(native_cast(r) == a + a, "dbl");
  r = A::sqr(pa);
  PBT_T(native_cast(r) == a * a, "sqr");
  if (!b.IsZero()) {
    r = A::inv(pb);
    PBT_T(native_cast(r) * b == F::One(), "inv");
    r = A::div(pa, pb);
    PBT_T(native_cast(r) * b == a, "div");
  }
  PBT_T(A::eq(pa, pb) == (a == b), "eq");
  PBT_T(A::ne(pa, pb) == (a != b), "ne");
  PBT_T(A::gt(pa, pb) == (a > b), "gt");
  PBT_T(A::ge(pa, pb) == (a >= b), "ge");
  PBT_T(A::lt(pa, pb) == (a < b), "lt");
  PBT_T(A::le(pa, pb) == (a <= b), "le");
  if constexpr (F::ExtensionDegree() == 1) {
    mpz_class ma = pbt::FieldToMpz(a), mb = pbt::FieldToMpz(b);
    PBT_T(A::gt(pa, pb) == (ma > mb) && A::lt(pa, pb) == (ma < mb), "order");
  }
  PBT_T(SameBytes(ca, ka) && SameBytes(cb, kb), "arguments_changed");
  r = A::zero();
  PBT_T(native_cast(r) == F::Zero(), "zero");
  r = A::one();
  PBT_T(native_cast(r) == F::One(), "one");
  r = A::minus_one();
  PBT_T(native_cast(r) == -F::One(), "minus_one");
  r = A::random();
  if constexpr (F::ExtensionDegree() == 1) {
    F v = native_cast(r);
    PBT_T(pbt::FieldFromMpz<F>(pbt::FieldToMpz(v)) == v, "random_canonical");
  }
}

template <typename W, typename C>
void Wrapper(Case& c) {
  using F = Native<C>;
  using capi::c_cast;
  using capi::native_cast;
  F a = Any<F>(c), b = Other<F>(c, a);
  if (!a.IsZero() && !b.IsZero() && a != b) c.Nontrivial();
  W wa(c_cast(a)), wb(c_cast(b));
  auto n = [](const W& w) { return native_cast(w.value()); };
  PBT_T(n(wa) == a && n(wb) == b, "value");
  PBT_T(n(wa + wb) == a + b, "add");
  PBT_T(n(wa - wb) == a - b, "sub");
  PBT_T(n(wa * wb) == a * b, "mul");
  PBT_T(n(-wa) == -a, "neg");
  PBT_T(n(wa.Double()) == a + a, "double");
  PBT_T(n(wa.Square()) == a * a, "square");
  if (!b.IsZero()) {
    PBT_T(n(wb.Inverse()) * b == F::One(), "inverse");
    PBT_T(n(wa / wb) * b == a, "div");
    W t = wa;
    t /= wb;
    PBT_T(n(t) * b == a, "div_assign");
  }
  W t = wa;
  W& ref = (t += wb);
  PBT_T(&ref == &t && n(t) == a + b, "add_assign");
  t = wa;
  t -= wb;
  PBT_T(n(t) == a - b, "sub_assign");
  t = wa;
  t *= wb;
  PBT_T(n(t) == a * b, "mul_assign");
  t = wa;
  t += t;
  PBT_T(n(t) == a + a, "add_self");
  t = wa;
  t *= t;
  PBT_T(n(t) == a * a, "mul_self");
  t = wa;
  t -= t;
  PBT_T(n(t) == F::Zero(), "sub_self");
  PBT_T((wa == wb) == (a == b) && (wa != wb) == (a != b), "equality");
  PBT_T((wa < wb) == (a < b) && (wa <= wb) == (a <= b), "less");
  PBT_T((wa > wb) == (a > b) && (wa >= wb) == (a >= b), "greater");
  PBT_T(n(wa) == a && n(wb) == b, "arguments_changed");
  PBT_T(wa.ToString() == a.ToString(), "to_string");
  std::ostringstream os;
  os << wa;
  PBT_T(os.str() == a.ToString(), "stream");
  PBT_T(n(W::Zero()) == F::Zero() && n(W::One()) == F::One() &&
            n(W::MinusOne()) == -F::One(),
        "constants");
  W copy(wa);
  PBT_T(copy == wa, "copy");
}

void RegisterAll() {
  math::bn254::G2Curve::Init();
  math::bls12_381::G2Curve::Init();
  math::bn254::Fq12::Init();
  math::bls12_381::Fq12::Init();
  math::BabyBear4::Init();
#define FIELD(P) pbt::Register("field." #P, 1500, 30000, Field<Api_##P>);
  FIELD(bn254_fq)
  FIELD(bn254_fr)
  FIELD(bn254_fq2)
  FIELD(bn254_fq6)
  FIELD(bn254_fq12)
  FIELD(bls12_381_fq)
  FIELD(bls12_381_fr)
  FIELD(bls12_381_fq2)
  FIELD(bls12_381_fq6)
  FIELD(bls12_381_fq12)
  FIELD(baby_bear)
  FIELD(baby_bear4)
#undef FIELD
  pbt::Register("wrapper.bn254_fq", 1500, 30000, Wrapper<cc::math::bn254::Fq, tachyon_bn254_fq>);
  pbt::Register("wrapper.bn254_fr", 1500, 30000, Wrapper<cc::math::bn254::Fr, tachyon_bn254_fr>);
  pbt::Register("wrapper.bls12_381_fq", 1500, 30000, Wrapper<cc::math::bls12_381::Fq, tachyon_bls12_381_fq>);
  pbt::Register("wrapper.bls12_381_fr", 1500, 30000, Wrapper<cc::math::bls12_381::Fr, tachyon_bls12_381_fr>);
}

PBT_INIT(RegisterAll);

}  // namespace
