// Every extension field against schoolbook arithmetic in its tower.
#ifndef VERIF_HARNESS_EXTFIELD_PROPS_H_
#define VERIF_HARNESS_EXTFIELD_PROPS_H_

#include <optional>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>

#include "absl/hash/hash.h"

#include "tachyon/base/buffer/vector_buffer.h"
#include "tachyon/base/json/json.h"

#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace ef {
using namespace pbt;

// An element is the flat list of its coordinates over the prime field.
using Vec = std::vector<mpz_class>;

// A tower of extensions, level by level: x^degree = nr.
struct Tower {
  struct Level {
    size_t degree;
    Vec nr;
  };
  mpz_class p;
  std::vector<Level> levels;

  size_t Size(size_t level) const {
    size_t n = 1;
    for (size_t i = 0; i < level; ++i) n *= levels[i].degree;
    return n;
  }
  Vec Part(const Vec& a, size_t i, size_t n) const {
    return Vec(a.begin() + i * n, a.begin() + (i + 1) * n);
  }
  mpz_class Mod(const mpz_class& v) const {
    mpz_class q;
    mpz_fdiv_r(q.get_mpz_t(), v.get_mpz_t(), p.get_mpz_t());
    return q;
  }
  Vec Add(const Vec& a, const Vec& b) const {
    Vec r(a.size());
    for (size_t i = 0; i < a.size(); ++i) r[i] = Mod(a[i] + b[i]);
    return r;
  }
  Vec Sub(const Vec& a, const Vec& b) const {
    Vec r(a.size());
    for (size_t i = 0; i < a.size(); ++i) r[i] = Mod(a[i] - b[i]);
    return r;
  }
  Vec Mul(size_t level, const Vec& a, const Vec& b) const {
    if (level == 0) return {Mod(a[0] * b[0])};
    const Level& l = levels[level - 1];
    size_t n = Size(level - 1), d = l.degree;
    std::vector<Vec> t(2 * d - 1, Vec(n));
    for (size_t i = 0; i < d; ++i)
      for (size_t j = 0; j < d; ++j)
        t[i + j] = Add(t[i + j], Mul(level - 1, Part(a, i, n), Part(b, j, n)));
    for (size_t i = 2 * d - 2; i >= d; --i)
      t[i - d] = Add(t[i - d], Mul(level - 1, t[i], l.nr));
    Vec r;
    for (size_t i = 0; i < d; ++i) r.insert(r.end(), t[i].begin(), t[i].end());
    return r;
  }
  Vec One(size_t level) const {
    Vec r(Size(level));
    r[0] = 1;
    return r;
  }
  Vec Pow(size_t level, Vec b, mpz_class e) const {
    Vec r = One(level);
    for (size_t i = mpz_sizeinbase(e.get_mpz_t(), 2); i-- > 0;) {
      r = Mul(level, r, r);
      if (mpz_tstbit(e.get_mpz_t(), i)) r = Mul(level, r, b);
    }
    return r;
  }
  // Determinant of multiplication by |a| over the level below.
  Vec Norm(const Vec& a) const {
    size_t top = levels.size(), d = levels[top - 1].degree, n = Size(top - 1);
    std::vector<std::vector<Vec>> m(d);
    for (size_t i = 0; i < d; ++i) {
      Vec e(a.size());
      e[i * n] = 1;
      Vec c = Mul(top, a, e);
      for (size_t j = 0; j < d; ++j) m[i].push_back(Part(c, j, n));
    }
    std::vector<size_t> perm(d);
    for (size_t i = 0; i < d; ++i) perm[i] = i;
    Vec sum(n);
    do {
      bool odd = false;
      for (size_t i = 0; i < d; ++i)
        for (size_t j = i + 1; j < d; ++j)
          if (perm[i] > perm[j]) odd = !odd;
      Vec t = One(top - 1);
      for (size_t i = 0; i < d; ++i) t = Mul(top - 1, t, m[i][perm[i]]);
      sum = odd ? Sub(sum, t) : Add(sum, t);
    } while (std::next_permutation(perm.begin(), perm.end()));
    return sum;
  }
};

template <typename F>
constexpr bool kIsPrime = F::ExtensionDegree() == 1;

template <typename F>
void Flatten(const F& f, Vec& out) {
  if constexpr (kIsPrime<F>) {
    out.push_back(FieldToMpz(f));
  } else {
    for (size_t i = 0; i < F::Config::kDegreeOverBaseField; ++i)
      Flatten(f[i], out);
  }
}
template <typename F>
F Unflatten(const Vec& v, size_t& at) {
  if constexpr (kIsPrime<F>) {
    return FieldFromMpz<F>(v[at++]);
  } else {
    using B = typename F::BaseField;
    constexpr size_t d = F::Config::kDegreeOverBaseField;
    std::vector<B> b;
    for (size_t i = 0; i < d; ++i) b.push_back(Unflatten<B>(v, at));
    if constexpr (d == 2)
      return F(b[0], b[1]);
    else if constexpr (d == 3)
      return F(b[0], b[1], b[2]);
    else
      return F(b[0], b[1], b[2], b[3]);
  }
}

template <typename X>
std::string Text(const X& x, bool hex) {
  if constexpr (kIsPrime<X>) {
    return hex ? x.ToHexString(true) : x.ToString();
  } else {
    std::string s = "(";
    for (size_t j = 0; j < X::Config::kDegreeOverBaseField; ++j)
      s += (j ? ", " : "") + Text(x[j], hex);
    return s + ")";
  }
}

template <typename F>
using Prime = typename F::BasePrimeField;

template <typename F, size_t kWhich>
struct P {
  using B = typename F::BaseField;
  using Fp = Prime<F>;
  static constexpr size_t kD = F::Config::kDegreeOverBaseField;
  static constexpr size_t kN = F::kDegreeOverBasePrimeField;
  static Tower& T() {
    static Tower t;
    return t;
  }
  static inline size_t kTop;

  static Vec V(const F& f) {
    Vec v;
    Flatten(f, v);
    return v;
  }
  static Vec VB(const B& f) {
    Vec v;
    Flatten(f, v);
    return v;
  }
  static F Make(const Vec& v) {
    size_t at = 0;
    return Unflatten<F>(v, at);
  }
  static B MakeB(const Vec& v) {
    size_t at = 0;
    return Unflatten<B>(v, at);
  }
  static std::string Str(const Vec& v) {
    std::string s = "[";
    for (auto& x : v) s += (s.size() > 1 ? " " : "") + x.get_str();
    return s + "]";
  }
  static bool IsZ(const Vec& v) {
    for (auto& x : v)
      if (x != 0) return false;
    return true;
  }
  // Elements of subfields, zero coordinates, single coordinates.
  static Vec Any(Case& c, size_t n = kN) {
    Vec v(n);
    switch (c.Draw(7)) {
      case 0:
        v[0] = Below(c, T().p);
        break;
      case 1:
        v[c.Draw(n - 1)] = Below(c, T().p);
        break;
      case 2: {  // subfield
        size_t k = c.Draw(kTop);
        size_t m = std::min(n, T().Size(k));
        for (size_t i = 0; i < m; ++i) v[i] = Below(c, T().p);
        break;
      }
      case 3: {  // every coordinate present or not
        for (size_t i = 0; i < n; ++i)
          if (c.Bool()) v[i] = Below(c, T().p);
        break;
      }
      case 4:
        for (size_t i = 0; i < n; ++i)
          v[i] = T().Mod(mpz_class(static_cast<unsigned long>(c.Draw(4))) - 2);
        break;
      default:
        for (size_t i = 0; i < n; ++i) v[i] = Below(c, T().p);
    }
    return v;
  }
  static void Same(Case& c, const Vec& got, const Vec& want, const char* what,
                   const Vec& a, const Vec& b) {
    if (got != want)
      c.Fail(what, std::string(what) + ": got " + Str(got) + " want " +
                       Str(want) + " for a=" + Str(a) + " b=" + Str(b));
  }
  static int Weight(const Vec& v) {
    int n = 0;
    for (auto& x : v) n += x != 0;
    return n;
  }

  static void Arith(Case& c) {
    F::Init();
    Vec va = Any(c), vb;
    switch (c.Draw(6)) {
      case 0:
        vb = va;
        break;
      case 1:
        vb = T().Sub(Vec(kN), va);
        break;
      case 2: {  // differs in one coordinate
        vb = va;
        size_t i = c.Draw(kN - 1);
        vb[i] = T().Mod(vb[i] + (c.Bool() ? 1 : -1));
        break;
      }
      default:
        vb = Any(c);
    }
    F a = Make(va), b = Make(vb);
    c.Note("a=", Str(va), " b=", Str(vb));
    c.Nontrivial(Weight(va) >= 1 && Weight(vb) >= 1 &&
                 Weight(va) + Weight(vb) >= 3);
    c.LabelIf(Weight(va) < static_cast<int>(kN), "zero coordinate");
    auto same = [&](const F& f, const Vec& v, const char* what) {
      Same(c, V(f), v, what, va, vb);
    };
    Vec zero(kN), sum = T().Add(va, vb), diff = T().Sub(va, vb),
        neg = T().Sub(zero, va), dbl = T().Add(va, va),
        mul = T().Mul(kTop, va, vb), sq = T().Mul(kTop, va, va);
    same(a, va, "value");
    F t;
    same(a + b, sum, "add");
    t = a;
    same(t += b, sum, "add in place");
    t = a;
    t += t;
    same(t, dbl, "add self in place");
    same(a - b, diff, "sub");
    t = a;
    same(t -= b, diff, "sub in place");
    t = a;
    t -= t;
    same(t, zero, "sub self in place");
    same(-a, neg, "neg");
    t = a;
    same(t.NegateInPlace(), neg, "neg in place");
    same(a.Double(), dbl, "double");
    t = a;
    same(t.DoubleInPlace(), dbl, "double in place");
    same(a * b, mul, "mul");
    same(b * a, mul, "mul swapped");
    t = a;
    same(t *= b, mul, "mul in place");
    t = a;
    t *= t;
    same(t, sq, "mul self in place");
    same(a.Square(), sq, "square");
    t = a;
    same(t.SquareInPlace(), sq, "square in place");
    // by a member of the field below
    size_t n = kN / kD;
    Vec vs = Any(c, n);
    B s = MakeB(vs);
    Vec vse = vs;
    vse.resize(kN);
    Vec smul = T().Mul(kTop, va, vse);
    Same(c, V(a * s), smul, "mul by base", va, vs);
    t = a;
    Same(c, V(t *= s), smul, "mul by base in place", va, vs);
    Same(c, V(F(s)), vse, "embed base", va, vs);
    Same(c, V(a * F(s)), smul, "mul by embedded base", va, vs);
    // comparison: by the top coordinate first
    auto less = [&](const Vec& x, const Vec& y) {
      for (size_t i = kN; i-- > 0;)
        if (x[i] != y[i]) return x[i] < y[i];
      return false;
    };
    PBT_CHECK(c, (a == b) == (va == vb));
    PBT_CHECK(c, (a != b) == (va != vb));
    PBT_CHECK(c, (a < b) == less(va, vb));
    PBT_CHECK(c, (a > b) == less(vb, va));
    PBT_CHECK(c, (a <= b) == !less(vb, va));
    PBT_CHECK(c, (a >= b) == !less(va, vb));
    Vec one = T().One(kTop), m1 = T().Sub(zero, one);
    PBT_CHECK(c, a.IsZero() == (va == zero));
    PBT_CHECK(c, a.IsOne() == (va == one));
    PBT_CHECK(c, a.IsMinusOne() == (va == m1));
    PBT_CHECK(c, (absl::HashOf(a - b + b) == absl::HashOf(a)));
    same(F::Zero(), zero, "zero");
    same(F::One(), one, "one");
    same(F::MinusOne(), m1, "minus one");
    same(F::TwoInv() + F::TwoInv(), one, "two inverse");
    // a chain
    size_t len = c.Draw(6);
    t = a;
    Vec v = va;
    for (size_t i = 0; i < len; ++i) {
      switch (c.Draw(4)) {
        case 0:
          t += b, v = T().Add(v, vb);
          break;
        case 1:
          t = b - t, v = T().Sub(vb, v);
          break;
        case 2:
          t *= b, v = T().Mul(kTop, v, vb);
          break;
        case 3:
          t = t.Square(), v = T().Mul(kTop, v, v);
          break;
        default:
          t *= s, v = T().Mul(kTop, v, vse);
      }
      same(t, v, "chain");
    }
  }

  static void Inverse(Case& c) {
    F::Init();
    Vec va = Any(c), vb = Any(c), one = T().One(kTop);
    F a = Make(va), b = Make(vb);
    c.Note("a=", Str(va), " b=", Str(vb));
    c.Nontrivial(Weight(va) >= 2);
    bool z = IsZ(va);
    c.LabelIf(z, "zero");
    auto inv = a.Inverse();
    PBT_CHECK(c, inv.has_value() == !z);
    F t = a;
    auto ip = t.InverseInPlace();
    PBT_CHECK(c, ip.has_value() == !z);
    auto q = b / a;
    PBT_CHECK(c, q.has_value() == !z);
    F u = b;
    auto uq = (u /= a);
    PBT_CHECK(c, uq.has_value() == !z);
    // norm
    Vec norm = T().Norm(va);
    Same(c, VB(a.Norm()), norm, "norm", va, {});
    if constexpr (kD == 2) {
      size_t n = kN / 2;
      Vec conj = va;
      for (size_t i = n; i < kN; ++i) conj[i] = T().Mod(-conj[i]);
      Same(c, V(a.Conjugate()), conj, "conjugate", va, {});
      F k = a;
      Same(c, V(k.ConjugateInPlace()), conj, "conjugate in place", va, {});
      if (!z) {
        // elements a / conj(a) have norm 1, where the fast inverse applies
        F w = *(a / a.Conjugate());
        if constexpr (kN != 12) {
          PBT_CHECK(c, w.Norm().IsOne());
          auto ci = w.CyclotomicInverse();
          PBT_CHECK(c, ci.has_value() && *ci == *w.Inverse());
          F wi = w;
          PBT_CHECK(c, wi.CyclotomicInverseInPlace().has_value());
          PBT_CHECK(c, wi == *ci);
          PBT_CHECK(c, w.CyclotomicSquare() == w * w);
          wi = w;
          PBT_CHECK(c, wi.CyclotomicSquareInPlace() == w * w);
          BigInt<1> e(c.U64());
          PBT_CHECK_MSG(c, w.CyclotomicPow(e) == w.Pow(e), e.ToString());
        }
      }
    }
    if (z) return;
    Same(c, T().Mul(kTop, va, V(*inv)), one, "inverse", va, {});
    PBT_CHECK(c, *ip == &t && t == *inv);
    Same(c, T().Mul(kTop, va, V(*q)), vb, "quotient", va, vb);
    PBT_CHECK(c, *uq == &u && u == *q);
  }

  static void Pow(Case& c) {
    F::Init();
    Vec va = Any(c);
    F a = Make(va);
    uint64_t e = c.U64() >> (kN > 4 ? c.Draw(63) : 0);
    c.Note("a=", Str(va), " e=", e);
    c.Nontrivial(Weight(va) >= 2 && e > 2);
    mpz_class ve;
    mpz_import(ve.get_mpz_t(), 1, -1, 8, 0, 0, &e);
    Same(c, V(a.Pow(e)), T().Pow(kTop, va, ve), "pow", va, {ve});
    BigInt<2> be = AnyBigInt<2>(c);
    if (kN < 6)
      Same(c, V(a.Pow(be)), T().Pow(kTop, va, ToMpz(be)), "pow", va,
           {ToMpz(be)});
  }

  // Frobenius is linear over the prime field: known from the basis.
  static const Vec& FrobBasis(size_t i) {
    static std::vector<Vec> memo(kN);
    if (memo[i].empty()) {
      Vec e(kN);
      e[i] = 1;
      memo[i] = T().Pow(kTop, e, T().p);
    }
    return memo[i];
  }
  static Vec Frob(const Vec& a) {
    Vec r(kN);
    for (size_t i = 0; i < kN; ++i) {
      Vec t = FrobBasis(i);
      for (auto& x : t) x = T().Mod(x * a[i]);
      r = T().Add(r, t);
    }
    return r;
  }
  static void Frobenius(Case& c) {
    F::Init();
    Vec va = Any(c);
    F a = Make(va);
    uint32_t k = c.Draw(2 * kN + 1);
    c.Note("a=", Str(va), " k=", k);
    c.Nontrivial(Weight(va) >= 2 && k % kN != 0);
    F t = a;
    t.FrobeniusMapInPlace(k);
    Vec v = va;
    for (uint32_t i = 0; i < k % kN; ++i) v = Frob(v);
    Same(c, V(t), v, "frobenius", va, {static_cast<unsigned long>(k)});
  }

  static void Convert(Case& c) {
    F::Init();
    Vec va = Any(c);
    F a = Make(va);
    c.Note("a=", Str(va));
    c.Nontrivial(Weight(va) >= 2);
    std::vector<Fp> flat;
    for (auto& x : va) flat.push_back(FieldFromMpz<Fp>(x));
    Same(c, V(F::FromBasePrimeFields(absl::MakeConstSpan(flat))), va,
         "from base prime fields", va, {});
    auto parts = a.ToBaseFields();
    PBT_CHECK(c, parts.size() == kD);
    size_t n = kN / kD;
    for (size_t i = 0; i < kD; ++i) {
      Vec want(va.begin() + i * n, va.begin() + (i + 1) * n);
      Same(c, VB(parts[i]), want, "to base fields", va, {});
      Same(c, VB(std::as_const(a)[i]), want, "index", va, {});
    }
    Same(c, VB(a.c0()), VB(parts[0]), "c0", va, {});
    Same(c, VB(a.c1()), VB(parts[1]), "c1", va, {});
    if constexpr (kD > 2) Same(c, VB(a.c2()), VB(parts[2]), "c2", va, {});
    if constexpr (kD > 3) Same(c, VB(a.c3()), VB(parts[3]), "c3", va, {});
    size_t at = 0;
    for (auto it = a.begin(); it != a.end(); ++it, ++at)
      PBT_CHECK(c, *it == parts[at]);
    PBT_CHECK(c, at == kD);
    // writing through the index
    F t = a;
    size_t i = c.Draw(kD - 1);
    Vec vs = Any(c, n), vt = va;
    t[i] = MakeB(vs);
    std::copy(vs.begin(), vs.end(), vt.begin() + i * n);
    Same(c, V(t), vt, "write index", va, vs);
    PBT_CHECK(c, F::ExtensionDegree() == kN);
    // a machine integer is a member of the prime field, wherever the new
    // element lies
    unsigned long small = c.Draw(T().p < 100 ? 6 : 100000);
    alignas(F) unsigned char mem[sizeof(F)];
    for (auto& m : mem) m = 0x5a;
    F* f = new (mem) F(static_cast<int>(small));
    Vec want(kN);
    want[0] = small;
    Same(c, V(*f), want, "from integer", want, {});
    // text
    std::ostringstream ss;
    ss << a;
    PBT_CHECK_MSG(c, a.ToString() == Text(a, false), a.ToString());
    PBT_CHECK(c, a.ToHexString(true) == Text(a, true));
    PBT_CHECK(c, ss.str() == a.ToString());
    // bytes and JSON
    tachyon::base::Uint8VectorBuffer buf;
    PBT_CHECK(c, buf.Grow(tachyon::base::EstimateSize(a)));
    PBT_CHECK(c, buf.Write(a) && buf.Done());
    buf.set_buffer_offset(0);
    F back;
    PBT_CHECK(c, buf.Read(&back) && buf.Done() && back == a);
    std::string json = tachyon::base::WriteToJson(a), err;
    F back2;
    PBT_CHECK_MSG(c, tachyon::base::ParseJson(json, &back2, &err),
                  json << " " << err);
    PBT_CHECK_MSG(c, back2 == a, json);
    F r = F::Random();
    PBT_CHECK(c, Make(V(r)) == r);
  }

  // ---- degree 6 and 12 only
  static Vec Pad(std::initializer_list<std::pair<size_t, Vec>> parts,
                 size_t unit) {
    Vec v(kN);
    for (auto& [i, x] : parts)
      std::copy(x.begin(), x.end(), v.begin() + i * unit);
    return v;
  }
  template <typename X>
  static X MakeAs(const Vec& v) {
    size_t at = 0;
    return Unflatten<X>(v, at);
  }
  static void Sparse6(Case& c) {
    if constexpr (kN == 6) {
      F::Init();
      Vec va = Any(c), b0 = Any(c, 2), b1 = Any(c, 2);
      c.Note("a=", Str(va), " b0=", Str(b0), " b1=", Str(b1));
      c.Nontrivial(Weight(va) >= 2);
      F t = Make(va);
      t.MulInPlaceBy1(MakeB(b1));
      Same(c, V(t), T().Mul(kTop, va, Pad({{1, b1}}, 2)), "mul by 1", va, b1);
      t = Make(va);
      t.MulInPlaceBy01(MakeB(b0), MakeB(b1));
      Same(c, V(t), T().Mul(kTop, va, Pad({{0, b0}, {1, b1}}, 2)), "mul by 01",
           va, b1);
      Same(c, V(F::Config::MulByNonResidue(B::One()) * F::One()),
           T().Mul(kTop, Pad({{0, T().levels[1].nr}}, 2), T().One(kTop)),
           "non-residue", va, b1);
    }
  }
  static void Sparse12(Case& c) {
    if constexpr (kN == 12) {
      F::Init();
      using F2 = typename B::BaseField;
      Vec va = Any(c), x = Any(c, 2), y = Any(c, 2), z = Any(c, 2);
      c.Note("a=", Str(va), " x=", Str(x), " y=", Str(y), " z=", Str(z));
      c.Nontrivial(Weight(va) >= 2);
      F t = Make(va);
      t.MulInPlaceBy034(MakeAs<F2>(x), MakeAs<F2>(y), MakeAs<F2>(z));
      Same(c, V(t), T().Mul(kTop, va, Pad({{0, x}, {3, y}, {4, z}}, 2)),
           "mul by 034", va, x);
      t = Make(va);
      t.MulInPlaceBy014(MakeAs<F2>(x), MakeAs<F2>(y), MakeAs<F2>(z));
      Same(c, V(t), T().Mul(kTop, va, Pad({{0, x}, {1, y}, {4, z}}, 2)),
           "mul by 014", va, x);
    }
  }
  static void Cyclotomic12(Case& c) {
    if constexpr (kN == 12) {
      F::Init();
      Vec va = Any(c);
      if (IsZ(va)) va[0] = 1;
      // into the cyclotomic subgroup, by reference arithmetic:
      // a^((p^6 - 1)(p^2 + 1))
      auto frob = [&](Vec v, int k) {
        while (k--) v = Frob(v);
        return v;
      };
      Vec inv = V(*Make(va).Inverse());
      Same(c, T().Mul(kTop, va, inv), T().One(kTop), "inverse", va, {});
      Vec g = T().Mul(kTop, frob(va, 6), inv);
      g = T().Mul(kTop, frob(g, 2), g);
      F f = Make(g);
      c.Note("g=", Str(g));
      c.Nontrivial(Weight(g) >= 2);
      Vec sq = T().Mul(kTop, g, g);
      Same(c, V(f.CyclotomicSquare()), sq, "cyclotomic square", g, {});
      F t = f;
      Same(c, V(t.CyclotomicSquareInPlace()), sq,
           "cyclotomic square in place", g, {});
      auto ci = f.CyclotomicInverse();
      PBT_CHECK(c, ci.has_value());
      Same(c, T().Mul(kTop, V(*ci), g), T().One(kTop), "cyclotomic inverse", g,
           {});
      t = f;
      auto ip = t.CyclotomicInverseInPlace();
      PBT_CHECK(c, ip.has_value() && *ip == &t && t == *ci);
      BigInt<1> e(c.U64());
      c.Note("e=", e.ToString());
      Same(c, V(f.CyclotomicPow(e)), T().Pow(kTop, g, ToMpz(e)),
           "cyclotomic pow", g, {ToMpz(e)});
      t = f;
      PBT_CHECK(c, t.CyclotomicPowInPlace(e) == f.CyclotomicPow(e));
    }
  }

  static int RegisterAll(const std::string& name,
                         std::vector<Tower::Level> levels, uint64_t cost) {
    T().p = Modulus<Fp>();
    T().levels = std::move(levels);
    for (auto& l : T().levels)
      for (auto& x : l.nr) x = T().Mod(x);
    kTop = T().levels.size();
    Register(name + "/arith", 20000 / cost, 600000 / cost, &Arith);
    Register(name + "/inverse", 8000 / cost, 200000 / cost, &Inverse);
    Register(name + "/pow", 1000 / cost, 20000 / cost, &Pow);
    Register(name + "/frobenius", 8000 / cost, 100000 / cost, &Frobenius);
    Register(name + "/convert", 8000 / cost, 100000 / cost, &Convert);
    if (kN == 6) Register(name + "/sparse", 8000 / cost, 200000 / cost,
                          &Sparse6);
    if (kN == 12) {
      Register(name + "/sparse", 20000 / cost, 400000 / cost, &Sparse12);
      Register(name + "/cyclotomic", 3000 / cost, 60000 / cost,
               &Cyclotomic12);
    }
    return 0;
  }
};

}  // namespace ef

#endif  // VERIF_HARNESS_EXTFIELD_PROPS_H_
