// The FRI commitments, challengers and containers the C interface offers to
// SP1: whole exchanges of a prover and a verifier over it.
#include <string.h>

#include <utility>
#include <vector>

#include "tachyon/c/math/finite_fields/baby_bear/baby_bear4_type_traits.h"
#include "tachyon/c/math/finite_fields/baby_bear/baby_bear_type_traits.h"
#include "tachyon/c/zk/air/sp1/baby_bear_poseidon2_commitment_vec.h"
#include "tachyon/c/zk/air/sp1/baby_bear_poseidon2_constants.h"
#include "tachyon/c/zk/air/sp1/baby_bear_poseidon2_domains.h"
#include "tachyon/c/zk/air/sp1/baby_bear_poseidon2_duplex_challenger.h"
#include "tachyon/c/zk/air/sp1/baby_bear_poseidon2_duplex_challenger_type_traits.h"
#include "tachyon/c/zk/air/sp1/baby_bear_poseidon2_field_merkle_tree.h"
#include "tachyon/c/zk/air/sp1/baby_bear_poseidon2_field_merkle_tree_type_traits.h"
#include "tachyon/c/zk/air/sp1/baby_bear_poseidon2_field_merkle_tree_vec.h"
#include "tachyon/c/zk/air/sp1/baby_bear_poseidon2_fri_proof.h"
#include "tachyon/c/zk/air/sp1/baby_bear_poseidon2_fri_proof_type_traits.h"
#include "tachyon/c/zk/air/sp1/baby_bear_poseidon2_lde_vec.h"
#include "tachyon/c/zk/air/sp1/baby_bear_poseidon2_opened_values.h"
#include "tachyon/c/zk/air/sp1/baby_bear_poseidon2_opened_values_type_traits.h"
#include "tachyon/c/zk/air/sp1/baby_bear_poseidon2_opening_points.h"
#include "tachyon/c/zk/air/sp1/baby_bear_poseidon2_opening_points_type_traits.h"
#include "tachyon/c/zk/air/sp1/baby_bear_poseidon2_two_adic_fri.h"
#include "tachyon/c/zk/air/sp1/baby_bear_poseidon2_two_adic_fri_type_traits.h"
#include "verif/capi/cast.h"
#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace {

using namespace tachyon;
using pbt::Case;
using capi::c_cast;
using capi::native_cast;
using F = math::BabyBear;
using E = math::BabyBear4;
constexpr size_t kChunk = TACHYON_PLONKY3_BABY_BEAR_POSEIDON2_CHUNK;

#define S(x) tachyon_sp1_baby_bear_poseidon2_##x

// A challenger that has seen `values`.
using Challenger = S(duplex_challenger);

void Observe(Challenger* ch, const F& v) {
  tachyon_baby_bear cv = c_cast(v);
  S(duplex_challenger_observe)(ch, &cv);
}
F Sample(Challenger* ch) {
  tachyon_baby_bear r = S(duplex_challenger_sample)(ch);
  return native_cast(r);
}

// Challengers under a history of observations, samples and clones: what one
// answers depends on its own history alone, and a clone continues as the
// original would.
void ChallengerTest(Case& c) {
  using Op = std::pair<bool, F>;  // observe a value or sample
  struct One {
    Challenger* ch;
    std::vector<Op> history;
  };
  std::vector<One> all;
  all.push_back({S(duplex_challenger_create)(), {}});
  size_t steps = c.Size(1, 40);
  if (steps > 9) c.Nontrivial();
  for (size_t s = 0; s < steps; ++s) {
    One& o = all[c.Draw(all.size() - 1)];
    size_t op = c.Draw(9);
    if (op <= 4) {
      F v = pbt::AnyPrimeField<F>(c);
      Observe(o.ch, v);
      o.history.push_back({true, v});
    } else if (op <= 7 || all.size() >= 4) {
      o.history.push_back({false, Sample(o.ch)});
    } else {
      c.Label("challenger:cloned");
      One k{S(duplex_challenger_clone)(o.ch), o.history};
      all.push_back(k);
    }
  }
  for (One& o : all) {
    // Replay the history in a fresh one, and in the library.
    Challenger* ch = S(duplex_challenger_create)();
    auto native = native_cast(*ch);
    for (const Op& op : o.history) {
      if (op.first) {
        native.Observe(op.second);
      } else {
        PBT_T(native.Sample() == op.second, "sample");
      }
    }
    PBT_T(native.state().elements == native_cast(*o.ch).state().elements,
          "state");
    for (const Op& op : o.history) {
      if (op.first) {
        Observe(ch, op.second);
      } else {
        PBT_T(Sample(ch) == op.second, "sample_depends_on_other");
      }
    }
    // The hints of both describe the same state, without a byte more.
    size_t len = 0, len2 = 0;
    S(duplex_challenger_write_hint)(o.ch, nullptr, &len);
    std::vector<uint8_t> h1(len + 8, 0x5a), h2(len + 8, 0x5a);
    S(duplex_challenger_write_hint)(o.ch, h1.data(), &len2);
    PBT_T(len == len2, "hint_len");
    S(duplex_challenger_write_hint)(ch, h2.data(), &len2);
    PBT_T(len == len2 && h1 == h2, "hint");
    for (size_t i = len; i < len + 8; ++i) PBT_T(h1[i] == 0x5a, "hint_overrun");
    PBT_T(Sample(ch) == Sample(o.ch), "next_sample");
    S(duplex_challenger_destroy)(ch);
    S(duplex_challenger_destroy)(o.ch);
  }
}

E AnyPoint(pbt::Rng& r) {
  std::vector<F> v = pbt::BulkPrimeFields<F>(r, 4);
  if (v[1].IsZero()) v[1] = F::One();  // outside of every domain
  return E::FromBasePrimeFields(absl::MakeConstSpan(v));
}

template <typename X>
X Lift(const F& v) {
  if constexpr (std::is_same_v<X, F>) {
    return v;
  } else {
    return X(v, F::Zero(), F::Zero(), F::Zero());
  }
}

template <typename X>
X Horner(const std::vector<F>& coeffs, const X& x) {
  X acc = X::Zero();
  for (size_t i = coeffs.size(); i-- > 0;) acc = acc * x + Lift<X>(coeffs[i]);
  return acc;
}

F RootOfUnity(size_t n) {
  F w;
  CHECK(F::GetRootOfUnity(n, &w));
  return w;
}

size_t BitRev(size_t i, size_t bits) {
  size_t r = 0;
  for (size_t b = 0; b < bits; ++b) r |= ((i >> b) & 1) << (bits - 1 - b);
  return r;
}

template <typename T, typename Fn>
std::vector<uint8_t> Bytes(Case& c, const T* t, Fn fn) {
  size_t len = 0, len2 = 0;
  fn(t, nullptr, &len);
  std::vector<uint8_t> out(len + 8, 0xc3);
  fn(t, out.data(), &len2);
  PBT_T(len == len2, "serialized_len");
  for (size_t i = len; i < len + 8; ++i)
    PBT_T(out[i] == 0xc3, "serialized_overrun");
  out.resize(len);
  return out;
}

void Exchange(Case& c) {
  uint32_t log_blowup = static_cast<uint32_t>(1 + c.Draw(1));
  size_t queries = c.Size(2, 6);
  size_t pow_bits = c.Draw(5);
  auto* pcs = S(two_adic_fri_create)(log_blowup, queries, pow_bits);
  size_t rounds = c.Size(1, 2);
  c.Note("blowup=", log_blowup, " queries=", queries, " pow=", pow_bits,
         " rounds=", rounds);
  c.LabelIf(rounds > 1, "rounds:several");
  pbt::Rng r = c.Bulk();

  struct Matrix {
    size_t log_n, cols;
    std::vector<std::vector<F>> coeffs;  // per column
    std::vector<F> lde;
    std::vector<E> points;
  };
  std::vector<std::vector<Matrix>> all(rounds);
  std::vector<std::vector<F>> commitments(rounds);
  std::vector<S(field_merkle_tree)*> trees(rounds);
  auto* tree_vec = S(field_merkle_tree_vec_create)(rounds);
  auto* commit_vec = S(commitment_vec_create)(rounds);
  auto* domains = S(domains_create)(rounds);
  auto* points = S(opening_points_create)(rounds);
  F one = F::One();
  F shift = F::FromMontgomery(F::Config::kSubgroupGenerator);

  for (size_t k = 0; k < rounds; ++k) {
    size_t m = c.Size(1, 3);
    size_t npoints = c.Size(1, 2);
    c.LabelIf(m > 1, "matrices:several");
    all[k].resize(m);
    auto* ldes = S(lde_vec_create)();
    S(domains_allocate)(domains, k, m);
    S(opening_points_allocate)(points, k, m, npoints);
    for (size_t i = 0; i < m; ++i) {
      Matrix& mat = all[k][i];
      mat.log_n = 1 + c.Draw(4);
      mat.cols = c.Size(1, 4);
      size_t n = size_t{1} << mat.log_n;
      size_t en = n << log_blowup;
      c.Note("round ", k, " matrix ", i, " ", n, "x", mat.cols);
      if (n >= 4) c.Nontrivial();
      mat.coeffs.resize(mat.cols);
      for (auto& col : mat.coeffs) {
        col = pbt::BulkPrimeFields<F>(r, n);
        if (r.Upto(5) == 0) std::fill(col.begin(), col.end(), F::Zero());
      }
      F w = RootOfUnity(n), we = RootOfUnity(en);
      std::vector<F> values(n * mat.cols);
      F x = one;
      for (size_t row = 0; row < n; ++row, x *= w)
        for (size_t j = 0; j < mat.cols; ++j)
          values[row * mat.cols + j] = Horner(mat.coeffs[j], x);
      mat.lde.assign(en * mat.cols, F::Zero());
      S(two_adic_fri_coset_lde_batch)
      (pcs, c_cast(values.data()), n, mat.cols, c_cast(mat.lde.data()),
       c_cast(shift));
      // The extension: the same polynomials on the shifted larger domain, in
      // the order of reversed bits.
      x = shift;
      for (size_t row = 0; row < en; ++row, x *= we) {
        size_t at = BitRev(row, mat.log_n + log_blowup);
        for (size_t j = 0; j < mat.cols; ++j)
          PBT_T(mat.lde[at * mat.cols + j] == Horner(mat.coeffs[j], x),
                "lde_value");
      }
      tachyon_baby_bear cone = c_cast(one);
      S(domains_set)(domains, k, i, static_cast<uint32_t>(mat.log_n), &cone);
      for (size_t p = 0; p < npoints; ++p) {
        E pt = AnyPoint(r);
        mat.points.push_back(pt);
        tachyon_baby_bear4 cp = c_cast(pt);
        S(opening_points_set)(points, k, i, p, &cp);
      }
    }
    for (Matrix& mat : all[k])
      S(lde_vec_add)
      (ldes, c_cast(mat.lde.data()),
       size_t{1} << (mat.log_n + log_blowup), mat.cols);
    tachyon_baby_bear cm[kChunk];
    S(two_adic_fri_commit)(pcs, ldes, cm, &trees[k]);
    S(lde_vec_destroy)(ldes);
    for (size_t i = 0; i < kChunk; ++i)
      commitments[k].push_back(native_cast(cm[i]));
    S(commitment_vec_set)(commit_vec, k, cm);
  }
  // The trees may pass through bytes and clones before they are used.
  std::vector<S(field_merkle_tree)*> garbage;
  for (size_t k = 0; k < rounds; ++k) {
    size_t how = c.Draw(3);
    if (how == 1) {
      c.Label("tree:clone");
      auto* t = S(field_merkle_tree_clone)(trees[k]);
      S(field_merkle_tree_destroy)(trees[k]);
      trees[k] = t;
    } else if (how >= 2) {
      std::vector<uint8_t> b =
          Bytes(c, trees[k], S(field_merkle_tree_serialize));
      auto* t = S(field_merkle_tree_deserialize)(b.data(), b.size());
      PBT_T(native_cast(*t) == native_cast(*trees[k]), "tree_round_trip");
      S(field_merkle_tree_destroy)(trees[k]);
      if (how == 3) {
        c.Label("tree:clone_of_deserialized");
        auto* t2 = S(field_merkle_tree_clone)(t);
        S(field_merkle_tree_destroy)(t);
        // Whatever is freed may be reused at once.
        for (size_t i = 0; i < 3; ++i) {
          std::vector<std::vector<uint8_t>> junk;
          for (Matrix& mat : all[k])
            junk.emplace_back(mat.lde.size() * sizeof(F), 0x11);
        }
        PBT_T(Bytes(c, t2, S(field_merkle_tree_serialize)) == b,
              "clone_depends_on_original");
        t = t2;
      } else {
        c.Label("tree:deserialized");
      }
      trees[k] = t;
    }
    S(field_merkle_tree_vec_set)(tree_vec, k, trees[k]);
  }

  // Both sides start with the same history.
  size_t seen = c.Draw(10);
  auto start = [&] {
    auto* ch = S(duplex_challenger_create)();
    for (size_t i = 0; i < seen; ++i) Observe(ch, F(static_cast<uint32_t>(i)));
    for (auto& cm : commitments)
      for (const F& v : cm) Observe(ch, v);
    return ch;
  };
  auto* opened = S(opened_values_create)(0);
  auto* proof = S(fri_proof_create)();
  auto* pch = start();
  S(two_adic_fri_open)(pcs, tree_vec, points, pch, &opened, &proof);

  auto& no = native_cast(*opened);
  PBT_T(no.size() == rounds, "opened_rounds");
  for (size_t k = 0; k < rounds; ++k) {
    PBT_T(no[k].size() == all[k].size(), "opened_matrices");
    for (size_t i = 0; i < all[k].size(); ++i) {
      Matrix& mat = all[k][i];
      PBT_T(no[k][i].size() == mat.points.size(), "opened_points");
      for (size_t p = 0; p < mat.points.size(); ++p) {
        PBT_T(no[k][i][p].size() == mat.cols, "opened_columns");
        for (size_t j = 0; j < mat.cols; ++j)
          PBT_T(no[k][i][p][j] == Horner(mat.coeffs[j], mat.points[p]),
                "opened_value");
      }
    }
  }

  // The proof may pass through bytes and clones as well.
  std::vector<uint8_t> bytes = Bytes(c, proof, S(fri_proof_serialize));
  auto* proof2 = S(fri_proof_deserialize)(bytes.data(), bytes.size());
  auto* proof3 = S(fri_proof_clone)(proof2);
  PBT_T(Bytes(c, proof3, S(fri_proof_serialize)) == bytes, "proof_round_trip");
  std::vector<uint8_t> hint = Bytes(c, proof, S(fri_proof_write_hint));
  PBT_T(hint == Bytes(c, proof3, S(fri_proof_write_hint)), "proof_hint");
  std::vector<uint8_t> ob = Bytes(c, opened, S(opened_values_serialize));
  auto* opened2 = S(opened_values_create)(rounds);
  for (size_t k = 0; k < rounds; ++k) {
    size_t m = all[k].size();
    S(opened_values_allocate_outer)
    (opened2, k, m, all[k][0].points.size());
    for (size_t i = 0; i < m; ++i) {
      Matrix& mat = all[k][i];
      S(opened_values_allocate_inner)
      (opened2, k, i, mat.points.size(), mat.cols);
      for (size_t p = 0; p < mat.points.size(); ++p)
        for (size_t j = 0; j < mat.cols; ++j) {
          E v = Horner(mat.coeffs[j], mat.points[p]);
          tachyon_baby_bear4 cv = c_cast(v);
          S(opened_values_set)(opened2, k, i, p, j, &cv);
        }
    }
  }
  PBT_T(Bytes(c, opened2, S(opened_values_serialize)) == ob,
        "opened_values_rebuilt");
  auto* points2 = S(opening_points_clone)(points);

  auto verify = [&](auto* pts, auto* vals, auto* prf) {
    auto* ch = start();
    bool ok = S(two_adic_fri_verify)(pcs, commit_vec, domains, pts, vals, prf,
                                     ch);
    if (ok) {
      // Both challengers end in the same state.
      auto* pc = S(duplex_challenger_clone)(pch);
      PBT_T(Sample(ch) == Sample(pc), "challengers_differ");
      S(duplex_challenger_destroy)(pc);
    }
    S(duplex_challenger_destroy)(ch);
    return ok;
  };
  PBT_T(verify(points, opened, proof), "honest_rejected");
  PBT_T(verify(points2, opened2, proof3), "honest_copies_rejected");

  // One thing is changed.
  size_t k = c.Draw(rounds - 1), i = c.Draw(all[k].size() - 1);
  Matrix& mat = all[k][i];
  size_t p = c.Draw(mat.points.size() - 1), j = c.Draw(mat.cols - 1);
  std::vector<F> dv = pbt::BulkPrimeFields<F>(r, 4);
  if (dv[0].IsZero()) dv[0] = F::One();
  E delta = E::FromBasePrimeFields(absl::MakeConstSpan(dv));
  switch (c.Draw(2)) {
    case 0: {
      c.Label("forged:value");
      E v = Horner(mat.coeffs[j], mat.points[p]) + delta;
      tachyon_baby_bear4 cv = c_cast(v);
      auto* bad = S(opened_values_clone)(opened2);
      S(opened_values_set)(bad, k, i, p, j, &cv);
      PBT_T(!verify(points, bad, proof), "forged_value_accepted");
      PBT_T(Bytes(c, opened2, S(opened_values_serialize)) == ob,
            "values_clone_follows");
      S(opened_values_destroy)(bad);
      break;
    }
    case 1: {
      c.Label("forged:point");
      bool constant = true;
      for (auto& col : mat.coeffs)
        for (size_t q = 1; q < col.size(); ++q)
          constant = constant && col[q].IsZero();
      E v = mat.points[p] + delta;
      tachyon_baby_bear4 cv = c_cast(v);
      auto* bad = S(opening_points_clone)(points2);
      S(opening_points_set)(bad, k, i, p, &cv);
      if (!constant)
        PBT_T(!verify(bad, opened, proof), "forged_point_accepted");
      PBT_T(verify(points2, opened, proof), "points_clone_follows");
      S(opening_points_destroy)(bad);
      break;
    }
    default: {
      c.Label("forged:commitment");
      tachyon_baby_bear cm[kChunk];
      for (size_t q = 0; q < kChunk; ++q) cm[q] = c_cast(commitments[k][q]);
      size_t q = c.Draw(kChunk - 1);
      F v = commitments[k][q] + dv[0];
      cm[q] = c_cast(v);
      S(commitment_vec_set)(commit_vec, k, cm);
      PBT_T(!verify(points, opened, proof), "forged_commitment_accepted");
    }
  }

  S(opening_points_destroy)(points);
  S(opening_points_destroy)(points2);
  S(opened_values_destroy)(opened);
  S(opened_values_destroy)(opened2);
  S(fri_proof_destroy)(proof);
  S(fri_proof_destroy)(proof2);
  S(fri_proof_destroy)(proof3);
  S(duplex_challenger_destroy)(pch);
  S(field_merkle_tree_vec_destroy)(tree_vec);
  for (auto* t : trees) S(field_merkle_tree_destroy)(t);
  S(commitment_vec_destroy)(commit_vec);
  S(domains_destroy)(domains);
  S(two_adic_fri_destroy)(pcs);
}

// The nested containers of opening points and opened values.
void Containers(Case& c) {
  size_t rounds = c.Size(1, 4);
  auto* pts = S(opening_points_create)(rounds);
  auto* vals = S(opened_values_create)(rounds);
  std::vector<std::vector<std::vector<E>>> mp(rounds);
  std::vector<std::vector<std::vector<std::vector<E>>>> mv(rounds);
  pbt::Rng r = c.Bulk();
  auto any = [&r] {
    std::vector<F> v = pbt::BulkPrimeFields<F>(r, 4);
    return E::FromBasePrimeFields(absl::MakeConstSpan(v));
  };
  size_t entries = 0;
  for (size_t k = 0; k < rounds; ++k) {
    size_t rows = r.Upto(6), cols = r.Upto(6);
    S(opening_points_allocate)(pts, k, rows, cols);
    S(opened_values_allocate_outer)(vals, k, rows, cols);
    mp[k].assign(rows, std::vector<E>(cols));
    mv[k].assign(rows, std::vector<std::vector<E>>(cols));
    for (size_t i = 0; i < rows; ++i) {
      size_t size = r.Upto(8);
      S(opened_values_allocate_inner)(vals, k, i, cols, size);
      for (size_t j = 0; j < cols; ++j) {
        mp[k][i][j] = any();
        tachyon_baby_bear4 cv = c_cast(mp[k][i][j]);
        S(opening_points_set)(pts, k, i, j, &cv);
        for (size_t q = 0; q < size; ++q) {
          mv[k][i][j].push_back(any());
          cv = c_cast(mv[k][i][j].back());
          S(opened_values_set)(vals, k, i, j, q, &cv);
          ++entries;
        }
      }
    }
  }
  if (entries > 10) c.Nontrivial();
  PBT_T(native_cast(*pts) == mp, "points");
  PBT_T(native_cast(*vals) == mv, "values");
  auto* p2 = S(opening_points_clone)(pts);
  auto* v2 = S(opened_values_clone)(vals);
  // Every number once and the lengths of all levels.
  std::vector<uint8_t> b = Bytes(c, vals, S(opened_values_serialize));
  PBT_T(b.size() >= entries * sizeof(E), "serialized_size");
  S(opening_points_destroy)(pts);
  S(opened_values_destroy)(vals);
  PBT_T(native_cast(*p2) == mp, "points_clone");
  PBT_T(native_cast(*v2) == mv, "values_clone");
  PBT_T(Bytes(c, v2, S(opened_values_serialize)) == b, "serialized_clone");
  S(opening_points_destroy)(p2);
  S(opened_values_destroy)(v2);
}

void RegisterAll() {
  F::Init();
  E::Init();
  pbt::Register("sp1.challenger", 1500, 20000, ChallengerTest);
  pbt::Register("sp1.containers", 1000, 20000, Containers);
  pbt::Register("sp1.fri", 150, 3000, Exchange);
}

PBT_INIT(RegisterAll);

}  // namespace
