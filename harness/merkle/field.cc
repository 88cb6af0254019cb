// C16: Merkle trees over matrices of different heights.
#include <array>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "tachyon/base/buffer/vector_buffer.h"
#include "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/extension_field_merkle_tree_mmcs.h"
#include "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree.h"
#include "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h"
#include "tachyon/crypto/hashes/sponge/padding_free_sponge.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2_params.h"
#include "tachyon/crypto/hashes/sponge/truncated_permutation.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"
#include "tachyon/math/finite_fields/baby_bear/packed_baby_bear4.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear4.h"
#include "tachyon/math/finite_fields/koala_bear/packed_koala_bear4.h"
#include "tachyon/math/finite_fields/mersenne31/mersenne31.h"

#include "verif/merkle/toy.h"
#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace {
using namespace pbt;  // NOLINT
namespace tc = tachyon::crypto;
namespace tm = tachyon::math;

template <typename F_, typename ExtF_, size_t N>
struct Toy {
  using F = F_;
  using ExtF = ExtF_;
  static constexpr size_t kN = N;
  using Pk = typename tm::PackedFieldTraits<F>::PackedField;
  using H = ToyHasher<F, N>;
  using PH = ToyHasher<Pk, N>;
  using C = ToyCompressor<F, N>;
  using PC = ToyCompressor<Pk, N>;
  static constexpr size_t kMaxLog = 10;
};

struct Pos {
  using F = tm::BabyBear;
  using ExtF = tm::BabyBear4;
  static constexpr size_t kN = 8;
  using Pk = tm::PackedBabyBear;
  template <typename T>
  using S = tc::Poseidon2Sponge<tc::Poseidon2Params<
      tc::Poseidon2Vendor::kPlonky3, tc::Poseidon2Vendor::kPlonky3, T, 15, 7>>;
  using H = tc::PaddingFreeSponge<S<F>, 8, 8>;
  using PH = tc::PaddingFreeSponge<S<Pk>, 8, 8>;
  using C = tc::TruncatedPermutation<S<F>, 8, 2>;
  using PC = tc::TruncatedPermutation<S<Pk>, 8, 2>;
  static constexpr size_t kMaxLog = 6;
};

// |V| is what matrices hold: the field or its extension.
template <typename K, bool kExt>
struct Mmcs {
  using F = typename K::F;
  using V = std::conditional_t<kExt, typename K::ExtF, F>;
  static constexpr size_t kN = K::kN;
  using Digest = std::array<F, kN>;
  using Inner = tc::FieldMerkleTreeMMCS<V, typename K::H, typename K::PH,
                                        typename K::C, typename K::PC, kN>;
  using Scheme =
      std::conditional_t<kExt, tc::ExtensionFieldMerkleTreeMMCS<V, Inner>, Inner>;
  using Tree = tc::FieldMerkleTree<V, kN>;
  using M = tm::RowMajorMatrix<V>;
  using Proof = std::vector<Digest>;
  using Openings = std::vector<std::vector<V>>;

  struct Fns {
    typename K::H h;
    typename K::PH ph;
    typename K::C c;
    typename K::PC pc;
    Scheme scheme;
    Fns() : scheme(Make()) {}
    Scheme Make() {
      if constexpr (kExt) {
        return Scheme(Inner(h, ph, c, pc));
      } else {
        return Scheme(h, ph, c, pc);
      }
    }
  };
  static Fns& Get() {
    static Fns* f = [] {
      F::Init();
      K::ExtF::Init();
      K::Pk::Init();
      return new Fns();
    }();
    return *f;
  }

  static void Flatten(const V& v, std::vector<F>* out) {
    if constexpr (kExt) {
      for (size_t i = 0; i < 4; ++i) out->push_back(v[i]);
    } else {
      out->push_back(v);
    }
  }
  static V Value(Rng& r) {
    if constexpr (kExt) {
      V v = V::Zero();
      for (size_t i = 0; i < 4; ++i) v[i] = BulkPrimeField<F>(r);
      return v;
    } else {
      return BulkPrimeField<F>(r);
    }
  }
  static size_t Ceil(size_t n) {
    size_t p = 1;
    while (p < n) p *= 2;
    return p;
  }
  static Digest Comp(const Digest& a, const Digest& b) {
    Digest in[] = {a, b};
    return Get().c.Compress(in);
  }

  // Matrices whose heights round up to the same power of two are equally high.
  static std::vector<M> Matrices(Case& c) {
    size_t log = c.OneIn(6) ? K::kMaxLog : c.Draw(5);
    size_t count = 1 + c.Draw(c.OneIn(4) ? 9 : 4);
    bool pow2 = c.Bool();
    std::map<size_t, size_t> height;  // of each power of two
    Rng r = c.Bulk();
    std::vector<M> out;
    for (size_t i = 0; i < count; ++i) {
      size_t l = i == 0 ? log : c.OneIn(3) ? log : c.Draw(log);
      if (!height.count(l)) {
        size_t low = l == 0 ? 1 : (size_t{1} << (l - 1)) + 1;
        size_t high = size_t{1} << l;
        height[l] = pow2 ? high : low + c.Draw(high - low);
      }
      size_t cols = 1 + c.Draw(c.OneIn(6) ? 20 : 5);
      M m(height[l], cols);
      int how = c.Draw(4);
      for (size_t a = 0; a < height[l]; ++a)
        for (size_t b = 0; b < cols; ++b)
          m(a, b) = how == 0 ? V::Zero() : how == 1 ? (a ? m(0, b) : Value(r)) : Value(r);
      out.push_back(std::move(m));
    }
    // any order
    for (size_t i = count; i > 1; --i) std::swap(out[i - 1], out[c.Draw(i - 1)]);
    return out;
  }

  static Digest HashRows(const std::vector<M>& ms, size_t level, size_t j, bool* any) {
    std::vector<F> row;
    Digest zero;
    for (F& f : zero) f = F::Zero();
    *any = false;
    bool in = false;
    for (auto& m : ms) {
      if (Ceil(m.rows()) != level) continue;
      *any = true;
      if (j >= size_t(m.rows())) continue;
      in = true;
      for (Eigen::Index k = 0; k < m.cols(); ++k) Flatten(m(j, k), &row);
    }
    return in ? Get().h.Hash(row) : zero;
  }
  static Digest Node(const std::vector<M>& ms, size_t top, size_t level, size_t j) {
    bool any;
    if (level == top) return HashRows(ms, level, j, &any);
    Digest d = Comp(Node(ms, top, 2 * level, 2 * j), Node(ms, top, 2 * level, 2 * j + 1));
    Digest h = HashRows(ms, level, j, &any);
    return any ? Comp(d, h) : d;
  }

  // The path written out.
  static bool RefVerify(const Digest& root, const std::vector<tm::Dimensions>& dims,
                        size_t index, const Openings& o, const Proof& p) {
    size_t top = 0;
    for (auto d : dims) top = std::max(top, Ceil(d.height));
    auto hash = [&](size_t level, bool* any) {
      std::vector<F> row;
      *any = false;
      for (size_t i = 0; i < dims.size(); ++i) {
        if (Ceil(dims[i].height) != level) continue;
        *any = true;
        for (auto& v : o[i]) Flatten(v, &row);
      }
      return *any ? Get().h.Hash(row) : Digest();
    };
    bool any;
    Digest d = hash(top, &any);
    for (auto& s : p) {
      d = index & 1 ? Comp(s, d) : Comp(d, s);
      index /= 2;
      top /= 2;
      if (top == 0) continue;
      Digest h = hash(top, &any);
      if (any) d = Comp(d, h);
    }
    return d == root;
  }

  static void Run(Case& c) {
    Fns& f = Get();
    std::vector<M> ms = Matrices(c);
    size_t top = 0, max_rows = 0;
    std::vector<tm::Dimensions> dims;
    std::string note;
    size_t levels = 0;
    std::map<size_t, int> seen;
    for (auto& m : ms) {
      top = std::max(top, Ceil(m.rows()));
      max_rows = std::max<size_t>(max_rows, m.rows());
      dims.push_back({size_t(m.cols()), size_t(m.rows())});
      if (!seen[Ceil(m.rows())]++) ++levels;
      note += std::to_string(m.rows()) + "x" + std::to_string(m.cols()) + " ";
    }
    c.Note(note);
    c.LabelIf(levels > 1, "different heights");
    c.LabelIf(ms.size() > levels, "equal heights");
    c.Nontrivial(ms.size() > 1 && top > 1);
    Digest want = Node(ms, top, 1, 0);

    Digest root;
    Tree data;
    std::vector<M> copy = ms;
    std::vector<Eigen::Map<const M>> maps;
    for (const M& m : ms) maps.push_back(tm::Map(m));
    switch (c.Draw(2)) {
      case 0:
        PBT_T(f.scheme.CommitOwned(std::move(copy), &root, &data), "commit");
        break;
      case 1:
        if (ms.size() == 1) {
          if (ms[0].cols() == 1) {
            std::vector<V> v(ms[0].data(), ms[0].data() + ms[0].rows());
            PBT_T(f.scheme.CommitOwned(v, &root, &data), "commit a vector");
          } else {
            PBT_T(f.scheme.Commit(maps[0], &root, &data), "commit a matrix");
          }
          break;
        }
        [[fallthrough]];
      default:
        PBT_T(f.scheme.Commit(std::move(maps), &root, &data), "commit");
    }
    PBT_T(root == want, "root");
    PBT_T(data.GetRoot() == want, "root of the tree");
    PBT_T(f.scheme.GetMatrices(data).size() == ms.size(), "matrices");
    for (size_t i = 0; i < ms.size(); ++i)
      PBT_T(f.scheme.GetMatrices(data)[i] == ms[i], "matrices");
    PBT_T(f.scheme.GetMaxRowSize(data) == max_rows, "rows");
    if (c.OneIn(6)) {  // the tree read back opens alike
      tachyon::base::Uint8VectorBuffer b;
      PBT_T(b.Grow(tachyon::base::EstimateSize(data)), "grow");
      PBT_T(b.Write(data) && b.Done(), "write");
      b.set_buffer_offset(0);
      Tree t;
      PBT_T(b.Read(&t), "read");
      PBT_T(t == data, "tree read back");
      data = std::move(t);
    }
    size_t log = 0;
    while ((size_t{1} << log) < top) ++log;
    for (int k = 0; k < 3; ++k) {
      size_t index = c.Draw(max_rows - 1);
      Openings o;
      Proof p;
      bool padded = false;
      for (auto& m : ms) padded |= index / (top / Ceil(m.rows())) >= size_t(m.rows());
      bool ok = f.scheme.CreateOpeningProof(index, data, &o, &p);
      c.LabelIf(padded, "no row to open");
      PBT_TM(ok == !padded, "open", "index " << index << " of " << note);
      if (!ok) continue;
      PBT_T(o.size() == ms.size() && p.size() == log, "size of the opening");
      for (size_t i = 0; i < ms.size(); ++i) {
        size_t row = index / (top / Ceil(ms[i].rows()));
        PBT_T(o[i].size() == size_t(ms[i].cols()), "opened row");
        for (size_t j = 0; j < o[i].size(); ++j)
          PBT_T(o[i][j] == ms[i](row, j), "opened value");
      }
      PBT_T(f.scheme.VerifyOpeningProof(root, dims, index, o, p), "verify");
      // one change
      Digest root2 = root;
      size_t index2 = index;
      Openings o2 = o;
      Proof p2 = p;
      auto dims2 = dims;
      auto bump = [&](Digest& d) { d[c.Draw(kN - 1)] += NonZeroPrimeField<F>(c); };
      const char* what = "";
      switch (c.Draw(6)) {
        case 0:
          what = "root";
          bump(root2);
          break;
        case 1: {
          what = "value";
          auto& row = o2[c.Draw(o.size() - 1)];
          V& v = row[c.Draw(row.size() - 1)];
          if constexpr (kExt) {
            v[c.Draw(3)] += NonZeroPrimeField<F>(c);
          } else {
            v += NonZeroPrimeField<F>(c);
          }
          break;
        }
        case 2:
          what = "index";
          if (log) index2 ^= size_t{1} << c.Draw(log - 1);
          break;
        case 3:
          what = "sibling";
          if (log) bump(p2[c.Draw(log - 1)]);
          break;
        case 4:
          what = "length of the proof";
          if (log && c.Bool()) {
            p2.erase(p2.begin() + c.Draw(log - 1));
          } else {
            Digest d = root;
            p2.insert(p2.begin() + c.Draw(log), d);
          }
          break;
        case 5: {
          what = "order of siblings or rows";
          if (log > 1 && c.Bool()) {
            std::swap(p2[c.Draw(log - 1)], p2[c.Draw(log - 1)]);
          } else {
            std::swap(o2[c.Draw(o.size() - 1)], o2[c.Draw(o.size() - 1)]);
          }
          break;
        }
        default: {
          what = "height";
          auto& d = dims2[c.Draw(dims.size() - 1)];
          d.height = size_t{1} << c.Draw(log);
        }
      }
      bool accept = RefVerify(root2, dims2, index2, o2, p2);
      c.Label(accept ? "no real change" : what);
      // A verifier may be stricter than the path alone.
      if (!accept)
        PBT_TM(!f.scheme.VerifyOpeningProof(root2, dims2, index2, o2, p2),
               "verify a change", what);
    }
  }
};

void RegisterAll() {
  using BB = Toy<tm::BabyBear, tm::BabyBear4, 4>;
  using KB = Toy<tm::KoalaBear, tm::KoalaBear4, 3>;
  using M3 = Toy<tm::Mersenne31, tm::BabyBear4, 2>;
  Register("mmcs.toy.baby_bear", 300, 3000, Mmcs<BB, false>::Run);
  Register("mmcs.toy.baby_bear4", 200, 2000, Mmcs<BB, true>::Run);
  Register("mmcs.toy.koala_bear", 150, 1500, Mmcs<KB, false>::Run);
  Register("mmcs.toy.koala_bear4", 100, 1000, Mmcs<KB, true>::Run);
  Register("mmcs.toy.mersenne31", 150, 1500, Mmcs<M3, false>::Run);
  Register("mmcs.poseidon2.baby_bear", 60, 600, Mmcs<Pos, false>::Run);
  Register("mmcs.poseidon2.baby_bear4", 40, 400, Mmcs<Pos, true>::Run);
}

}  // namespace
PBT_INIT(RegisterAll);
