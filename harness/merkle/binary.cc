// C16: binary Merkle trees.
#include <string>
#include <vector>

#include "tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h"
#include "tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/simple_binary_merkle_tree_storage.h"

#include "verif/pbt/pbt.h"

namespace {
using namespace pbt;  // NOLINT
namespace tc = tachyon::crypto;

uint64_t Mix(uint64_t x) {
  x = (x ^ (x >> 30)) * UINT64_C(0xbf58476d1ce4e5b9);
  x = (x ^ (x >> 27)) * UINT64_C(0x94d049bb133111eb);
  return x ^ (x >> 31);
}
uint64_t Leaf(uint64_t x) { return Mix(x + 1); }
uint64_t Parent(uint64_t l, uint64_t r) { return Mix(Mix(l) * 3 + r); }

class Hasher : public tc::BinaryMerkleHasher<uint64_t, uint64_t> {
 public:
  uint64_t ComputeLeafHash(const uint64_t& leaf) const override { return Leaf(leaf); }
  uint64_t ComputeParentHash(const uint64_t& l, const uint64_t& r) const override {
    return Parent(l, r);
  }
};

// Notes accesses outside and to what was not set.
class Storage : public tc::BinaryMerkleTreeStorage<uint64_t> {
 public:
  void Allocate(size_t size) override {
    h_.assign(size, 0);
    set_.assign(size, 0);
  }
  size_t GetSize() const override { return h_.size(); }
  const uint64_t& GetHash(size_t i) const override {
    static const uint64_t kNone = 0;
    if (i >= h_.size() || !set_[i]) {
      bad = true;
      return kNone;
    }
    return h_[i];
  }
  void SetHash(size_t i, const uint64_t& hash) override {
    if (i >= h_.size()) {
      bad = true;
      return;
    }
    h_[i] = hash;
    set_[i] = 1;
  }
  mutable bool bad = false;

 private:
  std::vector<uint64_t> h_;
  std::vector<char> set_;
};

uint64_t Root(const std::vector<uint64_t>& v, size_t from, size_t n) {
  if (n == 1) return Leaf(v[from]);
  return Parent(Root(v, from, n / 2), Root(v, from + n / 2, n / 2));
}

constexpr size_t kMax = 4096;
using Tree = tc::BinaryMerkleTree<uint64_t, uint64_t, kMax>;
using Proof = tc::BinaryMerkleProof<uint64_t>;

// The path written out.
bool RefVerify(uint64_t root, uint64_t leaf, const Proof& p) {
  uint64_t h = leaf;
  for (auto& x : p.paths) h = x.left ? Parent(x.hash, h) : Parent(h, x.hash);
  return h == root;
}

template <typename S>
void Commit(Case& c) {
  size_t k = c.OneIn(8) ? 12 : c.Draw(7);
  size_t n = size_t{1} << k;
  Rng r = c.Bulk();
  std::vector<uint64_t> v(n);
  bool few = c.OneIn(3);
  for (auto& x : v) x = few ? r.Upto(2) : r.Next();
  Hasher hasher;
  S storage;
  Tree tree(&storage, &hasher);
  size_t par = Tree::kDefaultLeavesSizeForParallelization;
  if (c.Draw(2)) {
    par = size_t{1} << c.Draw(k + 1);
    tree.set_leaves_size_for_parallelization(par);
    PBT_T(tree.leaves_size_for_parallelization() == par, "parallelization size");
  }
  c.LabelIf(par < n, "built from subtrees");
  c.LabelIf(n == 1, "one leaf");
  c.Nontrivial(n > 2);
  c.Note(std::to_string(n) + " leaves, subtrees of " + std::to_string(par));
  if (c.OneIn(4)) {  // a tree may be used again
    std::vector<uint64_t> w(size_t{1} << c.Draw(8));
    for (auto& x : w) x = r.Next();
    uint64_t root;
    PBT_T(tree.Commit(w, &root), "first commit");
    PBT_T(root == Root(w, 0, w.size()), "first root");
  }
  uint64_t root = 0;
  PBT_T(tree.Commit(v, &root), "commit");
  if constexpr (std::is_same_v<S, Storage>) PBT_T(!storage.bad, "storage access");
  PBT_T(root == Root(v, 0, n), "root");
  for (int k2 = 0; k2 < 3; ++k2) {
    size_t i = c.Draw(n - 1);
    Proof p;
    PBT_T(tree.CreateOpeningProof(i, &p), "open");
    if constexpr (std::is_same_v<S, Storage>) PBT_T(!storage.bad, "storage access");
    PBT_T(p.paths.size() == k, "length of the proof");
    for (size_t j = 0; j < k; ++j)
      PBT_T(p.paths[j].left == ((i >> j) & 1), "side of the path");
    PBT_T(tree.VerifyOpeningProof(root, Leaf(v[i]), p), "verify");
    // one change
    uint64_t root2 = root, leaf2 = Leaf(v[i]);
    Proof q = p;
    switch (c.Draw(4)) {
      case 0:
        root2 ^= uint64_t{1} << c.Draw(63);
        break;
      case 1:
        leaf2 ^= uint64_t{1} << c.Draw(63);
        break;
      case 2:
        if (k) q.paths[c.Draw(k - 1)].hash ^= uint64_t{1} << c.Draw(63);
        break;
      case 3:
        if (k) {
          auto& x = q.paths[c.Draw(k - 1)];
          x.left = !x.left;
        }
        break;
      default:
        if (c.Bool()) {
          if (k) q.paths.erase(q.paths.begin() + c.Draw(k - 1));
        } else {
          q.paths.insert(q.paths.begin() + c.Draw(k), {c.Bool(), r.Next()});
        }
    }
    bool want = RefVerify(root2, leaf2, q);
    c.LabelIf(want, "no real change");
    PBT_T(tree.VerifyOpeningProof(root2, leaf2, q) == want, "verify a change");
  }
}

void Refuse(Case& c) {
  Hasher hasher;
  Storage storage;
  Tree tree(&storage, &hasher);
  size_t n = c.Draw(kMax + 200);
  if (c.OneIn(8)) n = 2 * kMax;
  if (n != 0 && (n & (n - 1)) == 0 && n <= kMax) ++n;
  if (n == 2) n = 3;
  std::vector<uint64_t> v(n, 1);
  uint64_t root;
  c.Nontrivial(n > 2);
  PBT_T(!tree.Commit(v, &root), "refused");
}

void RegisterAll() {
  Register("binary.checked_storage", 400, 4000, Commit<Storage>);
  Register("binary.simple_storage", 400, 4000,
           Commit<tc::SimpleBinaryMerkleTreeStorage<uint64_t>>);
  Register("binary.refuse", 60, 600, Refuse);
}

}  // namespace
PBT_INIT(RegisterAll);
