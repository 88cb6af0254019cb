// C15: Poseidon2 over Goldilocks and the scalar fields of curves.
#include "verif/sponge/poseidon2.h"

#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_bls12_381.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_bn254.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_goldilocks.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_pallas.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_vesta.h"

namespace {
using namespace sponge;  // NOLINT
template <V E, typename F, size_t R, uint32_t A>
using PP = tc::Poseidon2Params<E, kH, F, R, A>;

void RegisterAll() {
  using G = tm::Goldilocks;
  Reg2<PP<kH, G, 7, 7>>("goldilocks_8", 24, UINT64_C(0xea715e6b1289af8));
  Reg2<PP<kP, G, 15, 7>>("goldilocks_16", 12, UINT64_C(0xf6363bc5f3ab22));
  Reg2<tc::Poseidon2Params<kH, kH, G, 11, 7, 1, 8, 22>>("goldilocks_12", 12, UINT64_C(0x3065328322061f2));
  Reg2<tc::Poseidon2Params<kP, kP, G, 19, 7, 1, 6, 11>>("goldilocks_20", 12, UINT64_C(0xb54b5faac8829ce));
  Reg2<PP<kH, tm::bn254::Fr, 2, 5>>("bn254_3", 12, UINT64_C(0xe8d50fdfce));
  Reg2<PP<kH, tm::pallas::Fr, 2, 5>>("pallas_3", 8, UINT64_C(0xe8d50fdfce));
  Reg2<PP<kH, tm::pallas::Fr, 3, 5>>("pallas_4", 8, UINT64_C(0x85a89c9d6addc76));
  Reg2<PP<kP, tm::pallas::Fr, 7, 5>>("pallas_8", 4, UINT64_C(0x46493035659d962));
  Reg2<PP<kH, tm::vesta::Fr, 2, 5>>("vesta_3", 8, UINT64_C(0xe8d50fdfce));
  Reg2<PP<kH, tm::bls12_381::Fr, 1, 5>>("bls12_381_2", 12, UINT64_C(0xf4245));
  Reg2<PP<kP, tm::bls12_381::Fr, 2, 5>>("bls12_381_3", 8, UINT64_C(0xe8d50fdfce));
  Reg2<PP<kP, tm::bls12_381::Fr, 3, 5>>("bls12_381_4", 8, UINT64_C(0xed1fed847bec2ea));
  Reg2<PP<kH, tm::bls12_381::Fr, 7, 5>>("bls12_381_8", 4, UINT64_C(0x30e2ef6f7b115d8));
}

}  // namespace
PBT_INIT(RegisterAll);
