// C15: Poseidon2 over small fields.
#include "verif/sponge/poseidon2.h"

#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_koala_bear.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_mersenne31.h"
#include "tachyon/math/finite_fields/baby_bear/internal/packed_baby_bear.h"
#include "tachyon/math/finite_fields/koala_bear/internal/packed_koala_bear.h"
#include "tachyon/math/finite_fields/mersenne31/internal/packed_mersenne31.h"

namespace {
using namespace sponge;  // NOLINT
template <V E, V I, typename F, size_t R, uint32_t A>
using PP = tc::Poseidon2Params<E, I, F, R, A>;

void RegisterAll() {
  using tm::BabyBear;
  using tm::KoalaBear;
  using tm::Mersenne31;
  using tm::PackedBabyBear;
  using tm::PackedKoalaBear;
  using tm::PackedMersenne31;
  Reg2<PP<kH, kH, BabyBear, 15, 7>>("baby_bear_16_hh", 24, UINT64_C(0x85356ce125413a1));
  Reg2<PP<kP, kP, BabyBear, 15, 7>>("baby_bear_16_pp", 24, UINT64_C(0xeaf5340855b366));
  Reg2<PP<kH, kP, BabyBear, 23, 7>>("baby_bear_24_hp", 12, UINT64_C(0x1be1b299b22147b));
  Reg2<PP<kP, kH, BabyBear, 23, 7>>("baby_bear_24_ph", 12, UINT64_C(0xb478f188c5213d9));
  Reg2<PP<kP, kP, KoalaBear, 15, 7>>("koala_bear_16_pp", 16, UINT64_C(0xeaf5340855b366));
  Reg2<PP<kP, kP, KoalaBear, 23, 7>>("koala_bear_24_pp", 12, UINT64_C(0x8f1abf26821dc93));
  Reg2<PP<kP, kP, Mersenne31, 15, 5>>("mersenne31_16_pp", 24, UINT64_C(0x9efb2ad8e2b495d));
  Reg2<PP<kH, kP, Mersenne31, 23, 5>>("mersenne31_24_hp", 12, UINT64_C(0x8f1abf26821dc92));
  Reg2<PP<kP, kP, PackedBabyBear, 15, 7>>("packed_baby_bear_16_pp", 6, UINT64_C(0xeaf5340855b366));
  Reg2<PP<kH, kH, PackedBabyBear, 23, 7>>("packed_baby_bear_24_hh", 4, UINT64_C(0xb478f188c5213d9));
  Reg2<PP<kH, kP, PackedKoalaBear, 15, 7>>("packed_koala_bear_16_hp", 5, UINT64_C(0xeaf5340855b366));
  Reg2<PP<kP, kP, PackedMersenne31, 15, 5>>("packed_mersenne31_16_pp", 5, UINT64_C(0x9efb2ad8e2b495d));
  Reg2<PP<kP, kP, PackedMersenne31, 23, 5>>("packed_mersenne31_24_pp", 4, UINT64_C(0x8f1abf26821dc92));
}

}  // namespace
PBT_INIT(RegisterAll);
