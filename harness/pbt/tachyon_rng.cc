// Library code draws from a process-wide generator seeded by the system.
// Reseeding it before every case makes each case a function of its choices.
#include <random>

#include "tachyon/base/random.h"

#include "verif/pbt/pbt.h"

namespace {
void Reseed(uint64_t s) {
  std::seed_seq seq{static_cast<uint32_t>(s), static_cast<uint32_t>(s >> 32)};
  tachyon::base::GetAbslBitGen() = absl::BitGen(seq);
}
int reg [[maybe_unused]] = pbt::RegisterBeforeCase(&Reseed);
}  // namespace
