#include "tachyon/math/elliptic_curves/secp/secp256k1/fq.h"
#include "tachyon/math/elliptic_curves/secp/secp256k1/fr.h"

#include "verif/primefield/props.h"

namespace {
[[maybe_unused]] int r_secp256k1_fq = pf::P<tachyon::math::secp256k1::Fq>::RegisterAll("secp256k1_fq");
[[maybe_unused]] int r_secp256k1_fr = pf::P<tachyon::math::secp256k1::Fr>::RegisterAll("secp256k1_fr");
}  // namespace
