#include "tachyon/math/elliptic_curves/bls12/bls12_381/fq.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fr.h"

#include "verif/primefield/props.h"

namespace {
[[maybe_unused]] int r_bls12_381_fq = pf::P<tachyon::math::bls12_381::Fq>::RegisterAll("bls12_381_fq");
[[maybe_unused]] int r_bls12_381_fr = pf::P<tachyon::math::bls12_381::Fr>::RegisterAll("bls12_381_fr");
}  // namespace
