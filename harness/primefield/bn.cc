#include "tachyon/math/elliptic_curves/bn/bn254/fq.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"

#include "verif/primefield/props.h"

namespace {
[[maybe_unused]] int r_bn254_fq = pf::P<tachyon::math::bn254::Fq>::RegisterAll("bn254_fq");
[[maybe_unused]] int r_bn254_fr = pf::P<tachyon::math::bn254::Fr>::RegisterAll("bn254_fr");
}  // namespace
