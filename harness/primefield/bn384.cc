#include "tachyon/math/elliptic_curves/bn/bn384_small_two_adicity/fq.h"
#include "tachyon/math/elliptic_curves/bn/bn384_small_two_adicity/fr.h"

#include "verif/primefield/props.h"

namespace {
[[maybe_unused]] int r_bn384_fq = pf::P<tachyon::math::bn384_small_two_adicity::Fq>::RegisterAll("bn384_fq");
[[maybe_unused]] int r_bn384_fr = pf::P<tachyon::math::bn384_small_two_adicity::Fr>::RegisterAll("bn384_fr");
}  // namespace
