#include "tachyon/math/elliptic_curves/pasta/pallas/fq.h"
#include "tachyon/math/elliptic_curves/pasta/pallas/fr.h"
#include "tachyon/math/elliptic_curves/pasta/vesta/fq.h"
#include "tachyon/math/elliptic_curves/pasta/vesta/fr.h"

#include "verif/primefield/props.h"

namespace {
[[maybe_unused]] int r_pallas_fq = pf::P<tachyon::math::pallas::Fq>::RegisterAll("pallas_fq");
[[maybe_unused]] int r_pallas_fr = pf::P<tachyon::math::pallas::Fr>::RegisterAll("pallas_fr");
[[maybe_unused]] int r_vesta_fq = pf::P<tachyon::math::vesta::Fq>::RegisterAll("vesta_fq");
[[maybe_unused]] int r_vesta_fr = pf::P<tachyon::math::vesta::Fr>::RegisterAll("vesta_fr");
}  // namespace
