#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear.h"
#include "tachyon/math/finite_fields/mersenne31/mersenne31.h"
#include "tachyon/math/finite_fields/test/gf7.h"
#include "tachyon/math/finite_fields/goldilocks/goldilocks.h"

#include "verif/primefield/props.h"

namespace {
[[maybe_unused]] int r_baby_bear = pf::P<tachyon::math::BabyBear>::RegisterAll("baby_bear");
[[maybe_unused]] int r_koala_bear = pf::P<tachyon::math::KoalaBear>::RegisterAll("koala_bear");
[[maybe_unused]] int r_mersenne31 = pf::P<tachyon::math::Mersenne31>::RegisterAll("mersenne31");
[[maybe_unused]] int r_gf7 = pf::P<tachyon::math::GF7>::RegisterAll("gf7");
[[maybe_unused]] int r_goldilocks = pf::P<tachyon::math::Goldilocks>::RegisterAll("goldilocks");
}  // namespace
