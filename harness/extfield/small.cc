#include "tachyon/math/circle/m31/fq4.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"
#include "tachyon/math/finite_fields/goldilocks/internal/goldilocks2.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear4.h"
#include "tachyon/math/finite_fields/test/gf7_2.h"
#include "tachyon/math/finite_fields/test/gf7_3.h"

#include "verif/extfield/props.h"

namespace {
using namespace tachyon::math;
[[maybe_unused]] int a =
    ef::P<BabyBear4, 0>::RegisterAll("baby_bear4", {{4, {11}}}, 2);
[[maybe_unused]] int b =
    ef::P<KoalaBear4, 0>::RegisterAll("koala_bear4", {{4, {3}}}, 2);
[[maybe_unused]] int g =
    ef::P<Goldilocks2, 0>::RegisterAll("goldilocks2", {{2, {7}}}, 1);
[[maybe_unused]] int d =
    ef::P<m31::Fq2, 0>::RegisterAll("m31_fq2", {{2, {-1}}}, 1);
[[maybe_unused]] int e =
    ef::P<m31::Fq4, 0>::RegisterAll("m31_fq4", {{2, {-1}}, {2, {2, 1}}}, 2);
[[maybe_unused]] int f7 =
    ef::P<GF7_2, 0>::RegisterAll("gf7_2", {{2, {-1}}}, 1);
[[maybe_unused]] int f73 =
    ef::P<GF7_3, 0>::RegisterAll("gf7_3", {{3, {2}}}, 1);
}  // namespace
