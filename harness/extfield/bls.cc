#include "tachyon/math/elliptic_curves/bls12/bls12_381/fq12.h"

#include "verif/extfield/props.h"

namespace {
using namespace tachyon::math::bls12_381;
using ef::Tower;
const Tower::Level k2 = {2, {-1}};
const Tower::Level k6 = {3, {1, 1}};
const Tower::Level k12 = {2, {0, 0, 1, 0, 0, 0}};
[[maybe_unused]] int r2 =
    ef::P<Fq2, 0>::RegisterAll("bls12_381_fq2", {k2}, 1);
[[maybe_unused]] int r6 =
    ef::P<Fq6, 0>::RegisterAll("bls12_381_fq6", {k2, k6}, 6);
[[maybe_unused]] int r12 =
    ef::P<Fq12, 0>::RegisterAll("bls12_381_fq12", {k2, k6, k12}, 20);
}  // namespace
