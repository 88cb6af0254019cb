// C22
#include "tachyon/zk/base/commitments/gwc_extension.h"

#include "verif/plonk/e2e.h"

namespace {
using PCS = tachyon::zk::GWCExtension<
    tachyon::math::bn254::BN254Curve, plonk_pbt::kMaxDegree,
    plonk_pbt::kMaxExtendedDegree, tachyon::math::bn254::G1AffinePoint>;
using PS = tachyon::zk::plonk::halo2::ProvingScheme<
    tachyon::zk::plonk::halo2::Vendor::kScroll, tachyon::zk::lookup::Type::kLogDerivativeHalo2,
    PCS>;
void RegisterAll() { plonk_pbt::Register<PS>("gwc_log"); }
}  // namespace
PBT_INIT(RegisterAll);
