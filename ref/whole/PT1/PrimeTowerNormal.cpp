// What the functions of this unit compute.
#include "PrimeTower/PrimeTowerNormal.h"
#include "Application.h"
#include "LayerPlan.h"
#include "Scene.h"
#include "Slice.h"
#include "sliceDataStorage.h"
namespace cura
{
//= cura::PrimeTowerNormal::PrimeTowerNormal
PrimeTowerNormal::PrimeTowerNormal(const std::vector<size_t>& used_extruders)
    : PrimeTower()
    , used_extruders_(used_extruders)
{
}
//END
}
