// What the functions of this unit compute.
#include "PrimeTower/PrimeTowerInterleaved.h"
#include "Application.h"
#include "LayerPlan.h"
#include "Scene.h"
#include "Slice.h"
#include "sliceDataStorage.h"
namespace cura
{
//= cura::PrimeTowerInterleaved::PrimeTowerInterleaved
PrimeTowerInterleaved::PrimeTowerInterleaved()
    : PrimeTower()
{
}
//END
//= cura::PrimeTowerInterleaved::polishExtrudersUses
void PrimeTowerInterleaved::polishExtrudersUses(LayerVector<std::vector<ExtruderUse>>& extruders_use, const size_t start_extruder)
{
    size_t last_used_extruder = start_extruder;
    for (auto iterator = extruders_use.begin(); iterator != extruders_use.end(); ++iterator)
    {
        std::vector<ExtruderUse>& extruders_use_at_layer = *iterator;
        if (extruders_use_at_layer.empty())
        {
            extruders_use_at_layer.push_back(ExtruderUse{ last_used_extruder, ExtruderPrime::Support });
        }
        else if (std::all_of(
                     extruders_use_at_layer.begin(),
                     extruders_use_at_layer.end(),
                     [](const ExtruderUse& extruder_use)
                     {
                         return extruder_use.prime == ExtruderPrime::None;
                     }))
        {
            extruders_use_at_layer.back().prime = ExtruderPrime::Support;
        }
        last_used_extruder = extruders_use_at_layer.back().extruder_nr;
    }
}
//END
}
