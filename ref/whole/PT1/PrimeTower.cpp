// What the functions of this unit compute.
#include "PrimeTower/PrimeTower.h"
#include <algorithm>
#include <limits>
#include <numbers>
#include <spdlog/spdlog.h>
#include "Application.h"
#include "ExtruderTrain.h"
#include "LayerPlan.h"
#include "PrimeTower/PrimeTowerInterleaved.h"
#include "PrimeTower/PrimeTowerNormal.h"
#include "Scene.h"
#include "Slice.h"
#include "gcode_export/gcodeExport.h"
#include "infill.h"
#include "raft.h"
#include "sliceDataStorage.h"
namespace cura
{
//= cura::PrimeTower::generateBase
void PrimeTower::generateBase()
{
    const Scene& scene = Application::getInstance().current_slice_->scene;
    const Settings& mesh_group_settings = scene.current_mesh_group->settings;
    const bool base_enabled = mesh_group_settings.get<bool>("prime_tower_brim_enable");
    const coord_t base_extra_radius = scene.settings.get<coord_t>("prime_tower_base_size");
    const coord_t base_height = scene.settings.get<coord_t>("prime_tower_base_height");
    if (base_enabled && base_extra_radius > 0 && base_height > 0)
    {
        base_extrusion_outline_.init(true);
        auto iterator_extrusion_paths = toolpaths_.begin();
        auto iterator_base_outline = base_occupied_outline_.begin();
        for (; iterator_extrusion_paths != toolpaths_.end() && iterator_base_outline != base_occupied_outline_.end(); ++iterator_extrusion_paths, ++iterator_base_outline)
        {
            std::vector<ExtruderToolPaths>& toolpaths_at_this_layer = iterator_extrusion_paths->second;
            if (! toolpaths_at_this_layer.empty())
            {
                const OccupiedOutline& base_ouline_at_this_layer = *iterator_base_outline;
                ExtruderToolPaths& first_extruder_toolpaths = toolpaths_at_this_layer.front();
                const size_t extruder_nr = first_extruder_toolpaths.extruder_nr;
                const coord_t line_width = scene.extruders[extruder_nr].settings_.get<coord_t>("prime_tower_line_width");
                std::tuple<ClosedLinesSet, coord_t> outset
                    = PolygonUtils::generateCirculatOutset(middle_, first_extruder_toolpaths.outer_radius, base_ouline_at_this_layer.outer_radius, line_width, circle_definition_);
                first_extruder_toolpaths.toolpaths.push_back(std::get<0>(outset));
                base_extrusion_outline_.push_back(PolygonUtils::makeDisc(middle_, std::get<1>(outset), circle_definition_));
            }
        }
    }
}
//END
}
