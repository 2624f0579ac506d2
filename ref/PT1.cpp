// Prime tower.
#include <algorithm>
#include <array>
#include <unordered_set>
#include <unordered_map>
#include <set>
#include <map>
#include <list>
#include <vector>
#include <deque>
#include <memory>
#include <numeric>
#include <optional>
#include <functional>
#include <string>
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "geometry/Polygon.h"
#include "geometry/OpenPolyline.h"
#include "geometry/SingleShape.h"
#include "geometry/MixedLinesSet.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "raft.h"
#include "Application.h"
#include "ExtruderTrain.h"
#include "ExtruderUse.h"
#include "LayerPlan.h"
#include "PrimeTower/PrimeTower.h"
#include "PrimeTower/PrimeTowerInterleaved.h"
#include "PrimeTower/PrimeTowerNormal.h"
#include "Scene.h"
#include "Slice.h"
#include "gcode_export/gcodeExport.h"
#include "geometry/ClosedLinesSet.h"
#include "geometry/Polygon.h"
#include "infill.h"
#include "raft.h"
#include "settings/EnumSettings.h"
#include "settings/types/LayerIndex.h"
#include "sliceDataStorage.h"
#include "utils/LayerVector.h"
#include "utils/polygonUtils.h"
#include <algorithm>
#include <limits>
#include <map>
#include <numbers>
#include <spdlog/spdlog.h>
#include <vector>
#include "PrimeTower/PrimeTower.h"
#include "PrimeTower/PrimeTowerInterleaved.h"
#include "PrimeTower/PrimeTowerNormal.h"
#include "ref.h"

namespace ref
{
using namespace cura;

//= cura::PrimeTower::PrimeTower
namespace n1
{
using OccupiedOutline = cura::PrimeTower::OccupiedOutline;
void r1(cura::PrimeTower& self)
{
        member(self.wipe_from_middle_) = false;
    const Scene& scene = Application::getInstance().current_slice_->scene;
    const Settings& mesh_group_settings = scene.current_mesh_group->settings;
    const coord_t tower_radius = mesh_group_settings.get<coord_t>("prime_tower_size") / 2;
    const coord_t x = mesh_group_settings.get<coord_t>("prime_tower_position_x");
    const coord_t y = mesh_group_settings.get<coord_t>("prime_tower_position_y");
    const coord_t layer_height = mesh_group_settings.get<coord_t>("layer_height");
    const bool base_enabled = mesh_group_settings.get<bool>("prime_tower_brim_enable");
    const coord_t base_extra_radius = scene.settings.get<coord_t>("prime_tower_base_size");
    const coord_t base_height = scene.settings.get<coord_t>("prime_tower_base_height");
    const double base_curve_magnitude = mesh_group_settings.get<double>("prime_tower_base_curve_magnitude");
    self.middle_ = Point2LL(x - tower_radius, y + tower_radius);
    self.outer_poly_ = { PolygonUtils::makeDisc(self.middle_, tower_radius, self.circle_definition_), tower_radius };
    self.post_wipe_point_ = Point2LL(x - tower_radius, y + tower_radius);
    if (base_enabled && base_extra_radius > 0 && base_height > 0)
    {
        self.base_occupied_outline_.init(true);
        for (coord_t z = 0; z < base_height; z += layer_height)
        {
            const coord_t extra_radius = LinearAlg2D::getSlopedWidth(base_extra_radius, base_height, base_curve_magnitude, z);
            const coord_t total_radius = tower_radius + extra_radius;
            self.base_occupied_outline_.push_back(OccupiedOutline{ PolygonUtils::makeDisc(self.middle_, total_radius, self.circle_definition_), total_radius });
        }
    }
}
} // namespace n1

//= cura::PrimeTower::generateFirtLayerInset
namespace n3
{
using ExtruderToolPaths = cura::PrimeTower::ExtruderToolPaths;
void r3(cura::PrimeTower& self)
{
    if (! self.toolpaths_.empty())
    {
        std::vector<ExtruderToolPaths>& toolpaths_first_layer = self.toolpaths_.begin()->second;
        if (! toolpaths_first_layer.empty())
        {
            ExtruderToolPaths& last_extruder_toolpaths = toolpaths_first_layer.back();
            const Scene& scene = Application::getInstance().current_slice_->scene;
            const size_t extruder_nr = last_extruder_toolpaths.extruder_nr;
            const coord_t line_width = scene.extruders[extruder_nr].settings_.get<coord_t>("prime_tower_line_width");
            ClosedLinesSet pattern = PolygonUtils::generateCircularInset(self.middle_, last_extruder_toolpaths.inner_radius, line_width, self.circle_definition_);
            last_extruder_toolpaths.toolpaths.push_back(pattern);
        }
    }
}
} // namespace n3

//= cura::PrimeTower::generatePrimeToolpaths
std::tuple<ClosedLinesSet, coord_t> r4(cura::PrimeTower& self, const size_t extruder_nr, const coord_t outer_radius)
{
    const Scene& scene = Application::getInstance().current_slice_->scene;
    const Settings& mesh_group_settings = scene.current_mesh_group->settings;
    const coord_t layer_height = mesh_group_settings.get<coord_t>("layer_height");
    const coord_t line_width = scene.extruders[extruder_nr].settings_.get<coord_t>("prime_tower_line_width");
    const double required_volume = scene.extruders[extruder_nr].settings_.get<double>("prime_tower_min_volume") * 1000000000;
    const Ratio flow = scene.extruders[extruder_nr].settings_.get<Ratio>("prime_tower_flow");
    const coord_t semi_line_width = line_width / 2;
    double current_volume = 0;
    coord_t current_outer_radius = outer_radius - semi_line_width;
    ClosedLinesSet toolpaths;
    while (current_volume < required_volume && current_outer_radius >= semi_line_width)
    {
        ClosedPolyline circle = PolygonUtils::makeCircle(self.middle_, current_outer_radius, self.circle_definition_);
        toolpaths.push_back(circle);
        current_volume += static_cast<double>(circle.length() * line_width * layer_height) * flow;
        current_outer_radius -= line_width;
    }
    return { toolpaths, current_outer_radius + semi_line_width };
}

//= cura::PrimeTower::generateSupportToolpaths
ClosedLinesSet r5(cura::PrimeTower& self, const size_t extruder_nr, const coord_t outer_radius, const coord_t inner_radius)
{
    const Scene& scene = Application::getInstance().current_slice_->scene;
    const Settings& extruder_settings = scene.extruders[extruder_nr].settings_;
    const coord_t line_width = extruder_settings.get<coord_t>("prime_tower_line_width");
    const double max_bridging_distance = static_cast<double>(std::max(extruder_settings.get<coord_t>("prime_tower_max_bridging_distance"), line_width));
    const coord_t radius_delta = outer_radius - inner_radius;
    const coord_t semi_line_width = line_width / 2;
    ClosedLinesSet toolpaths;
    const coord_t nb_annuli = static_cast<coord_t>(std::ceil(static_cast<double>(radius_delta) / max_bridging_distance));
    const coord_t nb_circles = radius_delta / line_width;
    if (nb_circles <= nb_annuli)
    {
        for (coord_t i = 0; i < nb_circles; ++i)
        {
            toolpaths.push_back(PolygonUtils::makeCircle(self.middle_, outer_radius - semi_line_width - i * line_width, self.circle_definition_));
        }
    }
    else if (nb_annuli > 0)
    {
        const coord_t actual_radius_step = radius_delta / nb_annuli;
        for (coord_t i = 0; i < nb_annuli; ++i)
        {
            const coord_t annulus_inner_radius = (inner_radius + i * actual_radius_step) + semi_line_width;
            const coord_t annulus_outer_radius = (inner_radius + (i + 1) * actual_radius_step) - semi_line_width;
            const size_t semi_nb_spokes = static_cast<size_t>(std::ceil((std::numbers::pi * static_cast<double>(annulus_outer_radius)) / max_bridging_distance));
            toolpaths.push_back(PolygonUtils::makeWheel(self.middle_, annulus_inner_radius, annulus_outer_radius, semi_nb_spokes, self.arc_definition_));
        }
    }
    return toolpaths;
}

//= cura::PrimeTower::addToGcode
namespace n6
{
using ExtruderToolPaths = cura::PrimeTower::ExtruderToolPaths;
void r6(const cura::PrimeTower& self, const SliceDataStorage& storage, LayerPlan& gcode_layer, const std::vector<ExtruderUse>& required_extruder_prime, const size_t prev_extruder_nr, const size_t new_extruder_nr)
{
    if (gcode_layer.getPrimeTowerIsPlanned(new_extruder_nr))
    { 
        return;
    }
    const LayerIndex layer_nr = gcode_layer.getLayerNr();
    if (layer_nr > storage.max_print_height_second_to_last_extruder + 1)
    {
        return;
    }
    bool post_wipe = Application::getInstance().current_slice_->scene.extruders[prev_extruder_nr].settings_.get<bool>("prime_tower_wipe_enabled");
    if (prev_extruder_nr == new_extruder_nr || layer_nr == 0)
    {
        post_wipe = false;
    }
    auto extruder_iterator = std::find_if(
        required_extruder_prime.begin(),
        required_extruder_prime.end(),
        [new_extruder_nr](const ExtruderUse& extruder_use)
        {
            return extruder_use.extruder_nr == new_extruder_nr;
        });
    if (extruder_iterator == required_extruder_prime.end())
    {
        return;
    }
    const ClosedLinesSet* toolpaths = nullptr;
    auto iterator_layer = self.toolpaths_.find(layer_nr);
    if (iterator_layer != self.toolpaths_.end())
    {
        const std::vector<ExtruderToolPaths>& toolpaths_at_this_layer = iterator_layer->second;
        auto iterator_extruder = std::find_if(
            toolpaths_at_this_layer.begin(),
            toolpaths_at_this_layer.end(),
            [new_extruder_nr](const ExtruderToolPaths& extruder_toolpaths)
            {
                return extruder_toolpaths.extruder_nr == new_extruder_nr;
            });
        if (iterator_extruder != iterator_layer->second.end())
        {
            toolpaths = &(iterator_extruder->toolpaths);
        }
    }
    if (toolpaths && ! toolpaths->empty())
    {
        self.gotoStartLocation(gcode_layer, new_extruder_nr);
        const GCodePathConfig& config = gcode_layer.configs_storage_.prime_tower_config_per_extruder[new_extruder_nr];
        gcode_layer.addLinesByOptimizer(*toolpaths, config, SpaceFillType::PolyLines);
    }
    gcode_layer.setPrimeTowerIsPlanned(new_extruder_nr);
    if (post_wipe)
    {
        const Settings& previous_settings = Application::getInstance().current_slice_->scene.extruders[prev_extruder_nr].settings_;
        const Point2LL previous_nozzle_offset = Point2LL(previous_settings.get<coord_t>("machine_nozzle_offset_x"), previous_settings.get<coord_t>("machine_nozzle_offset_y"));
        const Settings& new_settings = Application::getInstance().current_slice_->scene.extruders[new_extruder_nr].settings_;
        const Point2LL new_nozzle_offset = Point2LL(new_settings.get<coord_t>("machine_nozzle_offset_x"), new_settings.get<coord_t>("machine_nozzle_offset_y"));
        gcode_layer.addTravel(self.post_wipe_point_ - previous_nozzle_offset + new_nozzle_offset);
    }
}
} // namespace n6

//= cura::PrimeTower::getOccupiedOutline
const Polygon& r7(const cura::PrimeTower& self, const LayerIndex& layer_nr)
{
    auto iterator = self.base_occupied_outline_.iterator_at(layer_nr);
    if (iterator != self.base_occupied_outline_.end())
    {
        return iterator->outline;
    }
    else
    {
        return self.outer_poly_.outline;
    }
}

//= cura::PrimeTower::getOccupiedGroundOutline
const Polygon& r8(const cura::PrimeTower& self)
{
    if (! self.base_extrusion_outline_.empty())
    {
        return self.base_extrusion_outline_.front();
    }
    else
    {
        return self.outer_poly_.outline;
    }
}

//= cura::PrimeTower::getExtrusionOutline
const Polygon& r9(const cura::PrimeTower& self, const LayerIndex& layer_nr)
{
    auto iterator = self.base_extrusion_outline_.iterator_at(layer_nr);
    if (iterator != self.base_extrusion_outline_.end())
    {
        return *iterator;
    }
    else
    {
        return self.outer_poly_.outline;
    }
}

//= cura::PrimeTower::subtractFromSupport
void r10(cura::PrimeTower& self, SliceDataStorage& storage)
{
    for (size_t layer = 0; static_cast<int>(layer) <= storage.max_print_height_second_to_last_extruder + 1 && layer < storage.support.supportLayers.size(); layer++)
    {
        const Polygon& outside_polygon = self.getOccupiedOutline(layer);
        AABB outside_polygon_boundary_box(outside_polygon);
        SupportLayer& support_layer = storage.support.supportLayers[layer];
        support_layer.excludeAreasFromSupportInfillAreas(Shape(outside_polygon), outside_polygon_boundary_box);
    }
}

//= cura::PrimeTower::processExtrudersUse
void r11(cura::PrimeTower& self, LayerVector<std::vector<ExtruderUse>>& extruders_use, const size_t start_extruder)
{
    self.polishExtrudersUses(extruders_use, start_extruder);
    self.toolpaths_ = self.generateToolPaths(extruders_use);
    self.generateBase();
    self.generateFirtLayerInset();
}

//= cura::PrimeTower::createPrimeTower
PrimeTower* r12(SliceDataStorage& storage)
{
    PrimeTower* prime_tower = nullptr;
    const Settings& settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    const size_t raft_total_extra_layers = Raft::getTotalExtraLayers();
    const std::vector<bool> extruders_used = storage.getExtrudersUsed();
    std::vector<size_t> used_extruders_nrs;
    for (size_t extruder_nr = 0; extruder_nr < extruders_used.size(); extruder_nr++)
    {
        if (extruders_used[extruder_nr])
        {
            used_extruders_nrs.push_back(extruder_nr);
        }
    }
    if (used_extruders_nrs.size() > 1 && settings.get<bool>("prime_tower_enable") && settings.get<double>("prime_tower_min_volume") > 0.01
        && settings.get<coord_t>("prime_tower_size") > 10 && storage.max_print_height_second_to_last_extruder >= -static_cast<int>(raft_total_extra_layers))
    {
        const PrimeTowerMode method = settings.get<PrimeTowerMode>("prime_tower_mode");
        switch (method)
        {
        case PrimeTowerMode::NORMAL:
            prime_tower = new PrimeTowerNormal(used_extruders_nrs);
            break;
        case PrimeTowerMode::INTERLEAVED:
            prime_tower = new PrimeTowerInterleaved();
            break;
        }
    }
    if (prime_tower)
    {
        prime_tower->subtractFromSupport(storage);
    }
    return prime_tower;
}

//= cura::PrimeTower::extruderRequiresPrime
bool r13(const std::vector<bool>& extruder_is_used_on_this_layer, size_t extruder_nr, size_t last_extruder)
{
    return extruder_is_used_on_this_layer[extruder_nr] && extruder_nr != last_extruder;
}

//= cura::PrimeTower::gotoStartLocation
void r14(const cura::PrimeTower& self, LayerPlan& gcode_layer, const size_t extruder_nr)
{
    LayerIndex layer_nr = gcode_layer.getLayerNr();
    if (layer_nr != -LayerIndex(Raft::getTotalExtraLayers()))
    {
        coord_t wipe_radius;
        auto iterator = self.base_occupied_outline_.iterator_at(gcode_layer.getLayerNr());
        if (iterator != self.base_occupied_outline_.end())
        {
            wipe_radius = iterator->outer_radius;
        }
        else
        {
            wipe_radius = self.outer_poly_.outer_radius;
        }
        const ExtruderTrain& train = Application::getInstance().current_slice_->scene.extruders[extruder_nr];
        wipe_radius += train.settings_.get<coord_t>("machine_nozzle_size") * 2;
        while (layer_nr < 0)
        {
            layer_nr += self.number_of_prime_tower_start_locations_;
        }
        size_t current_start_location_idx = ((extruder_nr + 1) * static_cast<size_t>(layer_nr)) % self.number_of_prime_tower_start_locations_;
        const AngleRadians angle = self.start_locations_step_ * current_start_location_idx;
        const Point2LL prime_start = PolygonUtils::makeCirclePoint(self.middle_, wipe_radius, angle);
        gcode_layer.addTravel(prime_start);
    }
}

//= cura::PrimeTowerInterleaved::getExtruderPrime
ExtruderPrime r16(const cura::PrimeTowerInterleaved& self, const std::vector<bool>& extruder_is_used_on_this_layer, size_t extruder_nr, size_t last_extruder, const SliceDataStorage& , const LayerIndex&)
{
    if (self.extruderRequiresPrime(extruder_is_used_on_this_layer, extruder_nr, last_extruder))
    {
        return ExtruderPrime::Prime;
    }
    else
    {
        return ExtruderPrime::None;
    }
}

//= cura::PrimeTowerInterleaved::generateToolPaths
namespace n17
{
using ExtruderToolPaths = cura::PrimeTower::ExtruderToolPaths;
std::map<LayerIndex, std::vector<PrimeTower::ExtruderToolPaths>> r17(cura::PrimeTowerInterleaved& self, const LayerVector<std::vector<ExtruderUse>>& extruders_use)
{
    const Scene& scene = Application::getInstance().current_slice_->scene;
    const Settings& mesh_group_settings = scene.current_mesh_group->settings;
    const coord_t tower_radius = mesh_group_settings.get<coord_t>("prime_tower_size") / 2;
    const coord_t min_shell_thickness = mesh_group_settings.get<coord_t>("prime_tower_min_shell_thickness");
    coord_t shell_thickness = 0;
    std::map<LayerIndex, std::vector<ExtruderToolPaths>> toolpaths;
    for (auto iterator = extruders_use.rbegin(); iterator != extruders_use.rend(); ++iterator)
    {
        const LayerIndex layer_nr = extruders_use.getLayer(iterator);
        const std::vector<ExtruderUse>& extruders_use_at_layer = extruders_use[layer_nr];
        std::vector<ExtruderToolPaths> toolpaths_at_layer;
        size_t last_extruder_support = 0;
        coord_t prime_next_outer_radius = tower_radius;
        for (const ExtruderUse& extruder_use : extruders_use_at_layer)
        {
            if (extruder_use.prime == ExtruderPrime::Prime)
            {
                ExtruderToolPaths extruder_toolpaths;
                extruder_toolpaths.outer_radius = prime_next_outer_radius;
                extruder_toolpaths.extruder_nr = extruder_use.extruder_nr;
                std::tie(extruder_toolpaths.toolpaths, extruder_toolpaths.inner_radius) = self.generatePrimeToolpaths(extruder_use.extruder_nr, prime_next_outer_radius);
                toolpaths_at_layer.push_back(extruder_toolpaths);
                prime_next_outer_radius = extruder_toolpaths.inner_radius;
            }
            else if (extruder_use.prime == ExtruderPrime::Support)
            {
                last_extruder_support = extruder_use.extruder_nr;
            }
        }
        const coord_t layer_prime_thickness = tower_radius - prime_next_outer_radius;
        shell_thickness = std::max(shell_thickness, layer_prime_thickness);
        if (shell_thickness > 0)
        {
            shell_thickness = std::max(shell_thickness, min_shell_thickness);
            const coord_t inner_support_radius = tower_radius - shell_thickness;
            if (inner_support_radius < prime_next_outer_radius)
            {
                if (toolpaths_at_layer.empty())
                {
                    toolpaths_at_layer.push_back(ExtruderToolPaths{ last_extruder_support, ClosedLinesSet(), prime_next_outer_radius, inner_support_radius });
                }
                ExtruderToolPaths& last_extruder_toolpaths = toolpaths_at_layer.back();
                ClosedLinesSet support_toolpaths = self.generateSupportToolpaths(last_extruder_toolpaths.extruder_nr, prime_next_outer_radius, inner_support_radius);
                last_extruder_toolpaths.toolpaths.push_back(support_toolpaths);
                last_extruder_toolpaths.outer_radius = prime_next_outer_radius;
                last_extruder_toolpaths.inner_radius = inner_support_radius;
            }
            toolpaths[layer_nr] = toolpaths_at_layer;
        }
    }
    return toolpaths;
}
} // namespace n17

//= cura::PrimeTowerNormal::getExtruderPrime
ExtruderPrime r20(const cura::PrimeTowerNormal& self, const std::vector<bool>& extruder_is_used_on_this_layer, size_t extruder_nr, size_t last_extruder, const SliceDataStorage& storage, const LayerIndex& layer_nr)
{
    if (self.extruderRequiresPrime(extruder_is_used_on_this_layer, extruder_nr, last_extruder))
    {
        return ExtruderPrime::Prime;
    }
    else if (layer_nr <= storage.max_print_height_second_to_last_extruder)
    {
        return ExtruderPrime::Support;
    }
    else
    {
        return ExtruderPrime::None;
    }
}

//= cura::PrimeTowerNormal::generateToolPaths
namespace n21
{
using ExtruderToolPaths = cura::PrimeTower::ExtruderToolPaths;
std::map<LayerIndex, std::vector<PrimeTower::ExtruderToolPaths>> r21(cura::PrimeTowerNormal& self, const LayerVector<std::vector<ExtruderUse>>& extruders_use)
{
    const Scene& scene = Application::getInstance().current_slice_->scene;
    const Settings& mesh_group_settings = scene.current_mesh_group->settings;
    const coord_t tower_radius = mesh_group_settings.get<coord_t>("prime_tower_size") / 2;
    std::map<LayerIndex, std::vector<ExtruderToolPaths>> toolpaths;
    std::vector<size_t> extruder_order = self.used_extruders_;
    std::stable_sort(
        extruder_order.begin(),
        extruder_order.end(),
        [&scene](const size_t extruder_nr_a, const size_t extruder_nr_b)
        {
            const Ratio adhesion_a = scene.extruders[extruder_nr_a].settings_.get<Ratio>("material_adhesion_tendency");
            const Ratio adhesion_b = scene.extruders[extruder_nr_b].settings_.get<Ratio>("material_adhesion_tendency");
            return adhesion_a < adhesion_b;
        });
    coord_t current_radius = tower_radius;
    std::map<size_t, ExtruderToolPaths> extruders_prime_toolpaths;
    std::map<size_t, ExtruderToolPaths> extruders_support_toolpaths;
    for (size_t extruder_nr : extruder_order)
    {
        ExtruderToolPaths extruder_prime_toolpaths;
        extruder_prime_toolpaths.extruder_nr = extruder_nr;
        extruder_prime_toolpaths.outer_radius = current_radius;
        std::tie(extruder_prime_toolpaths.toolpaths, extruder_prime_toolpaths.inner_radius) = self.generatePrimeToolpaths(extruder_nr, current_radius);
        extruders_prime_toolpaths[extruder_nr] = extruder_prime_toolpaths;
        ExtruderToolPaths extruder_support_toolpaths = extruder_prime_toolpaths;
        extruder_support_toolpaths.toolpaths = self.generateSupportToolpaths(extruder_nr, current_radius, extruder_prime_toolpaths.inner_radius);
        extruders_support_toolpaths[extruder_nr] = extruder_support_toolpaths;
        current_radius = extruder_prime_toolpaths.inner_radius;
    }
    for (auto iterator = extruders_use.begin(); iterator != extruders_use.end(); ++iterator)
    {
        const LayerIndex layer_nr = extruders_use.getLayer(iterator);
        std::vector<ExtruderUse> extruders_use_at_layer = *iterator;
        std::stable_sort(
            extruders_use_at_layer.begin(),
            extruders_use_at_layer.end(),
            [extruder_order](const ExtruderUse& extruder_use1, const ExtruderUse& extruder_use2)
            {
                return std::find(extruder_order.begin(), extruder_order.end(), extruder_use1.extruder_nr)
                     < std::find(extruder_order.begin(), extruder_order.end(), extruder_use2.extruder_nr);
            });
        std::vector<ExtruderToolPaths> toolpaths_at_layer;
        for (const ExtruderUse& extruder_use : extruders_use_at_layer)
        {
            switch (extruder_use.prime)
            {
            case ExtruderPrime::None:
                break;
            case ExtruderPrime::Prime:
                toolpaths_at_layer.push_back(extruders_prime_toolpaths[extruder_use.extruder_nr]);
                break;
            case ExtruderPrime::Support:
                toolpaths_at_layer.push_back(extruders_support_toolpaths[extruder_use.extruder_nr]);
                break;
            }
        }
        toolpaths[layer_nr] = toolpaths_at_layer;
    }
    return toolpaths;
}
} // namespace n21

//= cura::PrimeTower::polishExtrudersUses
void r22(cura::PrimeTower& self, LayerVector<std::vector<ExtruderUse>>& , const size_t)
{
}

//END
}  // namespace ref
