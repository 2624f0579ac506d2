// What the functions of this unit compute.
#include "skin.h"
#include <cmath>
#include <range/v3/algorithm/all_of.hpp>
#include <range/v3/algorithm/equal.hpp>
#include <spdlog/spdlog.h>
#include "Application.h"
#include "ExtruderTrain.h"
#include "Slice.h"
#include "WallToolPaths.h"
#include "infill.h"
#include "settings/EnumSettings.h"
#include "settings/types/Angle.h"
#include "settings/types/Ratio.h"
#include "sliceDataStorage.h"
#include "utils/Simplify.h"
#include "utils/math.h"
#include "utils/polygonUtils.h"
#define MIN_AREA_SIZE (0.4 * 0.4)
namespace cura
{
//= cura::SkinInfillAreaComputation::SkinInfillAreaComputation
SkinInfillAreaComputation::SkinInfillAreaComputation(const LayerIndex& layer_nr, SliceMeshStorage& mesh, bool process_infill)
    : layer_nr_(layer_nr)
    , mesh_(mesh)
    , bottom_layer_count_(mesh.settings.get<size_t>("bottom_layers"))
    , initial_bottom_layer_count_(mesh.settings.get<size_t>("initial_bottom_layers"))
    , top_layer_count_(mesh.settings.get<size_t>("top_layers"))
    , skin_line_width_(getSkinLineWidth(mesh, layer_nr))
    , no_small_gaps_heuristic_(mesh.settings.get<bool>("skin_no_small_gaps_heuristic"))
    , process_infill_(process_infill)
    , top_skin_preshrink_(mesh.settings.get<coord_t>("top_skin_preshrink"))
    , bottom_skin_preshrink_(mesh.settings.get<coord_t>("bottom_skin_preshrink"))
    , top_skin_expand_distance_(mesh.settings.get<coord_t>("top_skin_expand_distance"))
    , bottom_skin_expand_distance_(mesh.settings.get<coord_t>("bottom_skin_expand_distance"))
{
}
//END
const std::unordered_map<std::string, std::string> roof_setting_floats{
    { "line_width", "roofing_line_width" },
    { "wall_0_material_flow", "wall_0_material_flow_roofing" },
    { "wall_x_material_flow", "wall_x_material_flow_roofing" },
    { "skin_material_flow", "roofing_material_flow" },
    { "speed_wall_0", "speed_wall_0_roofing" },
    { "speed_wall_x", "speed_wall_x_roofing" },
    { "speed_topbottom", "speed_roofing" },
    { "acceleration_wall_0", "acceleration_wall_0_roofing" },
    { "acceleration_wall_x", "acceleration_wall_x_roofing" },
    { "acceleration_topbottom", "acceleration_roofing" },
    { "jerk_wall_0", "jerk_wall_0_roofing" },
    { "jerk_wall_x", "jerk_wall_x_roofing" },
    { "jerk_topbottom", "jerk_roofing" },
};
const std::unordered_map<std::string, std::string> roof_setting_others{
    { "extruder_nr", "roofing_extruder_nr" },
    { "top_bottom_pattern", "roofing_pattern" },
    { "skin_monotonic", "roofing_monotonic" },
    { "skin_angles", "roofing_angles" },
};
const std::vector<std::string> roof_settings_zero_default{ "material_delta_temperature_roofing" };
const std::unordered_map<std::string, std::string> floor_setting_floats{
    { "line_width", "flooring_line_width" },
    { "wall_0_material_flow", "wall_0_material_flow_flooring" },
    { "wall_x_material_flow", "wall_x_material_flow_flooring" },
    { "skin_material_flow", "flooring_material_flow" },
    { "speed_wall_0", "speed_wall_0_flooring" },
    { "speed_wall_x", "speed_wall_x_flooring" },
    { "speed_topbottom", "speed_flooring" },
    { "acceleration_wall_0", "acceleration_wall_0_flooring" },
    { "acceleration_wall_x", "acceleration_wall_x_flooring" },
    { "acceleration_topbottom", "acceleration_flooring" },
    { "jerk_wall_0", "jerk_wall_0_flooring" },
    { "jerk_wall_x", "jerk_wall_x_flooring" },
    { "jerk_topbottom", "jerk_flooring" },
};
const std::unordered_map<std::string, std::string> floor_setting_others{
    { "extruder_nr", "flooring_extruder_nr" },
    { "top_bottom_pattern", "flooring_pattern" },
    { "skin_monotonic", "flooring_monotonic" },
    { "skin_angles", "flooring_angles" },
};
bool roofFloorSettingsEqual(
    const Settings& settings,
    const std::unordered_map<std::string, std::string>& setting_float_names,
    const std::unordered_map<std::string, std::string>& setting_other_names,
    const std::vector<std::string> settings_zero_default)
{
    const bool equal_floats = ranges::all_of(
        setting_float_names,
        [&settings](const auto& kvp)
        {
            return std::abs(settings.get<double>(kvp.second) - settings.get<double>(kvp.first)) < std::numeric_limits<double>::epsilon();
        });
    if (! equal_floats)
    {
        return false;
    }
    const bool all_zeros = ranges::all_of(
        settings_zero_default,
        [&settings](const auto& name)
        {
            return settings.get<double>(name) == 0.0;
        });
    if (! all_zeros)
    {
        return false;
    }
    constexpr auto extruder_nr = "extruder_nr";
    constexpr auto top_bottom_pattern = "top_bottom_pattern";
    constexpr auto skin_monotonic = "skin_monotonic";
    constexpr auto skin_angles = "skin_angles";
    if ((settings.get<int>(setting_other_names.at(extruder_nr)) >= 0 && settings.get<int>(setting_other_names.at(extruder_nr)) != settings.get<int>(extruder_nr))
        || settings.get<EFillMethod>(setting_other_names.at(top_bottom_pattern)) != settings.get<EFillMethod>(top_bottom_pattern)
        || settings.get<bool>(setting_other_names.at(skin_monotonic)) != settings.get<bool>(skin_monotonic)
        || ! ranges::equal(
            settings.get<std::vector<double>>(setting_other_names.at(skin_angles)),
            settings.get<std::vector<double>>(skin_angles),
            [](const double& a, const double& b)
            {
                return std::abs(b - a) < std::numeric_limits<double>::epsilon();
            }))
    {
        return false;
    }
    return true;
}
//= cura::SkinInfillAreaComputation::generateSkinRoofingFlooringFill
void SkinInfillAreaComputation::generateSkinRoofingFlooringFill(SliceLayerPart& part)
{
    const size_t roofing_layer_count = std::min(mesh_.settings.get<size_t>("roofing_layer_count"), mesh_.settings.get<size_t>("top_layers"));
    const bool has_roofing = roofing_layer_count > 0 && ! roofFloorSettingsEqual(mesh_.settings, roof_setting_floats, roof_setting_others, roof_settings_zero_default);
    const size_t flooring_layer_count = std::min(mesh_.settings.get<size_t>("flooring_layer_count"), mesh_.settings.get<size_t>("bottom_layers"));
    const bool has_flooring = flooring_layer_count > 0 && ! roofFloorSettingsEqual(mesh_.settings, floor_setting_floats, floor_setting_others, {});
    const coord_t skin_overlap = mesh_.settings.get<coord_t>("skin_overlap_mm");
    const coord_t roofing_expansion = mesh_.settings.get<coord_t>("roofing_expansion");
    const coord_t top_bottom_skin_merge_distance = mesh_.settings.get<coord_t>("top_bottom_skin_merge_distance");
    const SliceDataStorage slice_data;
    const Shape build_plate = slice_data.getRawMachineBorder();
    const Shape filled_area_above = has_roofing ? generateFilledAreaAbove(part, roofing_layer_count) : build_plate;
    const Shape filled_area_below = has_flooring ? (generateFilledAreaBelow(part, flooring_layer_count).value_or(build_plate)) : build_plate;
    for (SkinPart& skin_part : part.skin_parts)
    {
        if (has_roofing)
        {
            const Shape below_inside = skin_part.outline.intersection(filled_area_below);
            skin_part.roofing_fill = below_inside.difference(filled_area_above);
            if (roofing_expansion > 0)
            {
                skin_part.roofing_fill = skin_part.roofing_fill.offset(roofing_expansion).intersection(below_inside);
            }
        }
        if (has_flooring)
        {
            const Shape above_inside = skin_part.outline.intersection(filled_area_above);
            skin_part.flooring_fill = above_inside.difference(filled_area_below);
        }
        skin_part.skin_fill = skin_part.outline.difference(skin_part.roofing_fill).intersection(filled_area_below);
        if (top_bottom_skin_merge_distance > 0)
        {
            constexpr bool allow_thin_areas_grow = true;
            PolygonUtils::mergeThinOverlap(top_bottom_skin_merge_distance, skin_part.skin_fill, skin_part.roofing_fill, allow_thin_areas_grow);
            PolygonUtils::mergeThinOverlap(top_bottom_skin_merge_distance, skin_part.skin_fill, skin_part.flooring_fill, allow_thin_areas_grow);
        }
        skin_part.skin_fill = skin_part.skin_fill.offset(skin_overlap).difference(skin_part.roofing_fill).difference(skin_part.flooring_fill);
        skin_part.roofing_fill = skin_part.roofing_fill.offset(skin_overlap);
        skin_part.flooring_fill = skin_part.flooring_fill.offset(skin_overlap).difference(skin_part.roofing_fill);
    }
}
//END
//= cura::SkinInfillAreaComputation::generateGradualInfill
void SkinInfillAreaComputation::generateGradualInfill(SliceMeshStorage& mesh)
{
    double layer_skip_count = 8;
    if (! mesh.settings.get<bool>("skin_no_small_gaps_heuristic"))
    {
        layer_skip_count = 1;
    }
    const coord_t gradual_infill_step_height = mesh.settings.get<coord_t>("gradual_infill_step_height");
    const size_t gradual_infill_step_layer_count
        = round_divide(gradual_infill_step_height, mesh.settings.get<coord_t>("layer_height"));
    double n_skip_steps_per_gradual_step
        = std::max(1.0, std::ceil(gradual_infill_step_layer_count / layer_skip_count));
    layer_skip_count = gradual_infill_step_layer_count / n_skip_steps_per_gradual_step;
    const size_t max_infill_steps = mesh.settings.get<size_t>("gradual_infill_steps");
    const LayerIndex mesh_min_layer = mesh.settings.get<size_t>("initial_bottom_layers");
    const LayerIndex mesh_max_layer = mesh.layers.size() - 1 - mesh.settings.get<size_t>("top_layers");
    const Simplify simplifier(mesh.settings.get<ExtruderTrain&>("infill_extruder_nr").settings_);
    const auto infill_wall_count = mesh.settings.get<size_t>("infill_wall_line_count");
    const auto infill_wall_width = mesh.settings.get<coord_t>("infill_line_width");
    const auto is_connected = mesh.settings.get<bool>("zig_zaggify_infill") || mesh.settings.get<EFillMethod>("infill_pattern") == EFillMethod::ZIG_ZAG;
    for (LayerIndex layer_idx = 0; layer_idx < static_cast<LayerIndex>(mesh.layers.size()); layer_idx++)
    {
        SliceLayer& layer = mesh.layers[layer_idx];
        for (SliceLayerPart& part : layer.parts)
        {
            assert((part.infill_area_per_combine_per_density.empty() && "infill_area_per_combine_per_density is supposed to be uninitialized"));
            const Shape& infill_area = Infill::generateWallToolPaths(
                part.infill_wall_toolpaths,
                part.getOwnInfillArea(),
                infill_wall_count,
                infill_wall_width,
                mesh.settings,
                layer_idx,
                SectionType::SKIN);
            if (infill_area.empty() || layer_idx < mesh_min_layer || layer_idx > mesh_max_layer)
            {
                part.infill_area_per_combine_per_density.emplace_back();
                part.infill_area_per_combine_per_density.back().emplace_back();
                continue;
            }
            Shape less_dense_infill = infill_area;
            Shape sum_more_dense;
            for (size_t infill_step = 0; infill_step < max_infill_steps; infill_step++)
            {
                LayerIndex min_layer = layer_idx + infill_step * gradual_infill_step_layer_count + static_cast<size_t>(layer_skip_count);
                LayerIndex max_layer = layer_idx + (infill_step + 1) * gradual_infill_step_layer_count;
                for (double upper_layer_idx = min_layer; upper_layer_idx <= max_layer; upper_layer_idx += layer_skip_count)
                {
                    if (upper_layer_idx >= mesh.layers.size())
                    {
                        less_dense_infill.clear();
                        break;
                    }
                    const SliceLayer& upper_layer = mesh.layers[static_cast<size_t>(upper_layer_idx)];
                    Shape relevent_upper_polygons;
                    for (const SliceLayerPart& upper_layer_part : upper_layer.parts)
                    {
                        if (! upper_layer_part.boundaryBox.hit(part.boundaryBox))
                        {
                            continue;
                        }
                        relevent_upper_polygons.push_back(upper_layer_part.getOwnInfillArea());
                    }
                    less_dense_infill = less_dense_infill.intersection(relevent_upper_polygons);
                }
                if (less_dense_infill.empty())
                {
                    break;
                }
                part.infill_area_per_combine_per_density.emplace_back();
                std::vector<Shape>& infill_area_per_combine_current_density = part.infill_area_per_combine_per_density.back();
                const Shape more_dense_infill = infill_area.difference(less_dense_infill);
                infill_area_per_combine_current_density.push_back(simplifier.polygon(more_dense_infill.difference(sum_more_dense)));
                if (is_connected)
                {
                    sum_more_dense = sum_more_dense.unionPolygons(more_dense_infill);
                }
            }
            part.infill_area_per_combine_per_density.emplace_back();
            std::vector<Shape>& infill_area_per_combine_current_density = part.infill_area_per_combine_per_density.back();
            infill_area_per_combine_current_density.push_back(simplifier.polygon(infill_area.difference(sum_more_dense)));
            part.infill_area_own = std::nullopt;
            assert(! part.infill_area_per_combine_per_density.empty() && "infill_area_per_combine_per_density is now initialized");
        }
    }
}
//END
//= cura::SkinInfillAreaComputation::combineInfillLayers
void SkinInfillAreaComputation::combineInfillLayers(SliceMeshStorage& mesh)
{
    if (mesh.layers.empty() || mesh.layers.size() - 1 < mesh.settings.get<size_t>("top_layers")
        || mesh.settings.get<coord_t>("infill_line_distance") == 0)
    {
        return;
    }
    const coord_t layer_height = mesh.settings.get<coord_t>("layer_height");
    const size_t amount = std::max(
        uint64_t(1),
        round_divide(
            mesh.settings.get<coord_t>("infill_sparse_thickness"),
            std::max(layer_height, coord_t(1))));
    if (amount <= 1)
    {
        return;
    }
    size_t bottom_most_layers = mesh.settings.get<size_t>("initial_bottom_layers");
    LayerIndex min_layer = static_cast<LayerIndex>(bottom_most_layers + amount) - 1;
    min_layer -= min_layer % amount;
    LayerIndex max_layer = static_cast<LayerIndex>(mesh.layers.size()) - 1 - mesh.settings.get<size_t>("top_layers");
    max_layer -= max_layer % amount;
    for (LayerIndex layer_idx = min_layer; layer_idx <= max_layer; layer_idx += amount)
    {
        SliceLayer* layer = &mesh.layers[layer_idx];
        for (size_t combine_count_here = 1; combine_count_here < amount; combine_count_here++)
        {
            if (layer_idx < static_cast<LayerIndex>(combine_count_here))
            {
                break;
            }
            LayerIndex lower_layer_idx = layer_idx - combine_count_here;
            if (lower_layer_idx < min_layer)
            {
                break;
            }
            SliceLayer* lower_layer = &mesh.layers[lower_layer_idx];
            for (SliceLayerPart& part : layer->parts)
            {
                for (unsigned int density_idx = 0; density_idx < part.infill_area_per_combine_per_density.size(); density_idx++)
                {
                    std::vector<Shape>& infill_area_per_combine = part.infill_area_per_combine_per_density[density_idx];
                    Shape result;
                    for (SliceLayerPart& lower_layer_part : lower_layer->parts)
                    {
                        if (part.boundaryBox.hit(lower_layer_part.boundaryBox))
                        {
                            Shape intersection = infill_area_per_combine[combine_count_here - 1].intersection(lower_layer_part.infill_area).offset(-200).offset(200);
                            result.push_back(intersection);
                            infill_area_per_combine[combine_count_here - 1]
                                = infill_area_per_combine[combine_count_here - 1].difference(intersection);
                            unsigned int max_lower_density_idx = density_idx;
                            if (density_idx == part.infill_area_per_combine_per_density.size() - 1)
                            {
                                max_lower_density_idx = lower_layer_part.infill_area_per_combine_per_density.size() - 1;
                            }
                            for (size_t lower_density_idx = density_idx;
                                 lower_density_idx <= max_lower_density_idx && lower_density_idx < lower_layer_part.infill_area_per_combine_per_density.size();
                                 lower_density_idx++)
                            {
                                std::vector<Shape>& lower_infill_area_per_combine = lower_layer_part.infill_area_per_combine_per_density[lower_density_idx];
                                lower_infill_area_per_combine[0]
                                    = lower_infill_area_per_combine[0].difference(intersection);
                            }
                        }
                    }
                    infill_area_per_combine.push_back(result);
                }
            }
        }
    }
}
//END
}
