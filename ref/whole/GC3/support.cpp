// What the functions of this unit compute.
#include "support.h"
#include <cmath>
#include <deque>
#include <fstream>
#include <utility>
#include <range/v3/algorithm/all_of.hpp>
#include <range/v3/view/concat.hpp>
#include <range/v3/view/drop.hpp>
#include <range/v3/view/drop_last.hpp>
#include <range/v3/view/enumerate.hpp>
#include <range/v3/view/filter.hpp>
#include <range/v3/view/slice.hpp>
#include <range/v3/view/sliding.hpp>
#include <range/v3/view/take.hpp>
#include <range/v3/view/zip.hpp>
#include <scripta/logger.h>
#include <spdlog/spdlog.h>
#include "Application.h"
#include "ExtruderTrain.h"
#include "Slice.h"
#include "arachne/SkeletalTrapezoidation.h"
#include "infill.h"
#include "infill/SierpinskiFillProvider.h"
#include "infill/UniformDensityProvider.h"
#include "progress/Progress.h"
#include "raft.h"
#include "settings/EnumSettings.h"
#include "settings/types/Angle.h"
#include "settings/types/Ratio.h"
#include "sliceDataStorage.h"
#include "slicer.h"
#include "utils/Simplify.h"
#include "utils/ThreadPool.h"
#include "utils/linearAlg2D.h"
#include "utils/math.h"
namespace cura
{
//= cura::AreaSupport::generateSupportBase
void AreaSupport::generateSupportBase(SliceDataStorage& storage)
{
    if (! storage.support.generated)
    {
        return;
    }
    const Settings& global_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    const Settings& settings = global_settings.get<ExtruderTrain&>("support_extruder_nr").settings_;
    const auto layer_height = settings.get<coord_t>("layer_height");
    const auto support_line_width = settings.get<coord_t>("support_line_width");
    const auto support_xy_distance = settings.get<coord_t>("support_xy_distance");
    const auto adhesion_type = settings.get<EPlatformAdhesion>("adhesion_type");
    const auto support_outer_brim_enable = settings.get<bool>("support_outer_brim_enable");
    const auto base_outside_width = settings.get<coord_t>("support_base_outside_width");
    const auto base_outside_height = settings.get<coord_t>("support_outside_base_height");
    const auto base_outside_curve_magnitude = settings.get<double>("support_outside_base_curve_magnitude");
    const auto support_inner_brim_enable = settings.get<bool>("support_brim_enable");
    const auto base_inside_width = settings.get<coord_t>("support_base_inside_width");
    const auto base_inside_height = settings.get<coord_t>("support_inside_base_height");
    const auto base_inside_curve_magnitude = settings.get<double>("support_inside_base_curve_magnitude");
    const bool has_base_inside = support_inner_brim_enable && base_inside_width > 0 && base_inside_height >= layer_height;
    const LayerIndex max_inside_layer = has_base_inside ? base_inside_height / layer_height : 0;
    const bool has_base_outside = support_outer_brim_enable && base_outside_width > 0 && base_outside_height >= layer_height;
    const LayerIndex max_outside_layer = has_base_outside ? base_outside_height / layer_height : 0;
    const LayerIndex first_base_layer = 0;
    std::vector<SupportLayer>& support_layers = storage.support.supportLayers;
    const LayerIndex last_base_layer = std::min(static_cast<size_t>(std::max(max_outside_layer, max_inside_layer)), support_layers.size());
    parallel_for(
        first_base_layer,
        last_base_layer,
        [&](const LayerIndex layer_nr)
        {
            const coord_t layer_z = layer_nr * layer_height;
            Shape forbidden_areas;
            SupportLayer& support_layer = support_layers.at(layer_nr);
            std::vector<SupportInfillPart*> parts_to_process;
            for (SupportInfillPart& part : support_layer.support_infill_parts)
            {
                if (part.use_fractional_config_)
                {
                    forbidden_areas.push_back(part.outline_);
                }
                else
                {
                    parts_to_process.push_back(&part);
                }
            }
            if (parts_to_process.empty())
            {
                return;
            }
            const coord_t base_outside_extra_width = LinearAlg2D::getSlopedWidth(base_outside_width, base_outside_height, base_outside_curve_magnitude, layer_z);
            for (SupportInfillPart& part : support_layer.support_infill_parts)
            {
                if (! part.use_fractional_config_)
                {
                    part.base_outside_contour_ = part.outline_.offset(base_outside_extra_width);
                }
            }
            if (layer_nr == 0 && adhesion_type != EPlatformAdhesion::RAFT)
            {
                return;
            }
            if (has_base_outside && layer_nr < max_outside_layer)
            {
                {
                    constexpr bool include_support = false;
                    constexpr bool include_prime_tower = false;
                    forbidden_areas.push_back(storage.getLayerOutlines(layer_nr, include_support, include_prime_tower).offset(support_xy_distance));
                }
                {
                    constexpr bool include_support = false;
                    constexpr bool include_prime_tower = true;
                    constexpr bool external_polys_only = false;
                    constexpr int extruder_nr = -1;
                    constexpr bool include_models = false;
                    forbidden_areas.push_back(storage.getLayerOutlines(layer_nr, include_support, include_prime_tower, external_polys_only, extruder_nr, include_models));
                }
                forbidden_areas.push_back(support_layer.support_roof);
                forbidden_areas.push_back(support_layer.support_bottom);
                forbidden_areas = forbidden_areas.unionPolygons();
                Shape all_parts;
                for (const SupportInfillPart* part_to_process : parts_to_process)
                {
                    all_parts.push_back(part_to_process->outline_);
                }
                PolygonUtils::InsetOutset base_outsets = PolygonUtils::generateInsetOutset(all_parts, base_outside_extra_width, support_line_width);
                ClosedLinesSet closed_base_outset;
                for (Shape& base_outset : base_outsets.walls)
                {
                    closed_base_outset.reserve(closed_base_outset.size() + base_outset.size());
                    for (Polygon& base_outset_polygon : base_outset)
                    {
                        closed_base_outset.push_back(ClosedPolyline(std::move(base_outset_polygon)));
                    }
                }
                MixedLinesSet base_lines = closed_base_outset.difference(forbidden_areas).intersection(storage.getMachineBorder());
                if (! base_lines.empty())
                {
                    support_layer.base.push_back(std::move(base_lines));
                }
            }
            if (has_base_inside && layer_nr < max_inside_layer)
            {
                const coord_t base_inside_extra_width = LinearAlg2D::getSlopedWidth(base_inside_width, base_inside_height, base_inside_curve_magnitude, layer_z);
                for (SupportInfillPart* part_to_process : parts_to_process)
                {
                    const Shape support_inside_area = part_to_process->outline_.offset(-part_to_process->inset_width_to_generate_);
                    PolygonUtils::InsetOutset base_insets = PolygonUtils::generateInsetOutset(support_inside_area, -base_inside_extra_width, support_line_width);
                    part_to_process->base_inside_contour_ = support_inside_area.offset(base_insets.final_contour_offset);
                    for (Shape& base_inset : base_insets.walls)
                    {
                        support_layer.base.reserve(support_layer.base.size() + base_insets.walls.size());
                        for (Polygon& base_inset_polygon : base_inset)
                        {
                            support_layer.base.push_back(ClosedPolyline(std::move(base_inset_polygon)));
                        }
                    }
                }
            }
        });
}
//END
//= cura::AreaSupport::generateOverhangAreas
void AreaSupport::generateOverhangAreas(SliceDataStorage& storage)
{
    for (std::shared_ptr<SliceMeshStorage>& mesh_ptr : storage.meshes)
    {
        auto& mesh = *mesh_ptr;
        if (! mesh.isModelMesh())
        {
            continue;
        }
        generateOverhangAreasForMesh(storage, mesh);
    }
}
//END
//= cura::AreaSupport::precomputeCrossInfillTree
void AreaSupport::precomputeCrossInfillTree(SliceDataStorage& storage)
{
    const Settings& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    const ExtruderTrain& infill_extruder = mesh_group_settings.get<ExtruderTrain&>("support_infill_extruder_nr");
    const EFillMethod& support_pattern = infill_extruder.settings_.get<EFillMethod>("support_pattern");
    if ((support_pattern == EFillMethod::CROSS || support_pattern == EFillMethod::CROSS_3D) && infill_extruder.settings_.get<coord_t>("support_line_distance") > 0)
    {
        AABB3D aabb;
        for (unsigned int mesh_idx = 0; mesh_idx < storage.meshes.size(); mesh_idx++)
        {
            const SliceMeshStorage& mesh = *storage.meshes[mesh_idx];
            if (! mesh.isModelMesh())
            {
                continue;
            }
            Settings& infill_settings = storage.meshes[mesh_idx]->settings;
            if (mesh.settings.get<bool>("support_mesh"))
            {
                infill_settings = mesh_group_settings.get<ExtruderTrain&>("support_infill_extruder_nr").settings_;
            }
            const coord_t aabb_expansion = infill_settings.get<coord_t>("support_offset");
            AABB3D aabb_here(mesh.bounding_box);
            aabb_here.include(aabb_here.min_ - Point3LL(-aabb_expansion, -aabb_expansion, 0));
            aabb_here.include(aabb_here.max_ + Point3LL(-aabb_expansion, -aabb_expansion, 0));
            aabb.include(aabb_here);
        }
        std::string cross_subdisivion_spec_image_file = infill_extruder.settings_.get<std::string>("cross_support_density_image");
        std::ifstream cross_fs(cross_subdisivion_spec_image_file.c_str());
        if (cross_subdisivion_spec_image_file != "" && cross_fs.good())
        {
            storage.support.cross_fill_provider = std::make_shared<SierpinskiFillProvider>(
                aabb,
                infill_extruder.settings_.get<coord_t>("support_line_distance"),
                infill_extruder.settings_.get<coord_t>("support_line_width"),
                cross_subdisivion_spec_image_file);
        }
        else
        {
            if (cross_subdisivion_spec_image_file != "")
            {
                spdlog::error("Cannot find density image: {}.", cross_subdisivion_spec_image_file);
            }
            storage.support.cross_fill_provider = std::make_shared<SierpinskiFillProvider>(
                aabb,
                infill_extruder.settings_.get<coord_t>("support_line_distance"),
                infill_extruder.settings_.get<coord_t>("support_line_width"));
        }
    }
}
//END
//= cura::AreaSupport::generateVaryingXYDisallowedArea
Shape AreaSupport::generateVaryingXYDisallowedArea(const SliceMeshStorage& storage, const LayerIndex layer_idx)
{
    const auto& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    const Simplify simplify{ mesh_group_settings };
    const auto layer_thickness = mesh_group_settings.get<coord_t>("layer_height");
    const auto support_distance_top = static_cast<double>(mesh_group_settings.get<coord_t>("support_top_distance"));
    const auto support_distance_bot = static_cast<double>(mesh_group_settings.get<coord_t>("support_bottom_distance"));
    const auto overhang_angle = mesh_group_settings.get<AngleRadians>("support_angle");
    const auto xy_distance = static_cast<double>(mesh_group_settings.get<coord_t>("support_xy_distance"));
    constexpr auto close_dist = 20;
    Shape layer_current = simplify.polygon(storage.layers[layer_idx].getOutlines().offset(-close_dist).offset(close_dist));
    using point_pair_t = std::pair<size_t, double>;
    using poly_point_key = std::tuple<unsigned int, unsigned int>;
    struct z_delta_poly_t
    {
        double support_distance;
        double delta_z;
        Shape layer_delta;
    };
    std::vector<z_delta_poly_t> z_distances_layer_deltas;
    const size_t layer_index_offset = 1;
    const LayerIndex layer_idx_below{ std::max(LayerIndex{ layer_idx - layer_index_offset }, LayerIndex{ 0 }) };
    if (layer_idx_below != layer_idx)
    {
        const auto layer_below = simplify.polygon(storage.layers[layer_idx_below].getOutlines().offset(-close_dist).offset(close_dist));
        z_distances_layer_deltas.emplace_back(z_delta_poly_t{
            .support_distance = support_distance_bot,
            .delta_z = -static_cast<double>(layer_index_offset * layer_thickness),
            .layer_delta = layer_below,
        });
    }
    const LayerIndex layer_idx_above{ std::min(LayerIndex{ layer_idx + layer_index_offset }, LayerIndex{ storage.layers.size() - 1 }) };
    if (layer_idx_above != layer_idx)
    {
        const auto layer_above = simplify.polygon(storage.layers[layer_idx_above].getOutlines().offset(-close_dist).offset(close_dist));
        z_distances_layer_deltas.emplace_back(z_delta_poly_t{
            .support_distance = support_distance_top,
            .delta_z = static_cast<double>(layer_index_offset * layer_thickness),
            .layer_delta = layer_above,
        });
    }
    std::map<poly_point_key, point_pair_t> offset_dist_at_point;
    for (auto [current_poly_idx, current_poly] : layer_current | ranges::views::enumerate)
    {
        for (auto [current_point_idx, current_point] : current_poly | ranges::views::enumerate)
        {
            offset_dist_at_point.insert({ { current_poly_idx, current_point_idx }, { 0, 0 } });
        }
    }
    for (const auto& z_delta_poly : z_distances_layer_deltas)
    {
        const auto support_distance = z_delta_poly.support_distance;
        const auto delta_z = z_delta_poly.delta_z;
        const auto layer_delta = z_delta_poly.layer_delta;
        const auto xy_distance_natural = support_distance * boundedTan(overhang_angle);
        for (auto [current_poly_idx, current_poly] : layer_current | ranges::views::enumerate)
        {
            for (auto [current_point_idx, current_point] : current_poly | ranges::views::enumerate)
            {
                auto min_dist2 = std::numeric_limits<coord_t>::max();
                Point2LL min_point;
                for (auto delta_poly : layer_delta)
                {
                    constexpr auto window_size = 2;
                    const auto view
                        = ranges::views::concat(delta_poly, (delta_poly | ranges::views::take(window_size - 1)))
                        | ranges::views::sliding(window_size);
                    for (auto window : view)
                    {
                        const auto delta_point = window[0];
                        const auto delta_point_next = window[1];
                        const auto dist2 = LinearAlg2D::getDist2FromLineSegment(delta_point, current_point, delta_point_next);
                        min_dist2 = std::min(min_dist2, dist2);
                    }
                }
                const auto min_dist = std::sqrt(min_dist2);
                const auto slope = min_dist / delta_z;
                const auto wall_angle = std::atan(std::abs(slope));
                const auto ratio = std::max(0.0, std::min(1.0, wall_angle / overhang_angle));
                const auto xy_distance_varying = std::lerp(xy_distance, xy_distance_natural, ratio);
                const poly_point_key key = { current_poly_idx, current_point_idx };
                const auto [n, commutative_offset] = offset_dist_at_point.at(key);
                offset_dist_at_point.at(key) = { n + 1, commutative_offset + xy_distance_varying };
            }
        }
    }
    std::vector<coord_t> varying_offsets;
    for (auto [current_poly_idx, current_poly] : layer_current | ranges::views::enumerate)
    {
        for (auto [current_point_idx, _current_point] : current_poly | ranges::views::enumerate)
        {
            const auto [n, commutative_offset] = offset_dist_at_point.at({ current_poly_idx, current_point_idx });
            double offset_dist;
            if (n == 0)
            {
                offset_dist = xy_distance;
            }
            else
            {
                offset_dist = commutative_offset / static_cast<double>(n);
            }
            varying_offsets.push_back(static_cast<coord_t>(offset_dist));
        }
    }
    const auto smooth_dist = xy_distance / 2.0;
    Shape varying_xy_disallowed_areas = layer_current
                                            .offsetMulti(varying_offsets)
                                            .offset(smooth_dist)
                                            .offset(-smooth_dist);
    scripta::log("support_varying_xy_disallowed_areas", varying_xy_disallowed_areas, SectionType::SUPPORT, layer_idx);
    return varying_xy_disallowed_areas;
}
//END
//= cura::AreaSupport::generateSupportAreasForMesh
void AreaSupport::generateSupportAreasForMesh(
    SliceDataStorage& storage,
    const Settings& infill_settings,
    const Settings& roof_settings,
    const Settings& bottom_settings,
    const size_t mesh_idx,
    const size_t layer_count,
    std::vector<Shape>& support_areas)
{
    SliceMeshStorage& mesh = *storage.meshes[mesh_idx];
    const ESupportStructure support_structure = mesh.settings.get<ESupportStructure>("support_structure");
    const bool is_support_mesh_place_holder
        = mesh.settings.get<bool>("support_mesh");
    const bool mesh_group_support_paint = Application::getInstance().current_slice_->scene.current_mesh_group->has_painted_support;
    if ((! (mesh.settings.get<bool>("support_enable") || mesh_group_support_paint) || support_structure != ESupportStructure::NORMAL) && ! is_support_mesh_place_holder)
    {
        return;
    }
    const Settings& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    const ESupportType support_type = mesh_group_settings.get<ESupportType>("support_type");
    if (support_type == ESupportType::NONE && ! is_support_mesh_place_holder)
    {
        return;
    }
    const coord_t layer_thickness = mesh_group_settings.get<coord_t>("layer_height");
    const coord_t z_distance_top = ((mesh.settings.get<bool>("support_roof_enable")) ? roof_settings : infill_settings).get<coord_t>("support_top_distance");
    const size_t layer_z_distance_top = (z_distance_top / layer_thickness) + 1;
    if (layer_z_distance_top + 1 > layer_count)
    {
        return;
    }
    if ((! (mesh.settings.get<bool>("support_mesh") || mesh_group_support_paint))
        && ranges::all_of(
            mesh.overhang_areas,
            [](const Shape& overhang_area)
            {
                return overhang_area.empty();
            })
        && ranges::all_of(
            mesh.full_overhang_areas,
            [](const Shape& overhang_area)
            {
                return overhang_area.empty();
            }))
    {
        return;
    }
    std::vector<Shape> xy_disallowed_per_layer;
    xy_disallowed_per_layer.resize(layer_count);
    std::vector<Shape> sloped_areas_per_layer;
    sloped_areas_per_layer.resize(layer_count);
    sloped_areas_per_layer[0] = Shape();
    const coord_t xy_distance = infill_settings.get<coord_t>("support_xy_distance");
    const coord_t xy_distance_overhang = infill_settings.get<coord_t>("support_xy_distance_overhang");
    const bool use_xy_distance_overhang
        = infill_settings.get<SupportDistPriority>("support_xy_overrides_z") == SupportDistPriority::Z_OVERRIDES_XY;
    constexpr bool no_support = false;
    constexpr bool no_prime_tower = false;
    const coord_t support_line_width = mesh_group_settings.get<ExtruderTrain&>("support_infill_extruder_nr").settings_.get<coord_t>("support_line_width");
    const double sloped_areas_angle = mesh.settings.get<AngleRadians>("support_bottom_stair_step_min_slope");
    const coord_t sloped_area_detection_width = 10 + static_cast<coord_t>(layer_thickness / std::tan(sloped_areas_angle)) / 2;
    const double minimum_support_area = mesh.settings.get<double>("minimum_support_area");
    const coord_t min_even_wall_line_width = mesh.settings.get<coord_t>("min_even_wall_line_width");
    xy_disallowed_per_layer[0] = storage.getLayerOutlines(0, no_support, no_prime_tower).offset(xy_distance);
    auto half_min_feature_width = min_even_wall_line_width + 10;
    cura::parallel_for<size_t>(
        1,
        layer_count,
        [&](const size_t layer_idx)
        {
            const Shape outlines = storage.getLayerOutlines(layer_idx, no_support, no_prime_tower);
            sloped_areas_per_layer[layer_idx] =
                storage.getLayerOutlines(layer_idx - 1, no_support, no_prime_tower)
                    .createTubeShape(sloped_area_detection_width, 10)
                    .intersection(outlines.createTubeShape(10, sloped_area_detection_width))
                    .offset(-10)
                    .offset(10 + sloped_area_detection_width);
            scripta::log(
                "support_sloped_areas",
                sloped_areas_per_layer[layer_idx],
                SectionType::SUPPORT,
                layer_idx,
                scripta::CellVDI{ "sloped_area_detection_width", sloped_area_detection_width });
            if (! is_support_mesh_place_holder)
            {
                if (use_xy_distance_overhang)
                {
                    Shape minimum_xy_disallowed_areas = mesh.layers[layer_idx].getOutlines().offset(xy_distance_overhang);
                    Shape varying_xy_disallowed_areas = generateVaryingXYDisallowedArea(mesh, layer_idx);
                    xy_disallowed_per_layer[layer_idx] = minimum_xy_disallowed_areas.unionPolygons(varying_xy_disallowed_areas);
                    scripta::log("support_xy_disallowed_areas", xy_disallowed_per_layer[layer_idx], SectionType::SUPPORT, layer_idx);
                }
            }
            if (is_support_mesh_place_holder || ! use_xy_distance_overhang)
            {
                xy_disallowed_per_layer[layer_idx] = outlines.offset(xy_distance);
            }
        });
    std::vector<Shape> tower_roofs;
    Shape stair_removal;
    const bool is_support_mesh_nondrop_place_holder = is_support_mesh_place_holder && ! mesh.settings.get<bool>("support_mesh_drop_down");
    const bool is_support_mesh_drop_down_place_holder = is_support_mesh_place_holder && mesh.settings.get<bool>("support_mesh_drop_down");
    const coord_t bottom_stair_step_width = std::max(static_cast<coord_t>(0), mesh.settings.get<coord_t>("support_bottom_stair_step_width"));
    const coord_t extension_offset = infill_settings.get<coord_t>("support_offset");
    const coord_t max_tower_supported_diameter = infill_settings.get<coord_t>("support_tower_maximum_supported_diameter");
    const bool use_towers = infill_settings.get<bool>("support_use_towers") && max_tower_supported_diameter > 0;
    const coord_t z_distance_bottom = ((mesh.settings.get<bool>("support_bottom_enable")) ? bottom_settings : infill_settings).get<coord_t>("support_bottom_distance");
    const size_t bottom_empty_layer_count = round_up_divide(z_distance_bottom, layer_thickness);
    const coord_t bottom_stair_step_height = std::max(static_cast<coord_t>(0), mesh.settings.get<coord_t>("support_bottom_stair_step_height"));
    const size_t bottom_stair_step_layer_count
        = bottom_stair_step_height / layer_thickness + 1;
    if (bottom_stair_step_layer_count > 1)
    {
        cura::parallel_for<size_t>(
            1,
            layer_count,
            [&](const size_t layer_idx)
            {
                if (layer_idx % bottom_stair_step_layer_count != 1)
                {
                    sloped_areas_per_layer[layer_idx] = sloped_areas_per_layer[layer_idx].unionPolygons(sloped_areas_per_layer[layer_idx - 1]);
                }
            },
            bottom_stair_step_layer_count);
    }
    for (size_t layer_idx = layer_count - 1 - layer_z_distance_top; layer_idx != static_cast<size_t>(-1); layer_idx--)
    {
        Shape layer_this = mesh.full_overhang_areas[layer_idx + layer_z_distance_top];
        if (extension_offset && ! is_support_mesh_place_holder)
        {
            Shape model_outline = storage.getLayerOutlines(layer_idx, no_support, no_prime_tower);
            const coord_t offset_per_step = support_line_width / 2;
            Shape horizontal_expansion = layer_this;
            for (coord_t offset_cumulative = 0; offset_cumulative <= extension_offset; offset_cumulative += offset_per_step)
            {
                horizontal_expansion = horizontal_expansion.offset(offset_per_step);
                model_outline = model_outline.difference(horizontal_expansion);
                model_outline = model_outline.offset(offset_per_step);
                horizontal_expansion = horizontal_expansion.difference(model_outline);
            }
            layer_this = layer_this.unionPolygons(horizontal_expansion);
        }
        if (use_towers && ! is_support_mesh_place_holder)
        {
            AreaSupport::handleWallStruts(infill_settings, layer_this);
            AreaSupport::handleTowers(infill_settings, xy_disallowed_per_layer[layer_idx], layer_this, tower_roofs, mesh.overhang_points, layer_idx, layer_count);
        }
        if (layer_idx + 1 < layer_count)
        {
            const Shape empty;
            const Shape* layer_above = (layer_idx < support_areas.size()) ? &support_areas[layer_idx + 1] : &empty;
            const Shape model_mesh_on_layer = (layer_idx > 0) && ! is_support_mesh_nondrop_place_holder ? storage.getLayerOutlines(layer_idx, no_support, no_prime_tower) : empty;
            if (is_support_mesh_nondrop_place_holder)
            {
                layer_above = &empty;
                layer_this = layer_this.unionPolygons(storage.support.supportLayers[layer_idx].support_mesh);
            }
            layer_this = AreaSupport::join(storage, *layer_above, layer_this).difference(model_mesh_on_layer);
        }
        if (use_towers)
        {
            for (SingleShape poly : layer_this.splitIntoParts())
            {
                const auto polygon_part = poly.difference(xy_disallowed_per_layer[layer_idx]).offset(-half_min_feature_width).offset(half_min_feature_width);
                const int64_t part_area = polygon_part.area();
                if (part_area == 0 || part_area > max_tower_supported_diameter * max_tower_supported_diameter)
                {
                    continue;
                }
                constexpr size_t tower_top_layer_count = 6;
                if (layer_idx < layer_count - tower_top_layer_count && layer_idx >= tower_top_layer_count + bottom_empty_layer_count)
                {
                    Shape tiny_tower_here;
                    tiny_tower_here.push_back(polygon_part);
                    tower_roofs.emplace_back(tiny_tower_here);
                }
            }
        }
        if (is_support_mesh_drop_down_place_holder && storage.support.supportLayers[layer_idx].support_mesh_drop_down.size() > 0)
        {
            layer_this = layer_this.unionPolygons(storage.support.supportLayers[layer_idx].support_mesh_drop_down);
        }
        moveUpFromModel(
            storage,
            stair_removal,
            sloped_areas_per_layer[layer_idx],
            layer_this,
            layer_idx,
            bottom_empty_layer_count,
            bottom_stair_step_layer_count,
            bottom_stair_step_width);
        support_areas[layer_idx] = layer_this;
        Progress::messageProgress(Progress::Stage::SUPPORT, layer_count * (mesh_idx + 1) - layer_idx, layer_count * storage.meshes.size());
    }
    for (auto [support_layer, xy_disallowed_area] : ranges::views::zip(support_areas, xy_disallowed_per_layer))
    {
        if (! support_layer.empty() && ! xy_disallowed_area.empty())
        {
            support_layer = support_layer.difference(xy_disallowed_area);
        }
        support_layer = support_layer.offset(-half_min_feature_width).offset(half_min_feature_width);
        support_layer.removeSmallAreas(minimum_support_area);
    }
    if (support_type == ESupportType::PLATFORM_ONLY)
    {
        Shape touching_buildplate = support_areas[0];
        const AngleRadians conical_support_angle = infill_settings.get<AngleRadians>("support_conical_angle");
        coord_t conical_support_offset;
        if (conical_support_angle > 0)
        {
            conical_support_offset = -boundedTan(conical_support_angle) * layer_thickness;
        }
        else
        {
            conical_support_offset = boundedTan(-conical_support_angle) * layer_thickness;
        }
        const bool conical_support = infill_settings.get<bool>("support_conical_enabled") && conical_support_angle != 0;
        for (LayerIndex layer_idx = 1; layer_idx < LayerIndex(storage.support.supportLayers.size()); layer_idx++)
        {
            const Shape& layer = support_areas[layer_idx];
            if (conical_support)
            {
                touching_buildplate = touching_buildplate.offset(std::abs(conical_support_offset) + 10, ClipperLib::jtMiter, 10);
            }
            touching_buildplate = layer.intersection(touching_buildplate);
            support_areas[layer_idx] = touching_buildplate;
        }
    }
    if (layer_z_distance_top > 1)
    {
        const int max_checking_layer_idx
            = std::max(0, std::min(static_cast<int>(storage.support.supportLayers.size()), static_cast<int>(layer_count - (layer_z_distance_top - 1))));
        cura::parallel_for<size_t>(
            0,
            max_checking_layer_idx,
            [&](const size_t layer_idx)
            {
                constexpr bool no_support_here = false;
                constexpr bool no_prime_tower_here = false;
                support_areas[layer_idx]
                    = support_areas[layer_idx].difference(storage.getLayerOutlines(layer_idx + layer_z_distance_top - 1, no_support_here, no_prime_tower_here));
            });
    }
    for (size_t layer_idx = 1; layer_idx < layer_count - 1; layer_idx++)
    {
        Shape& layer_this = support_areas[layer_idx];
        if (! layer_this.empty())
        {
            Shape& layer_below = support_areas[layer_idx - 1];
            Shape& layer_above = support_areas[layer_idx + 1];
            Shape surrounding_layer = layer_above.unionPolygons(layer_below);
            layer_this = layer_this.intersection(surrounding_layer);
        }
    }
    for (size_t layer_idx = support_areas.size() - 1; layer_idx != static_cast<size_t>(std::max(-1, storage.support.layer_nr_max_filled_layer)); layer_idx--)
    {
        if (support_areas[layer_idx].size() > 0)
        {
            storage.support.layer_nr_max_filled_layer = layer_idx;
            break;
        }
    }
    storage.support.generated = true;
}
//END
//= cura::AreaSupport::generateSupportRoof
void AreaSupport::generateSupportRoof(SliceDataStorage& storage, const SliceMeshStorage& mesh, std::vector<Shape>& global_support_areas_per_layer)
{
    const Settings& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    const coord_t layer_height = mesh_group_settings.get<coord_t>("layer_height");
    const size_t roof_layer_count = round_divide(mesh.settings.get<coord_t>("support_roof_height"), layer_height);
    if (roof_layer_count <= 0)
    {
        return;
    }
    const coord_t support_top_distance = mesh.settings.get<coord_t>("support_top_distance");
    const coord_t z_distance_top = round_up_divide(support_top_distance, layer_height);
    const coord_t roof_line_width = mesh_group_settings.get<ExtruderTrain&>("support_roof_extruder_nr").settings_.get<coord_t>("support_roof_line_width");
    const coord_t roof_outline_offset = mesh_group_settings.get<ExtruderTrain&>("support_roof_extruder_nr").settings_.get<coord_t>("support_roof_offset");
    const double minimum_roof_area = mesh.settings.get<double>("minimum_roof_area");
    std::vector<SupportLayer>& support_layers = storage.support.supportLayers;
    for (LayerIndex layer_idx = static_cast<int>(support_layers.size() - z_distance_top) - 1; layer_idx >= 0; --layer_idx)
    {
        const LayerIndex top_layer_idx_above{
            std::min(LayerIndex{ support_layers.size() - 1 }, LayerIndex{ layer_idx + roof_layer_count + z_distance_top })
        };
        Shape mesh_outlines;
        for (auto layer_idx_above = top_layer_idx_above; layer_idx_above > layer_idx + z_distance_top - 1; layer_idx_above -= 1)
        {
            mesh_outlines.push_back(mesh.layers[layer_idx_above].getOutlines());
        }
        Shape roofs;
        generateSupportInterfaceLayer(global_support_areas_per_layer[layer_idx], mesh_outlines, roof_line_width, roof_outline_offset, minimum_roof_area, roofs);
        support_layers[layer_idx].support_roof.push_back(roofs);
        if (layer_idx > 0 && layer_idx < support_layers.size() - 1 && support_top_distance % layer_height != 0)
        {
            support_layers[layer_idx].support_fractional_roof.push_back(roofs.difference(support_layers[layer_idx + 1].support_roof));
        }
        scripta::log("support_interface_roofs", roofs, SectionType::SUPPORT, layer_idx);
    }
    for (auto [layer_idx, support_layer] : support_layers | ranges::views::enumerate | ranges::views::drop(1) | ranges::views::drop_last(z_distance_top))
    {
        if (support_layer.support_roof.empty())
        {
            continue;
        }
        int lower = static_cast<int>(layer_idx);
        int upper = std::min(static_cast<int>(layer_idx + roof_layer_count + z_distance_top + 5), static_cast<int>(global_support_areas_per_layer.size()) - 1);
        for (Shape& global_support : global_support_areas_per_layer | ranges::views::slice(lower, upper))
        {
            global_support = global_support.difference(support_layer.support_roof);
        }
    }
}
//END
}
