// What the functions of this unit compute.
#include "TreeSupportTipGenerator.h"
#include <chrono>
#include <cstdio>
#include <fstream>
#include <numbers>
#include <string>
#include <range/v3/view/drop_last.hpp>
#include <range/v3/view/enumerate.hpp>
#include <range/v3/view/iota.hpp>
#include <spdlog/spdlog.h>
#include "Application.h"
#include "TreeSupportUtils.h"
#include "geometry/OpenPolyline.h"
#include "infill/SierpinskiFillProvider.h"
#include "settings/EnumSettings.h"
#include "utils/ThreadPool.h"
#include "utils/algorithm.h"
#include "utils/math.h"
#include "utils/polygonUtils.h"
namespace cura
{
//= cura::TreeSupportTipGenerator::TreeSupportTipGenerator
TreeSupportTipGenerator::TreeSupportTipGenerator(const SliceMeshStorage& mesh, TreeModelVolumes& volumes_s)
    : config_(mesh.settings)
    , use_fake_roof_(! mesh.settings.get<bool>("support_roof_enable"))
    , volumes_(volumes_s)
    , minimum_support_area_(mesh.settings.get<double>("minimum_support_area"))
    , minimum_roof_area_(! use_fake_roof_ ? mesh.settings.get<double>("minimum_roof_area") : std::max(SUPPORT_TREE_MINIMUM_FAKE_ROOF_AREA, minimum_support_area_))
    , support_roof_layers_(
          mesh.settings.get<bool>("support_roof_enable") ? round_divide(mesh.settings.get<coord_t>("support_roof_height"), config_.layer_height)
          : use_fake_roof_                               ? SUPPORT_TREE_MINIMUM_FAKE_ROOF_LAYERS
                                                         : 0)
    , connect_length_(
          (config_.support_line_width * 100 / mesh.settings.get<double>("support_tree_top_rate")) + std::max(2 * config_.min_radius - 1.0 * config_.support_line_width, 0.0))
    , support_tree_branch_distance_((config_.support_pattern == EFillMethod::TRIANGLES ? 3 : (config_.support_pattern == EFillMethod::GRID ? 2 : 1)) * connect_length_)
    , support_roof_line_distance_(
          use_fake_roof_ ? (config_.support_pattern == EFillMethod::TRIANGLES ? 3 : (config_.support_pattern == EFillMethod::GRID ? 2 : 1))
                               * (config_.support_line_width * 100 / mesh.settings.get<double>("support_tree_top_rate"))
                         : mesh.settings.get<coord_t>("support_roof_line_distance"))
    ,
    support_outset_(0)
    ,
    roof_outset_(use_fake_roof_ ? support_outset_ : mesh.settings.get<coord_t>("support_roof_offset"))
    , force_tip_to_roof_((config_.min_radius * config_.min_radius * std::numbers::pi > minimum_roof_area_ * (1000 * 1000)) && support_roof_layers_ && ! use_fake_roof_)
    , support_tree_limit_branch_reach_(mesh.settings.get<bool>("support_tree_limit_branch_reach"))
    , support_tree_branch_reach_limit_(support_tree_limit_branch_reach_ ? mesh.settings.get<coord_t>("support_tree_branch_reach_limit") : 0)
    , z_distance_delta_(std::min(config_.z_distance_top_layers + 1, mesh.overhang_areas.size()))
    , xy_overrides_(config_.support_overrides == SupportDistPriority::XY_OVERRIDES_Z)
    , tip_roof_size_(force_tip_to_roof_ ? INT2MM2(config_.min_radius * config_.min_radius) * std::numbers::pi : 0)
    , force_minimum_roof_area_(use_fake_roof_ || SUPPORT_TREE_MINIMUM_ROOF_AREA_HARD_LIMIT)
    , already_inserted_(mesh.overhang_areas.size())
    , support_roof_drawn_(mesh.overhang_areas.size(), Shape())
    , support_roof_drawn_fractional_(mesh.overhang_areas.size(), Shape())
    , roof_tips_drawn_(mesh.overhang_areas.size(), Shape())
{
    const double support_overhang_angle = mesh.settings.get<AngleRadians>("support_angle");
    const coord_t max_overhang_speed = (support_overhang_angle < TAU / 4) ? (coord_t)(tan(support_overhang_angle) * config_.layer_height) : std::numeric_limits<coord_t>::max();
    if (max_overhang_speed < 2)
    {
        max_overhang_insert_lag_ = std::numeric_limits<size_t>::max();
    }
    else
    {
        max_overhang_insert_lag_ = std::max((size_t)round_up_divide(config_.xy_distance, max_overhang_speed / 2), 2 * config_.z_distance_top_layers);
    }
    cross_fill_provider_ = generateCrossFillProvider(mesh, support_tree_branch_distance_, config_.support_line_width);
    std::vector<coord_t> known_z(mesh.layers.size());
    for (auto [z, layer] : ranges::views::enumerate(mesh.layers))
    {
        known_z[z] = layer.printZ;
    }
    config_.setActualZ(known_z);
    coord_t dtt_when_tips_can_merge = 1;
    if (config_.branch_radius * config_.diameter_angle_scale_factor < 2 * config_.maximum_move_distance_slow)
    {
        while ((2 * config_.maximum_move_distance_slow * dtt_when_tips_can_merge - config_.support_line_width) < config_.getRadius(dtt_when_tips_can_merge))
        {
            dtt_when_tips_can_merge++;
        }
    }
    else
    {
        dtt_when_tips_can_merge = config_.tip_layers;
    }
    support_supporting_branch_distance_ = 2 * config_.getRadius(dtt_when_tips_can_merge) + config_.support_line_width + FUDGE_LENGTH;
}
//END
//= cura::TreeSupportTipGenerator::ensureMaximumDistancePolyline
OpenLinesSet TreeSupportTipGenerator::ensureMaximumDistancePolyline(const OpenLinesSet& input, coord_t distance, size_t min_points, bool enforce_distance) const
{
    OpenLinesSet result;
    for (OpenPolyline part : input)
    {
        if (part.size() == 0)
        {
            continue;
        }
        const coord_t length = part.length();
        OpenPolyline line;
        coord_t current_distance = std::max(distance, coord_t(FUDGE_LENGTH * 2));
        if (length < 2 * distance && min_points <= 1)
        {
            ClosestPoint<OpenPolyline> middle_point(part[0], 0, &part);
            middle_point = PolygonUtils::walk(middle_point, coord_t(length / 2));
            line.push_back(middle_point.location_);
        }
        else
        {
            size_t optimal_end_index = part.size() - 1;
            if (part.front() == part.back())
            {
                size_t optimal_start_index = 0;
                coord_t max_dist2_between_vertices = 0;
                for (auto [idx, p_a] : part | ranges::views::enumerate | ranges::views::drop_last(1))
                {
                    for (auto [inner_idx, p_b] : part | ranges::views::enumerate | ranges::views::drop_last(1))
                    {
                        if (vSize2(p_a - p_b) > max_dist2_between_vertices)
                        {
                            optimal_start_index = idx;
                            optimal_end_index = inner_idx;
                            max_dist2_between_vertices = vSize2(p_a - p_b);
                        }
                    }
                }
                std::rotate(part.begin(), part.begin() + optimal_start_index, part.end() - 1);
                part[part.size() - 1] = part[0];
                optimal_end_index = (optimal_end_index - optimal_start_index + part.size() - 1) % (part.size() - 1);
            }
            while (line.size() < min_points && current_distance >= coord_t(FUDGE_LENGTH * 2))
            {
                line.clear();
                Point2LL current_point = part[0];
                line.push_back(part[0]);
                bool should_add_endpoint = min_points > 1 || vSize2(part[0] - part[optimal_end_index]) > (current_distance * current_distance);
                bool added_endpoint = ! should_add_endpoint;
                size_t current_index = 0;
                GivenDistPoint next_point;
                coord_t next_distance = current_distance;
                while (PolygonUtils::getNextPointWithDistance(current_point, next_distance, part, current_index, 0, next_point) && next_point.pos < coord_t(part.size()) - 1)
                {
                    if (! added_endpoint && next_point.pos >= optimal_end_index)
                    {
                        current_index = optimal_end_index;
                        current_point = part[optimal_end_index];
                        added_endpoint = true;
                        line.push_back(part[optimal_end_index]);
                        continue;
                    }
                    coord_t min_distance_to_existing_point_sqd = std::numeric_limits<coord_t>::max();
                    if (enforce_distance)
                    {
                        for (Point2LL p : line)
                        {
                            min_distance_to_existing_point_sqd = std::min(min_distance_to_existing_point_sqd, vSize2(p - next_point.location));
                        }
                    }
                    if (! enforce_distance || min_distance_to_existing_point_sqd >= (current_distance * current_distance))
                    {
                        line.push_back(next_point.location);
                        current_point = next_point.location;
                        current_index = next_point.pos;
                        next_distance = current_distance;
                    }
                    else
                    {
                        if (current_point == next_point.location)
                        {
                            spdlog::warn(
                                "Tree Support: Encountered a fixpoint in getNextPointWithDistance. This is expected to happen if the distance (currently {}) is smaller than 100",
                                next_distance);
                            if (next_distance > 2 * current_distance)
                            {
                                break;
                            }
                            next_distance += current_distance;
                            continue;
                        }
                        next_distance = std::max(static_cast<coord_t>(current_distance - std::sqrt(min_distance_to_existing_point_sqd)), coord_t(FUDGE_LENGTH * 2));
                        current_point = next_point.location;
                        current_index = next_point.pos;
                    }
                }
                if (! added_endpoint)
                {
                    line.push_back(part[optimal_end_index]);
                }
                current_distance *= 0.9;
            }
        }
        result.push_back(line);
    }
    return result;
}
//END
}
