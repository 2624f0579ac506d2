// What the functions of this unit compute.
#include "LayerPlan.h"
#include <algorithm>
#include <cstring>
#include <numeric>
#include <optional>
#include <boost/mpl/distance.hpp>
#include <boost/range/distance.hpp>
#include <range/v3/algorithm/max_element.hpp>
#include <scripta/logger.h>
#include <spdlog/spdlog.h>
#include "Application.h"
#include "BeadingStrategy/BeadingStrategyFactory.h"
#include "ExtruderTrain.h"
#include "PathAdapter.h"
#include "PathOrderMonotonic.h"
#include "Slice.h"
#include "TravelAntiOozing.h"
#include "WipeScriptConfig.h"
#include "arachne/SkeletalTrapezoidation.h"
#include "arachne/SkeletalTrapezoidationGraph.h"
#include "bridge/bridge.h"
#include "communication/Communication.h"
#include "geometry/ClosedLinesSet.h"
#include "geometry/OpenPolyline.h"
#include "geometry/conversions/Point2D_Point2LL.h"
#include "gradual_flow/Processor.h"
#include "pathPlanning/Comb.h"
#include "pathPlanning/CombPaths.h"
#include "plugins/slots.h"
#include "raft.h"
#include "range/v3/view/chunk_by.hpp"
#include "settings/types/Ratio.h"
#include "sliceDataStorage.h"
#include "utils/Simplify.h"
#include "utils/linearAlg2D.h"
#include "utils/math.h"
#include "utils/polygonUtils.h"
#include "utils/section_type.h"
namespace cura
{
constexpr int MINIMUM_LINE_LENGTH = 5;
constexpr int MINIMUM_SQUARED_LINE_LENGTH = MINIMUM_LINE_LENGTH * MINIMUM_LINE_LENGTH;
//= cura::LayerPlan::LayerPlan
LayerPlan::LayerPlan(
    const SliceDataStorage& storage,
    LayerIndex layer_nr,
    coord_t z,
    coord_t layer_thickness,
    size_t start_extruder,
    const std::vector<FanSpeedLayerTimeSettings>& fan_speed_layer_time_settings_per_extruder,
    coord_t comb_boundary_offset,
    coord_t comb_move_inside_distance,
    coord_t travel_avoid_distance)
    : configs_storage_(storage, layer_nr, layer_thickness)
    , z_(z)
    , final_travel_z_(z)
    , storage_(storage)
    , layer_nr_(layer_nr)
    , is_initial_layer_(layer_nr == 0 - static_cast<LayerIndex>(Raft::getTotalExtraLayers()))
    , layer_type_(Raft::getLayerType(layer_nr))
    , layer_thickness_(layer_thickness)
    , has_prime_tower_planned_per_extruder_(Application::getInstance().current_slice_->scene.extruders.size(), false)
    , current_mesh_(nullptr)
    , last_extruder_previous_layer_(start_extruder)
    , last_planned_extruder_(&Application::getInstance().current_slice_->scene.extruders[start_extruder])
    , first_travel_destination_is_inside_(false)
    ,
    comb_boundary_minimum_(computeCombBoundary(CombBoundary::MINIMUM))
    , comb_boundary_preferred_(computeCombBoundary(CombBoundary::PREFERRED))
    , comb_move_inside_distance_(comb_move_inside_distance)
    , fan_speed_layer_time_settings_per_extruder_(fan_speed_layer_time_settings_per_extruder)
{
    size_t current_extruder = start_extruder;
    was_inside_ = true;
    is_inside_ = false;
    const auto& local_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    if (local_settings.get<CombingMode>("retraction_combing") != CombingMode::OFF && local_settings.get<coord_t>("retraction_combing_avoid_distance") > 0)
    {
        comb_ = new Comb(storage, layer_nr, comb_boundary_minimum_, comb_boundary_preferred_, comb_boundary_offset, travel_avoid_distance, comb_move_inside_distance);
    }
    else
    {
        comb_ = nullptr;
    }
    for (const ExtruderTrain& extruder : Application::getInstance().current_slice_->scene.extruders)
    {
        layer_start_pos_per_extruder_.emplace_back(extruder.settings_.get<coord_t>("layer_start_x"), extruder.settings_.get<coord_t>("layer_start_y"), 0);
    }
    extruder_plans_.reserve(Application::getInstance().current_slice_->scene.extruders.size());
    const auto is_raft_layer = layer_type_ == Raft::LayerType::RaftBase || layer_type_ == Raft::LayerType::RaftInterface || layer_type_ == Raft::LayerType::RaftSurface;
    extruder_plans_.emplace_back(
        current_extruder,
        layer_nr,
        is_initial_layer_,
        is_raft_layer,
        layer_thickness,
        fan_speed_layer_time_settings_per_extruder[current_extruder],
        storage.retraction_wipe_config_per_extruder[current_extruder].retraction_config);
    for (size_t extruder_nr = 0; extruder_nr < Application::getInstance().current_slice_->scene.extruders.size(); extruder_nr++)
    {
        skirt_brim_is_processed_[extruder_nr] = false;
    }
}
//END
//= cura::LayerPlan::addTravel
GCodePath& LayerPlan::addTravel(const Point2LL& p, const ForceRetract force_retract, const coord_t z_offset)
{
    const GCodePathConfig& travel_config = configs_storage_.travel_config_per_extruder[getExtruder()];
    const RetractionConfig& retraction_config
        = current_mesh_ ? current_mesh_->retraction_wipe_config.retraction_config : storage_.retraction_wipe_config_per_extruder[getExtruder()].retraction_config;
    GCodePath* path = getLatestPathWithConfig(travel_config, SpaceFillType::None, z_offset);
    bool combed = false;
    const ExtruderTrain* extruder = getLastPlannedExtruderTrain();
    const Settings& mesh_or_extruder_settings = current_mesh_ ? current_mesh_->settings : extruder->settings_;
    const bool is_first_travel_of_extruder_after_switch
        = extruder_plans_.back().paths_.size() == 1 && (extruder_plans_.size() > 1 || last_extruder_previous_layer_ != getExtruder());
    bool bypass_combing = is_first_travel_of_extruder_after_switch && mesh_or_extruder_settings.get<bool>("retraction_hop_after_extruder_switch");
    const bool is_first_travel_of_layer = ! static_cast<bool>(last_planned_position_);
    const bool retraction_enable = mesh_or_extruder_settings.get<bool>("retraction_enable");
    if (is_first_travel_of_layer)
    {
        bypass_combing = true;
        first_travel_destination_ = p;
        first_travel_destination_is_inside_ = is_inside_;
        if (layer_nr_ == 0 && retraction_enable && mesh_or_extruder_settings.get<bool>("retraction_hop_enabled"))
        {
            path->retract = true;
            path->perform_z_hop = true;
        }
        forceNewPathStart();
    }
    else if (
        force_retract == ForceRetract::RETRACTED && last_planned_position_
        && ! shorterThen(last_planned_position_.value().toPoint2LL() - p, retraction_config.retraction_min_travel_distance))
    {
        path->retract = true;
        if (comb_ == nullptr)
        {
            path->perform_z_hop = mesh_or_extruder_settings.get<bool>("retraction_hop_enabled");
        }
    }
    if (comb_ != nullptr && ! bypass_combing)
    {
        CombPaths combPaths;
        const coord_t max_distance_ignored = mesh_or_extruder_settings.get<coord_t>("machine_nozzle_tip_outer_diameter") / 2 * 2;
        bool unretract_before_last_travel_move = false;
        bool do_retracted_combing_move = false;
        const bool perform_z_hops = mesh_or_extruder_settings.get<bool>("retraction_hop_enabled");
        const bool perform_z_hops_only_when_collides = mesh_or_extruder_settings.get<bool>("retraction_hop_only_when_collides");
        combed = comb_->calc(
            perform_z_hops,
            perform_z_hops_only_when_collides,
            *extruder,
            last_planned_position_.value().toPoint2LL(),
            p,
            combPaths,
            was_inside_,
            is_inside_,
            max_distance_ignored,
            unretract_before_last_travel_move,
            do_retracted_combing_move);
        if (combed)
        {
            bool retract = path->retract || ((combPaths.size() > 1 || do_retracted_combing_move) && retraction_enable);
            if (! retract)
            {
                if (combPaths.throughAir)
                {
                    retract = retraction_enable;
                }
                else
                {
                    for (CombPath& combPath : combPaths)
                    {
                        if (combPath.cross_boundary)
                        {
                            retract = retraction_enable;
                            break;
                        }
                    }
                }
            }
            const coord_t maximum_travel_resolution = mesh_or_extruder_settings.get<coord_t>("meshfix_maximum_travel_resolution");
            coord_t distance = 0;
            Point2LL last_point((last_planned_position_) ? last_planned_position_.value().toPoint2LL() : Point2LL(0, 0));
            for (CombPath& combPath : combPaths)
            {
                if (combPath.empty())
                {
                    continue;
                }
                for (Point2LL& comb_point : combPath)
                {
                    if (path->points.empty() || (path->points.back() - comb_point).vSize2() > maximum_travel_resolution * maximum_travel_resolution)
                    {
                        path->points.push_back(comb_point);
                        distance += vSize(last_point - comb_point);
                        last_point = comb_point;
                    }
                }
                distance += vSize(last_point - p);
                const coord_t retract_threshold = mesh_or_extruder_settings.get<coord_t>("retraction_combing_max_distance");
                path->retract = retract || (retract_threshold > 0 && distance > retract_threshold && retraction_enable);
            }
            path->unretract_before_last_travel_move = path->retract && unretract_before_last_travel_move;
        }
    }
    if (force_retract == ForceRetract::NOT_RETRACTED)
    {
        path->retract = false;
    }
    if (! is_first_travel_of_layer && last_planned_position_ && shorterThen(last_planned_position_.value().toPoint2LL() - p, retraction_config.retraction_min_travel_distance))
    {
        path->retract = false;
        path->perform_z_hop = false;
    }
    if (! combed && ! is_first_travel_of_layer && last_planned_position_
        && ! shorterThen(last_planned_position_.value().toPoint2LL() - p, retraction_config.retraction_min_travel_distance))
    {
        if (was_inside_)
        {
            assert(extruder != nullptr);
            coord_t innermost_wall_line_width
                = mesh_or_extruder_settings.get<coord_t>((mesh_or_extruder_settings.get<size_t>("wall_line_count") > 1) ? "wall_line_width_x" : "wall_line_width_0");
            if (layer_nr_ == 0)
            {
                innermost_wall_line_width *= mesh_or_extruder_settings.get<Ratio>("initial_layer_line_width_factor");
            }
            moveInsideCombBoundary(innermost_wall_line_width, std::nullopt, path);
        }
        path->retract = retraction_enable;
        path->perform_z_hop = retraction_enable && mesh_or_extruder_settings.get<bool>("retraction_hop_enabled");
    }
    forceNewPathStart();
    GCodePath& ret = addTravel_simple(p, path);
    was_inside_ = is_inside_;
    return ret;
}
//END
//= cura::LayerPlan::addExtrusionMoveWithGradualOverhang
void LayerPlan::addExtrusionMoveWithGradualOverhang(
    const Point3LL& p,
    const GCodePathConfig& config,
    const SpaceFillType space_fill_type,
    const Ratio& flow,
    const Ratio width_factor,
    const bool spiralize,
    const Ratio speed_factor,
    const double fan_speed,
    const bool travel_to_z)
{
    const auto add_extrusion_move = [&](const Point3LL& target, const std::optional<size_t> speed_region_index = std::nullopt)
    {
        const Ratio overhang_speed_factor = speed_region_index.has_value() ? overhang_masks_[speed_region_index.value()].speed_ratio : 1.0_r;
        addExtrusionMove(target, config, space_fill_type, flow, width_factor, spiralize, speed_factor * overhang_speed_factor, fan_speed, travel_to_z);
    };
    const auto update_is_overhanging = [this](const Point3LL& target, std::optional<Point3LL> current_position, const bool is_overhanging = false)
    {
        if (is_overhanging != currently_overhanging_)
        {
            max_overhang_length_ = std::max(current_overhang_length_, max_overhang_length_);
            current_overhang_length_ = 0;
        }
        if (is_overhanging && current_position.has_value())
        {
            current_overhang_length_ += (target - current_position.value()).vSize();
        }
        currently_overhanging_ = is_overhanging;
    };
    if (overhang_masks_.empty() || ! last_planned_position_.has_value())
    {
        update_is_overhanging(p, last_planned_position_);
        add_extrusion_move(p);
        return;
    }
    const Point3LL start = last_planned_position_.value();
    const Point2LL start_flat = start.toPoint2LL();
    size_t actual_speed_region_index = overhang_masks_.size() - 1;
    for (const auto& [index, overhang_region] : overhang_masks_ | ranges::views::drop_last(1) | ranges::views::enumerate)
    {
        if (overhang_region.supported_region.inside(start_flat, true))
        {
            actual_speed_region_index = index;
            break;
        }
    }
    const Point3LL end = p;
    const Point2LL end_flat = end.toPoint2LL();
    const Point3LL vector = end - start;
    std::vector<std::vector<float>> speed_regions_intersections;
    speed_regions_intersections.reserve(overhang_masks_.size() - 1);
    for (const OverhangMask& overhang_region : overhang_masks_ | ranges::views::drop_last(1))
    {
        std::vector<float> intersections = overhang_region.supported_region.intersectionsWithSegment(start_flat, end_flat);
        ranges::stable_sort(intersections);
        speed_regions_intersections.push_back(intersections);
    }
    const auto remove_previous_intersections = [&speed_regions_intersections](const float current_intersection)
    {
        for (std::vector<float>& intersections : speed_regions_intersections)
        {
            auto iterator = ranges::find_if(
                intersections,
                [&current_intersection](const float next_intersection)
                {
                    return next_intersection > current_intersection;
                });
            intersections.erase(intersections.begin(), iterator);
        }
    };
    struct SegmentExtrusionMove
    {
        Point3LL position;
        size_t speed_region_index;
    };
    std::vector<SegmentExtrusionMove> extrusion_moves;
    while (true)
    {
        auto get_first_intersection = [](const std::vector<float>* intersections) -> std::optional<float>
        {
            return intersections != nullptr && ! intersections->empty() ? std::make_optional(intersections->front()) : std::nullopt;
        };
        std::vector<float>* intersections_current_region
            = actual_speed_region_index < speed_regions_intersections.size() ? &speed_regions_intersections[actual_speed_region_index] : nullptr;
        const std::optional<float> first_intersection_current_region = get_first_intersection(intersections_current_region);
        std::vector<float>* intersections_inner_region = actual_speed_region_index > 0 ? &speed_regions_intersections[actual_speed_region_index - 1] : nullptr;
        const std::optional<float> first_intersection_inner_region = get_first_intersection(intersections_inner_region);
        if (first_intersection_current_region.has_value() || first_intersection_inner_region.has_value())
        {
            float intersection_parameter;
            size_t next_speed_region_index;
            if (first_intersection_current_region.has_value()
                && (! first_intersection_inner_region.has_value() || first_intersection_inner_region.value() > first_intersection_current_region.value()))
            {
                intersection_parameter = first_intersection_current_region.value();
                next_speed_region_index = actual_speed_region_index + 1;
            }
            else
            {
                intersection_parameter = first_intersection_inner_region.value();
                next_speed_region_index = actual_speed_region_index - 1;
            }
            const Point3LL split_position = start + vector * intersection_parameter;
            extrusion_moves.push_back(SegmentExtrusionMove{ split_position, actual_speed_region_index });
            actual_speed_region_index = next_speed_region_index;
            remove_previous_intersections(intersection_parameter);
        }
        else
        {
            extrusion_moves.push_back(SegmentExtrusionMove{ p, actual_speed_region_index });
            break;
        }
    }
    std::vector<SegmentExtrusionMove> extrusion_moves_filtered;
    extrusion_moves_filtered.reserve(extrusion_moves.size());
    Point3LL current_position = start;
    for (const SegmentExtrusionMove& extrusion_move : extrusion_moves | ranges::views::drop_last(1))
    {
        if ((extrusion_move.position - current_position).vSize2() >= MINIMUM_SQUARED_LINE_LENGTH)
        {
            extrusion_moves_filtered.push_back(extrusion_move);
        }
        current_position = extrusion_move.position;
    }
    if (extrusion_moves_filtered.empty() || (extrusion_moves.back().position - current_position).vSize2() >= MINIMUM_SQUARED_LINE_LENGTH)
    {
        extrusion_moves_filtered.push_back(extrusion_moves.back());
    }
    else
    {
        extrusion_moves_filtered.back().position = extrusion_moves.back().position;
    }
    current_position = start;
    for (const SegmentExtrusionMove& extrusion_move : extrusion_moves_filtered)
    {
        const bool is_overhanging = extrusion_move.speed_region_index > 0;
        update_is_overhanging(extrusion_move.position, current_position, is_overhanging);
        current_position = extrusion_move.position;
    }
    std::vector<SegmentExtrusionMove> extrusion_moves_merged;
    extrusion_moves_merged.reserve(extrusion_moves_filtered.size());
    extrusion_moves_merged.push_back(extrusion_moves_filtered.front());
    for (const SegmentExtrusionMove& extrusion_move : extrusion_moves_filtered | ranges::views::drop(1))
    {
        const Ratio previous_speed_factor = overhang_masks_[extrusion_moves_merged.back().speed_region_index].speed_ratio;
        const Ratio next_speed_factor = overhang_masks_[extrusion_move.speed_region_index].speed_ratio;
        if (next_speed_factor == previous_speed_factor)
        {
            extrusion_moves_merged.back().position = extrusion_move.position;
        }
        else
        {
            extrusion_moves_merged.push_back(extrusion_move);
        }
    }
    for (const SegmentExtrusionMove& extrusion_move : extrusion_moves_merged)
    {
        add_extrusion_move(extrusion_move.position, extrusion_move.speed_region_index);
    }
}
//END
template<class PathType>
void LayerPlan::addWipeTravel(const PathAdapter<PathType>& path, const coord_t wipe_distance, const bool backwards, const size_t start_index, const Point2LL& last_path_position)
{
    if (path.size() >= 2 && wipe_distance > 0)
    {
        const int direction = backwards ? -1 : 1;
        Point2LL p0 = last_path_position;
        int distance_traversed = 0;
        size_t index = start_index;
        while (distance_traversed < wipe_distance)
        {
            index = static_cast<size_t>((index + direction + path.size()) % path.size());
            if (index == start_index && distance_traversed == 0)
            {
                break;
            }
            const Point2LL& p1 = path.pointAt(index);
            const int p0p1_dist = vSize(p1 - p0);
            if (distance_traversed + p0p1_dist >= wipe_distance)
            {
                Point2LL vector = p1 - p0;
                Point2LL half_way = p0 + normal(vector, wipe_distance - distance_traversed);
                addTravel_simple(half_way);
            }
            else
            {
                addTravel_simple(p1);
            }
            distance_traversed += p0p1_dist;
            p0 = p1;
        }
        forceNewPathStart();
    }
}
//= cura::LayerPlan::addPolygon
void LayerPlan::addPolygon(
    const Polygon& polygon,
    int start_idx,
    const bool backwards,
    const Settings& settings,
    const GCodePathConfig& config,
    coord_t wall_0_wipe_dist,
    bool spiralize,
    const Ratio& flow_ratio,
    const ForceRetract force_retract,
    bool scarf_seam,
    bool smooth_speed)
{
    constexpr bool is_closed = true;
    constexpr bool is_candidate_small_feature = false;
    const PathAdapter path_adapter(polygon, config.getLineWidth());
    Point2LL p0 = polygon[start_idx];
    addTravel(p0, force_retract, config.z_offset);
    const std::tuple<size_t, Point2LL> add_wall_result = addWallWithScarfSeam<Polygon>(
        path_adapter,
        start_idx,
        settings,
        config,
        flow_ratio,
        force_retract,
        is_closed,
        backwards,
        is_candidate_small_feature,
        scarf_seam,
        smooth_speed,
        [this, &config, &spiralize](
            const PathAdapter<Polygon>& ,
            const size_t ,
            const Ratio& ,
            const Ratio& ,
            const Point3LL& ,
            const Point3LL& end,
            const Ratio& speed_factor,
            const Ratio& actual_flow_ratio,
            const Ratio& line_width_ratio,
            const coord_t ,
            const bool )
        {
            constexpr double fan_speed = GCodePathConfig::FAN_SPEED_DEFAULT;
            constexpr bool travel_to_z = false;
            addExtrusionMove(end, config, SpaceFillType::Polygons, actual_flow_ratio, line_width_ratio, spiralize, speed_factor, fan_speed, travel_to_z);
        });
    if (polygon.size() > 2)
    {
        addWipeTravel(path_adapter, wall_0_wipe_dist, backwards, get<0>(add_wall_result), get<1>(add_wall_result));
    }
    else
    {
        spdlog::warn("line added as polygon! (LayerPlan)");
    }
}
//END
static constexpr double max_non_bridge_line_volume = MM2INT(100);
//= cura::LayerPlan::addSplitWall
template<class PathType>
std::tuple<size_t, Point2LL> LayerPlan::addSplitWall(
    const PathAdapter<PathType>& wall,
    const coord_t wall_length,
    const size_t start_idx,
    const size_t max_index,
    const int direction,
    const GCodePathConfig& default_config,
    const ForceRetract force_retract,
    const bool is_small_feature,
    Ratio small_feature_speed_factor,
    const coord_t max_area_deviation,
    const auto max_resolution,
    const double flow_ratio,
    const coord_t nominal_line_width,
    const coord_t min_bridge_line_len,
    const auto scarf_seam_length,
    const auto scarf_seam_start_ratio,
    const auto scarf_split_distance,
    const coord_t scarf_max_z_offset,
    const coord_t speed_split_distance,
    const Ratio start_speed_ratio,
    const coord_t accelerate_length,
    const Ratio end_speed_ratio,
    const coord_t decelerate_length,
    const bool is_scarf_closure,
    const bool compute_distance_to_bridge_start,
    const AddExtrusionSegmentFunction<PathType>& func_add_segment)
{
    std::optional<coord_t> distance_to_bridge_start;
    Point2LL p0 = wall.pointAt(start_idx);
    coord_t w0 = wall.lineWidthAt(start_idx);
    bool first_line = ! is_scarf_closure;
    Point3LL split_origin = p0;
    if (! is_scarf_closure && scarf_seam_length > 0)
    {
        split_origin.z_ = scarf_max_z_offset;
    }
    coord_t wall_processed_distance = 0;
    double scarf_factor_origin = 0.0;
    double accelerate_factor_origin = 0.0;
    double decelerate_factor_origin = 0.0;
    const coord_t start_decelerate_position = wall_length - decelerate_length;
    Point3LL split_destination = p0;
    size_t previous_point_index = start_idx;
    bool keep_processing = true;
    const auto point_index = [&wall](const int base_index) -> size_t
    {
        int index = base_index;
        while (index < 0)
        {
            index += wall.size();
        }
        return index % wall.size();
    };
    for (size_t point_idx = 1; point_idx < max_index && keep_processing; point_idx++)
    {
        const size_t actual_point_index = (wall.size() + start_idx + point_idx * direction) % wall.size();
        previous_point_index = (wall.size() + start_idx + (point_idx - 1) * direction) % wall.size();
        const Point2LL& p1 = wall.pointAt(actual_point_index);
        const coord_t w1 = wall.lineWidthAt(actual_point_index);
        coord_t segment_processed_distance = 0;
        if constexpr (std::is_same_v<PathType, ExtrusionLine>)
        {
            if (compute_distance_to_bridge_start && ! bridge_wall_mask_.empty() && ! distance_to_bridge_start.has_value())
            {
                distance_to_bridge_start
                    = computeDistanceToBridgeStart(wall.getPath(), (wall.size() + start_idx + point_idx * direction - 1) % wall.size(), min_bridge_line_len, direction);
            }
        }
        if (first_line)
        {
            addTravel(p0, force_retract);
            first_line = false;
        }
        const coord_t delta_line_width = w1 - w0;
        const Point2LL line_vector = p1 - p0;
        const coord_t line_length = vSize(line_vector);
        const coord_t line_area_deviation = std::abs(delta_line_width) * line_length / 4;
        const size_t pieces_limit_deviation = round_up_divide(line_area_deviation, max_area_deviation);
        const size_t pieces_limit_resolution = line_length / max_resolution;
        const size_t pieces = std::max(size_t(1), std::min(pieces_limit_deviation, pieces_limit_resolution));
        const coord_t piece_length = round_divide(line_length, pieces);
        for (size_t piece = 0; piece < pieces && keep_processing; ++piece)
        {
            const double average_progress = (double(piece) + 0.5) / pieces;
            const coord_t line_width = std::lrint(static_cast<double>(w0) + average_progress * static_cast<double>(delta_line_width));
            const Ratio line_width_ratio = static_cast<double>(line_width) / nominal_line_width;
            const Point2LL destination = p0 + normal(line_vector, piece_length * (piece + 1));
            if (is_small_feature && ! is_scarf_closure)
            {
                constexpr bool spiralize = false;
                addExtrusionMove(destination, default_config, SpaceFillType::Polygons, flow_ratio, line_width_ratio, spiralize, small_feature_speed_factor);
            }
            else
            {
                coord_t piece_remaining_distance = piece_length;
                while (piece_remaining_distance > 0 && keep_processing)
                {
                    std::vector<coord_t> split_positions{ wall_processed_distance + piece_remaining_distance };
                    const bool process_scarf = wall_processed_distance < scarf_seam_length;
                    if (process_scarf)
                    {
                        split_positions.push_back(scarf_seam_length);
                        split_positions.push_back(wall_processed_distance + scarf_split_distance);
                    }
                    const bool process_acceleration = ! is_scarf_closure && wall_processed_distance < accelerate_length;
                    if (process_acceleration)
                    {
                        split_positions.push_back(accelerate_length);
                        split_positions.push_back(wall_processed_distance + speed_split_distance);
                    }
                    bool deceleration_started = false;
                    if (! is_scarf_closure && decelerate_length > 0)
                    {
                        deceleration_started = wall_processed_distance >= start_decelerate_position;
                        if (deceleration_started)
                        {
                            split_positions.push_back(wall_processed_distance + speed_split_distance);
                        }
                        else
                        {
                            split_positions.push_back(start_decelerate_position);
                        }
                    }
                    const coord_t destination_position = *std::min_element(split_positions.begin(), split_positions.end());
                    const coord_t length_to_process = destination_position - wall_processed_distance;
                    const double destination_factor = static_cast<double>(segment_processed_distance + length_to_process) / line_length;
                    split_destination = cura::lerp(p0, p1, destination_factor);
                    double scarf_factor_destination = 1.0;
                    if (process_scarf)
                    {
                        scarf_factor_destination = static_cast<double>(destination_position) / static_cast<double>(scarf_seam_length);
                        if (! is_scarf_closure)
                        {
                            split_destination.z_ = std::llrint(std::lerp(scarf_max_z_offset, 0.0, scarf_factor_destination));
                        }
                    }
                    Ratio accelerate_speed_factor = 1.0_r;
                    double accelerate_factor_destination = 1.0;
                    if (process_acceleration)
                    {
                        accelerate_factor_destination = static_cast<double>(destination_position) / static_cast<double>(accelerate_length);
                        const double accelerate_factor_average = (accelerate_factor_origin + accelerate_factor_destination) / 2.0;
                        accelerate_speed_factor = std::lerp(start_speed_ratio, 1.0, accelerate_factor_average);
                    }
                    Ratio decelerate_speed_factor = is_scarf_closure ? end_speed_ratio : 1.0_r;
                    double decelerate_factor_destination = 0.0;
                    if (deceleration_started)
                    {
                        decelerate_factor_destination = 1.0 - (static_cast<double>(wall_length - destination_position) / static_cast<double>(decelerate_length));
                        const double decelerate_factor_average = (decelerate_factor_origin + decelerate_factor_destination) / 2.0;
                        decelerate_speed_factor = std::lerp(1.0, end_speed_ratio, decelerate_factor_average);
                    }
                    const bool travel_to_z = wall_processed_distance == 0;
                    func_add_segment(
                        wall,
                        point_index(actual_point_index - 1),
                        static_cast<float>(segment_processed_distance) / line_length,
                        static_cast<float>(segment_processed_distance + length_to_process) / line_length,
                        split_origin,
                        split_destination,
                        accelerate_speed_factor * decelerate_speed_factor,
                        flow_ratio,
                        line_width_ratio,
                        distance_to_bridge_start.value_or(0),
                        travel_to_z);
                    wall_processed_distance = destination_position;
                    segment_processed_distance += length_to_process;
                    piece_remaining_distance -= length_to_process;
                    split_origin = split_destination;
                    scarf_factor_origin = scarf_factor_destination;
                    accelerate_factor_origin = accelerate_factor_destination;
                    decelerate_factor_origin = decelerate_factor_destination;
                    if (is_scarf_closure)
                    {
                        keep_processing = wall_processed_distance < scarf_seam_length;
                    }
                }
            }
        }
        if (distance_to_bridge_start.has_value() && distance_to_bridge_start.value() > 0)
        {
            if (segment_processed_distance < distance_to_bridge_start.value())
            {
                distance_to_bridge_start.value() -= segment_processed_distance;
            }
            else
            {
                distance_to_bridge_start.reset();
            }
        }
        p0 = p1;
        w0 = w1;
    }
    return { previous_point_index, split_destination.toPoint2LL() };
}
//END
std::vector<LayerPlan::PathCoasting>
//= cura::LayerPlan::calculatePathsCoasting
    LayerPlan::calculatePathsCoasting(const Settings& extruder_settings, const std::vector<GCodePath>& paths, const Point3LL& current_position) const
{
    std::vector<PathCoasting> path_coastings;
    path_coastings.resize(paths.size());
    if (extruder_settings.get<bool>("coasting_enable"))
    {
        const double coasting_volume = extruder_settings.get<double>("coasting_volume");
        const double coasting_min_volume = extruder_settings.get<double>("coasting_min_volume");
        for (const auto& reversed_chunk : paths | ranges::views::enumerate | ranges::views::reverse
                                              | ranges::views::chunk_by(
                                                  [](const auto& path_a, const auto& path_b)
                                                  {
                                                      return (! std::get<1>(path_a).isTravelPath()) || std::get<1>(path_b).isTravelPath();
                                                  }))
        {
            if (reversed_chunk.empty())
            {
                continue;
            }
            const PrintFeatureType type = reversed_chunk.front().second.config.getPrintFeatureType();
            if (type != PrintFeatureType::OuterWall && type != PrintFeatureType::InnerWall)
            {
                continue;
            }
            double accumulated_volume = 0.0;
            bool chunk_coasting_point_reached = false;
            bool chunk_min_volume_reached = false;
            for (const auto& [path_idx, path] : reversed_chunk)
            {
                if (path.isTravelPath())
                {
                    continue;
                }
                PathCoasting& path_coasting = path_coastings[path_idx];
                const double path_extrusion_per_length = path.config.extrusion_mm3_per_mm * path.flow;
                for (const auto& [point_idx, point] : path.points | ranges::views::enumerate | ranges::views::reverse)
                {
                    Point3LL previous_point;
                    if (point_idx > 0)
                    {
                        previous_point = path.points[point_idx - 1];
                    }
                    else if (path_idx > 0)
                    {
                        previous_point = paths[path_idx - 1].points.back();
                    }
                    else
                    {
                        previous_point = current_position;
                    }
                    const double segment_length = INT2MM((point - previous_point).vSize());
                    const double segment_volume = segment_length * path_extrusion_per_length;
                    accumulated_volume += segment_volume;
                    if (! chunk_coasting_point_reached && path_coasting.apply_coasting == ApplyCoasting::NoCoasting)
                    {
                        if (accumulated_volume >= coasting_volume)
                        {
                            const double start_pos_factor = (accumulated_volume - coasting_volume) / segment_volume;
                            Point3LL coasting_start_pos = cura::lerp(previous_point, point, start_pos_factor);
                            path_coasting = { ApplyCoasting::PartialCoasting, point_idx, coasting_start_pos };
                            chunk_coasting_point_reached = true;
                        }
                        else if (point_idx == 0)
                        {
                            path_coasting.apply_coasting = ApplyCoasting::CoastEntirePath;
                        }
                    }
                    if (accumulated_volume >= coasting_min_volume)
                    {
                        chunk_min_volume_reached = true;
                    }
                    if (chunk_min_volume_reached && chunk_coasting_point_reached)
                    {
                        break;
                    }
                }
                if (chunk_min_volume_reached && chunk_coasting_point_reached)
                {
                    break;
                }
            }
            if (! chunk_min_volume_reached)
            {
                for (const auto& [path_idx, path] : reversed_chunk)
                {
                    path_coastings[path_idx].apply_coasting = ApplyCoasting::NoCoasting;
                }
            }
        }
    }
    return path_coastings;
}
//END
//= cura::LayerPlan::addWallWithScarfSeam
template<class PathType>
std::tuple<size_t, Point2LL> LayerPlan::addWallWithScarfSeam(
    const PathAdapter<PathType>& wall,
    size_t start_idx,
    const Settings& settings,
    const GCodePathConfig& default_config,
    const double flow_ratio,
    const ForceRetract force_retract,
    const bool is_closed,
    const bool is_reversed,
    const bool is_candidate_small_feature,
    const bool scarf_seam,
    const bool smooth_speed,
    const AddExtrusionSegmentFunction<PathType>& func_add_segment)
{
    if (wall.empty())
    {
        return { start_idx, Point2LL() };
    }
    const bool actual_scarf_seam = scarf_seam && is_closed && layer_nr_ > 0;
    const coord_t min_bridge_line_len = settings.get<coord_t>("bridge_wall_min_length");
    const coord_t nominal_line_width = default_config.getLineWidth();
    const coord_t wall_length = wall.length();
    const coord_t small_feature_max_length = settings.get<coord_t>("small_feature_max_length");
    const bool is_small_feature = (small_feature_max_length > 0) && (layer_nr_ == 0 || is_candidate_small_feature) && wall_length < small_feature_max_length;
    const Velocity min_speed = fan_speed_layer_time_settings_per_extruder_[getLastPlannedExtruderTrain()->extruder_nr_].cool_min_speed;
    Ratio small_feature_speed_factor = settings.get<Ratio>((layer_nr_ == 0) ? "small_feature_speed_factor_0" : "small_feature_speed_factor");
    small_feature_speed_factor = std::max(static_cast<double>(small_feature_speed_factor), static_cast<double>(min_speed / default_config.getSpeed()));
    const coord_t max_area_deviation = std::max(settings.get<int>("meshfix_maximum_extrusion_area_deviation"), 1);
    const auto max_resolution = std::max(settings.get<coord_t>("meshfix_maximum_resolution"), coord_t(1));
    const int direction = is_reversed ? -1 : 1;
    const size_t max_index = is_closed ? wall.size() + 1 : wall.size();
    const coord_t scarf_seam_length = std::min(wall_length, actual_scarf_seam ? settings.get<coord_t>("scarf_joint_seam_length") : 0);
    const auto scarf_seam_start_ratio = actual_scarf_seam ? settings.get<Ratio>("scarf_joint_seam_start_height_ratio") : 1.0_r;
    const auto scarf_split_distance = settings.get<coord_t>("scarf_split_distance");
    const coord_t scarf_max_z_offset = static_cast<coord_t>(-(1.0 - scarf_seam_start_ratio) * static_cast<double>(layer_thickness_));
    const Velocity top_speed = default_config.getSpeed();
    const coord_t speed_split_distance = settings.get<coord_t>("wall_0_speed_split_distance");
    const Ratio start_speed_ratio = smooth_speed ? settings.get<Ratio>("wall_0_start_speed_ratio") : 1.0_r;
    const int acceleration = settings.get<int>("wall_0_acceleration");
    const Velocity start_speed = top_speed * start_speed_ratio;
    const coord_t accelerate_length = (smooth_speed && start_speed_ratio < 1.0) ? MM2INT((square(top_speed) - square(start_speed)) / (2.0 * acceleration)) : 0;
    const Ratio end_speed_ratio = smooth_speed ? settings.get<Ratio>("wall_0_end_speed_ratio") : 1.0_r;
    const int deceleration = settings.get<int>("wall_0_deceleration");
    const Velocity end_speed = top_speed * end_speed_ratio;
    const coord_t decelerate_length = (smooth_speed && end_speed_ratio < 1.0) ? MM2INT((square(top_speed) - square(end_speed)) / (2.0 * deceleration)) : 0;
    auto addSplitWallPass = [&](bool is_scarf_closure) -> std::tuple<size_t, Point2LL>
    {
        constexpr bool compute_distance_to_bridge_start = true;
        return addSplitWall<PathType>(
            PathAdapter(wall),
            wall_length,
            start_idx,
            max_index,
            direction,
            default_config,
            force_retract,
            is_small_feature,
            small_feature_speed_factor,
            max_area_deviation,
            max_resolution,
            flow_ratio,
            nominal_line_width,
            min_bridge_line_len,
            scarf_seam_length,
            scarf_seam_start_ratio,
            scarf_split_distance,
            scarf_max_z_offset,
            speed_split_distance,
            start_speed_ratio,
            accelerate_length,
            end_speed_ratio,
            decelerate_length,
            is_scarf_closure,
            compute_distance_to_bridge_start,
            func_add_segment);
    };
    std::tuple<size_t, Point2LL> result = addSplitWallPass(false);
    if (scarf_seam_length > 0)
    {
        result = addSplitWallPass(true);
    }
    return result;
}
//END
//= cura::LayerPlan::addWall
void LayerPlan::addWall(
    const ExtrusionLine& wall,
    size_t start_idx,
    const Settings& settings,
    const GCodePathConfig& default_config,
    const GCodePathConfig& roofing_config,
    const GCodePathConfig& flooring_config,
    const GCodePathConfig& bridge_config,
    coord_t wall_0_wipe_dist,
    const double flow_ratio,
    const ForceRetract force_retract,
    const bool is_closed,
    const bool is_reversed,
    const bool is_linked_path,
    const bool scarf_seam,
    const bool smooth_speed)
{
    if (wall.empty())
    {
        return;
    }
    double non_bridge_line_volume = max_non_bridge_line_volume;
    const coord_t min_bridge_line_len = settings.get<coord_t>("bridge_wall_min_length");
    const PathAdapter path_adapter(wall);
    const std::tuple<size_t, Point2LL> add_wall_result = addWallWithScarfSeam<ExtrusionLine>(
        path_adapter,
        start_idx,
        settings,
        default_config,
        flow_ratio,
        force_retract,
        is_closed,
        is_reversed,
        wall.inset_idx_ == 0,
        scarf_seam,
        smooth_speed,
        [&](const PathAdapter<ExtrusionLine>& wall,
            const size_t segment_index,
            const Ratio& segment_start_ratio,
            const Ratio& segment_end_ratio,
            const Point3LL& start,
            const Point3LL& end,
            const Ratio& speed_factor,
            const Ratio& actual_flow_ratio,
            const Ratio& line_width_ratio,
            const coord_t distance_to_bridge_start,
            const bool travel_to_z)
        {
            addWallLine(
                wall,
                segment_index,
                segment_start_ratio,
                segment_end_ratio,
                start,
                end,
                settings,
                default_config,
                roofing_config,
                flooring_config,
                bridge_config,
                actual_flow_ratio,
                line_width_ratio,
                non_bridge_line_volume,
                speed_factor,
                distance_to_bridge_start,
                travel_to_z);
        });
    if (wall.size() >= 2)
    {
        if (! is_linked_path)
        {
            addWipeTravel(path_adapter, wall_0_wipe_dist, is_reversed, get<0>(add_wall_result), get<1>(add_wall_result));
        }
    }
    else
    {
        spdlog::warn("Point added as wall sequence! (LayerPlan)");
    }
}
//END
//= cura::LayerPlan::addLinesByOptimizer
template<class LineType>
void LayerPlan::addLinesByOptimizer(
    const LinesSet<LineType>& lines,
    const GCodePathConfig& config,
    const SpaceFillType space_fill_type,
    const bool enable_travel_optimization,
    const coord_t wipe_dist,
    const Ratio flow_ratio,
    const std::optional<Point2LL> near_start_location,
    const double fan_speed,
    const bool reverse_print_direction,
    const std::unordered_multimap<const Polyline*, const Polyline*>& order_requirements,
    const coord_t extra_inwards_start_move_length,
    const coord_t extra_inwards_end_move_length,
    const MendedShape& extra_inwards_move_contour)
{
    Shape boundary;
    if (enable_travel_optimization && ! comb_boundary_minimum_.empty())
    {
        int dist = 0;
        if (layer_nr_ >= 0)
        {
            for (const std::shared_ptr<SliceMeshStorage>& mesh : storage_.meshes)
            {
                const coord_t overlap = std::max(mesh->settings.get<coord_t>("skin_overlap_mm"), mesh->settings.get<coord_t>("infill_overlap_mm"));
                if (overlap > dist)
                {
                    dist = overlap;
                }
            }
            dist += 100;
        }
        boundary.push_back(comb_boundary_minimum_.offset(dist));
        boundary = Simplify(MM2INT(0.1), MM2INT(0.1), 0).polygon(boundary);
    }
    constexpr bool detect_loops = true;
    PathOrderOptimizer<const Polyline*> order_optimizer(
        near_start_location.value_or(getLastPlannedPositionOrStartingPosition()),
        ZSeamConfig(),
        detect_loops,
        &boundary,
        reverse_print_direction,
        order_requirements);
    if constexpr (std::is_same<LineType, OpenPolyline>::value)
    {
        for (const OpenPolyline& polyline : lines)
        {
            order_optimizer.addPolyline(&polyline);
        }
    }
    if constexpr (std::is_same<LineType, ClosedPolyline>::value)
    {
        for (const ClosedPolyline& polyline : lines)
        {
            order_optimizer.addPolygon(&polyline);
        }
    }
    order_optimizer.optimize();
    addLinesInGivenOrder(
        order_optimizer.paths_,
        config,
        space_fill_type,
        wipe_dist,
        flow_ratio,
        fan_speed,
        extra_inwards_start_move_length,
        extra_inwards_end_move_length,
        extra_inwards_move_contour);
}
//END
//= cura::LayerPlan::addLinesInGivenOrder
void LayerPlan::addLinesInGivenOrder(
    const std::vector<PathOrdering<const Polyline*>>& lines,
    const GCodePathConfig& config,
    const SpaceFillType space_fill_type,
    const coord_t wipe_dist,
    const Ratio flow_ratio,
    const double fan_speed,
    const coord_t extra_inwards_start_move_length,
    const coord_t extra_inwards_end_move_length,
    const MendedShape& extra_inwards_move_contour)
{
    const coord_t half_line_width = config.getLineWidth() / 2;
    const coord_t line_width_2 = half_line_width * half_line_width;
    std::unique_ptr<const SkeletalTrapezoidation> trapezoidation;
    if (extra_inwards_start_move_length > 0 || extra_inwards_end_move_length > 0)
    {
        const BeadingStrategyPtr beading_strategy = BeadingStrategyFactory::makeStrategy();
        constexpr coord_t discretization_step_size = MM2INT(0.8);
        trapezoidation = std::make_unique<SkeletalTrapezoidation>(extra_inwards_move_contour, *beading_strategy, 0.0, discretization_step_size, 0, 0, 0, 0, SectionType::INFILL);
    }
    for (size_t order_idx = 0; order_idx < lines.size(); order_idx++)
    {
        const PathOrdering<const Polyline*>& path = lines[order_idx];
        const Polyline& raw_polyline = *path.vertices_;
        if (! raw_polyline.isValid())
        {
            continue;
        }
        size_t start_idx = path.start_vertex_;
        assert(start_idx == 0 || start_idx == raw_polyline.size() - 1 || path.is_closed_);
        Point2LL start = raw_polyline[start_idx];
        std::shared_ptr<Polyline> expanded_polyline;
        const Polyline* polyline = &raw_polyline;
        if (extra_inwards_start_move_length > 0 || extra_inwards_end_move_length > 0)
        {
            OpenPolyline start_inwards_move
                = extra_inwards_start_move_length > 0 ? makeInwardsMove(trapezoidation->graph_.edges_, start, extra_inwards_start_move_length) : OpenPolyline();
            const Point2LL& end = raw_polyline[path.is_closed_ ? start_idx : (start_idx == 0 ? raw_polyline.size() - 1 : 0)];
            OpenPolyline end_inwards_move;
            if (extra_inwards_end_move_length == extra_inwards_start_move_length && end == start)
            {
                end_inwards_move = start_inwards_move;
            }
            else if (extra_inwards_end_move_length > 0)
            {
                end_inwards_move = makeInwardsMove(trapezoidation->graph_.edges_, end, extra_inwards_end_move_length);
            }
            expanded_polyline = std::make_shared<OpenPolyline>();
            expanded_polyline->reserve(raw_polyline.size() + 2 * start_inwards_move.size());
            if (path.is_closed_)
            {
                start_inwards_move.reverse();
                expanded_polyline->push_back(raw_polyline.begin(), raw_polyline.begin() + start_idx);
                expanded_polyline->push_back(end_inwards_move);
                expanded_polyline->push_back(start_inwards_move);
                expanded_polyline->push_back(raw_polyline.begin() + start_idx, raw_polyline.end());
                start_idx += end_inwards_move.size();
            }
            else
            {
                if (start_idx == 0)
                {
                    start_inwards_move.reverse();
                    expanded_polyline->push_back(start_inwards_move);
                    expanded_polyline->push_back(raw_polyline);
                    expanded_polyline->push_back(end_inwards_move);
                }
                else
                {
                    end_inwards_move.reverse();
                    expanded_polyline->push_back(end_inwards_move);
                    expanded_polyline->push_back(raw_polyline);
                    expanded_polyline->push_back(start_inwards_move);
                    start_idx = expanded_polyline->size() - 1;
                }
            }
            polyline = expanded_polyline.get();
            start = polyline->at(start_idx);
        }
        if (vSize2(getLastPlannedPositionOrStartingPosition() - start) < line_width_2)
        {
            constexpr Ratio flow = 0.0_r;
            constexpr Ratio width_factor = 1.0_r;
            constexpr bool spiralize = false;
            constexpr Ratio speed_factor = 1.0_r;
            addExtrusionMove(start, config, space_fill_type, flow, width_factor, spiralize, speed_factor, fan_speed);
        }
        else
        {
            if (config.z_offset != 0)
            {
                addTravel(getLastPlannedPositionOrStartingPosition());
            }
            addTravel(start);
        }
        Point2LL p0 = start;
        for (size_t idx = 0; idx < polyline->size(); idx++)
        {
            size_t point_idx;
            if (path.is_closed_)
            {
                point_idx = (start_idx + idx + 1) % polyline->size();
            }
            else if (start_idx == 0)
            {
                point_idx = idx;
            }
            else
            {
                assert(start_idx == polyline->size() - 1);
                point_idx = start_idx - idx;
            }
            Point2LL p1 = polyline->at(point_idx);
            if (vSize2(p1 - p0) >= MINIMUM_SQUARED_LINE_LENGTH)
            {
                constexpr Ratio width_factor = 1.0_r;
                constexpr bool spiralize = false;
                constexpr Ratio speed_factor = 1.0_r;
                addExtrusionMove(p1, config, space_fill_type, flow_ratio, width_factor, spiralize, speed_factor, fan_speed);
                p0 = p1;
            }
        }
        Point2LL p1 = polyline->at((start_idx == 0) ? polyline->size() - 1 : 0);
        p0 = (polyline->size() <= 1) ? p1 : polyline->at((start_idx == 0) ? polyline->size() - 2 : 1);
        if (wipe_dist != 0)
        {
            bool wipe = true;
            int line_width = config.getLineWidth();
            if (polyline->length() <= line_width * 2)
            {
                wipe = false;
            }
            if (wipe && (order_idx < lines.size() - 1))
            {
                const PathOrdering<const Polyline*>& next_path = lines[order_idx + 1];
                const Polyline& next_polygon = *next_path.vertices_;
                const size_t next_start = next_path.start_vertex_;
                const Point2LL& next_p0 = next_polygon[next_start];
                if (vSize2(next_p0 - p1) <= line_width * line_width * 4)
                {
                    wipe = false;
                }
            }
            if (wipe)
            {
                constexpr Ratio flow = 0.0_r;
                constexpr Ratio width_factor = 1.0_r;
                constexpr bool spiralize = false;
                constexpr Ratio speed_factor = 1.0_r;
                addExtrusionMove(p1 + normal(p1 - p0, wipe_dist), config, space_fill_type, flow, width_factor, spiralize, speed_factor, fan_speed);
            }
        }
    }
}
//END
//= cura::LayerPlan::writeGCode
void LayerPlan::writeGCode(GCodeExport& gcode)
{
    auto communication = Application::getInstance().communication_;
    communication->setLayerForSend(layer_nr_);
    communication->sendCurrentPosition(gcode.getPosition());
    gcode.setLayerNr(layer_nr_);
    gcode.writeLayerComment(layer_nr_);
    if (min_layer_time_used)
    {
        gcode.writeComment("note -- min layer time used");
    }
    const Settings& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    gcode.setFlowRateExtrusionSettings(
        mesh_group_settings.get<double>("flow_rate_max_extrusion_offset"),
        mesh_group_settings.get<Ratio>("flow_rate_extrusion_offset_factor"));
    const LayerIndex layer_1{ 1 - static_cast<LayerIndex>(Raft::getTotalExtraLayers()) };
    if (layer_nr_ == layer_1 && mesh_group_settings.get<bool>("machine_heated_bed"))
    {
        constexpr bool wait = false;
        gcode.writeBedTemperatureCommand(mesh_group_settings.get<Temperature>("material_bed_temperature"), wait);
    }
    if (mesh_group_settings.get<size_t>("build_volume_fan_nr") != 0)
    {
        if (layer_nr_ == mesh_group_settings.get<size_t>("build_fan_full_layer"))
        {
            const auto fan_speed = mesh_group_settings.get<Ratio>("build_volume_fan_speed") * 100.0;
            gcode.writeSpecificFanCommand(fan_speed, mesh_group_settings.get<size_t>("build_volume_fan_nr"));
        }
    }
    gcode.setZ(z_);
    std::optional<GCodePathConfig> last_extrusion_config = std::nullopt;
    size_t extruder_nr = gcode.getExtruderNr();
    const bool acceleration_enabled = mesh_group_settings.get<bool>("acceleration_enabled");
    const bool acceleration_travel_enabled = mesh_group_settings.get<bool>("acceleration_travel_enabled");
    const bool jerk_enabled = mesh_group_settings.get<bool>("jerk_enabled");
    const bool jerk_travel_enabled = mesh_group_settings.get<bool>("jerk_travel_enabled");
    std::shared_ptr<const SliceMeshStorage> current_mesh;
    for (size_t extruder_plan_idx = 0; extruder_plan_idx < extruder_plans_.size(); extruder_plan_idx++)
    {
        ExtruderPlan& extruder_plan = extruder_plans_[extruder_plan_idx];
        auto get_retraction_config = [&extruder_nr, this](std::shared_ptr<const SliceMeshStorage>& mesh) -> std::optional<const RetractionAndWipeConfig*>
        {
            if (mesh)
            {
                if (extruder_nr == mesh->settings.get<size_t>("extruder_nr")) [[likely]]
                {
                    return &mesh->retraction_wipe_config;
                }
                return &storage_.retraction_wipe_config_per_extruder[extruder_nr];
            }
            return std::nullopt;
        };
        const RetractionAndWipeConfig* retraction_config = get_retraction_config(current_mesh).value_or(&storage_.retraction_wipe_config_per_extruder[extruder_plan.extruder_nr_]);
        coord_t z_hop_height = retraction_config->retraction_config.zHop;
        if (extruder_nr != extruder_plan.extruder_nr_)
        {
            int prev_extruder = extruder_nr;
            extruder_nr = extruder_plan.extruder_nr_;
            gcode.ResetLastEValueAfterWipe(prev_extruder);
            gcode.writePrepareFansForNozzleSwitch();
            const RetractionAndWipeConfig& prev_retraction_config = storage_.retraction_wipe_config_per_extruder[prev_extruder];
            if (prev_retraction_config.retraction_hop_after_extruder_switch)
            {
                z_hop_height = prev_retraction_config.extruder_switch_retraction_config.zHop;
                gcode.switchExtruder(extruder_nr, prev_retraction_config.extruder_switch_retraction_config, z_hop_height);
            }
            else
            {
                gcode.switchExtruder(extruder_nr, prev_retraction_config.extruder_switch_retraction_config);
            }
            {
                constexpr bool wait = true;
                gcode.writeTemperatureCommand(extruder_nr, extruder_plan.required_start_temperature_, wait);
            }
            if (extruder_plan.prev_extruder_standby_temp_)
            {
                constexpr bool wait = false;
                Temperature prev_extruder_temp = *extruder_plan.prev_extruder_standby_temp_;
                const LayerIndex prev_layer_nr = (extruder_plan_idx == 0) ? layer_nr_ - 1 : layer_nr_;
                if (prev_layer_nr == storage_.max_print_height_per_extruder[prev_extruder])
                {
                    prev_extruder_temp = 0;
                }
                gcode.writeTemperatureCommand(prev_extruder, prev_extruder_temp, wait);
            }
            {
                constexpr bool wait = true;
                gcode.writeTemperatureCommand(extruder_nr, extruder_plan.required_start_temperature_, wait);
            }
            const double extra_prime_amount = retraction_config->retraction_config.distance ? retraction_config->switch_extruder_extra_prime_amount : 0;
            gcode.addExtraPrimeAmount(extra_prime_amount);
        }
        else if (extruder_plan_idx == 0)
        {
            const WipeScriptConfig& wipe_config = storage_.retraction_wipe_config_per_extruder[extruder_plan.extruder_nr_].wipe_config;
            if (wipe_config.clean_between_layers && gcode.getExtrudedVolumeAfterLastWipe(extruder_nr) > wipe_config.max_extrusion_mm3)
            {
                gcode.insertWipeScript(wipe_config);
                gcode.ResetLastEValueAfterWipe(extruder_nr);
            }
            else if (layer_nr_ != 0 && Application::getInstance().current_slice_->scene.extruders[extruder_nr].settings_.get<bool>("retract_at_layer_change"))
            {
                if (! mesh_group_settings.get<bool>("magic_spiralize"))
                {
                    gcode.writeRetraction(retraction_config->retraction_config);
                }
            }
        }
        if (! extruder_plan.paths_.empty() && extruder_plan.paths_.front().fan_speed == -1)
        {
            gcode.writePrepareFansForExtrusion(extruder_plan.getFanSpeed());
        }
        std::vector<GCodePath>& paths = extruder_plan.paths_;
        extruder_plan.inserts_.sort();
        const ExtruderTrain& extruder = Application::getInstance().current_slice_->scene.extruders[extruder_nr];
        bool update_extrusion_offset = true;
        double cumulative_path_time = 0.;
        const std::function<void(const double, const int64_t)> insertTempOnTime = [&](const double to_add, const int64_t path_idx)
        {
            cumulative_path_time += to_add;
            extruder_plan.handleInserts(path_idx, gcode, cumulative_path_time);
        };
        const std::vector<PathCoasting> coasting_per_path = calculatePathsCoasting(extruder.settings_, paths, gcode.getPosition());
        for (size_t path_idx = 0; path_idx < paths.size(); path_idx++)
        {
            extruder_plan.handleInserts(path_idx, gcode, cumulative_path_time);
            cumulative_path_time = 0.;
            GCodePath& path = paths[path_idx];
            assert(! path.points.empty());
            if (! path.isTravelPath() || path.fan_speed >= 0)
            {
                const double path_fan_speed = path.getFanSpeed();
                gcode.writeFanCommand(path_fan_speed != GCodePathConfig::FAN_SPEED_DEFAULT ? path_fan_speed : extruder_plan.getFanSpeed());
            }
            if (path.perform_prime)
            {
                gcode.writePrimeTrain(extruder.settings_.get<Velocity>("speed_travel"));
                gcode.writeRetraction(retraction_config->retraction_config);
            }
            if (z_ > 0)
            {
                gcode.setZ(z_ + path.z_offset);
            }
            if (! path.retract && path.config.isTravelPath() && path.points.size() == 1 && path.points[0] == gcode.getPositionXY() && (z_ + path.z_offset) == gcode.getPositionZ())
            {
                continue;
            }
            size_t next_extrusion_idx = path_idx + 1;
            if ((acceleration_enabled && ! acceleration_travel_enabled) || (jerk_enabled && ! jerk_travel_enabled))
            {
                while (next_extrusion_idx < paths.size() && paths[next_extrusion_idx].config.isTravelPath())
                {
                    ++next_extrusion_idx;
                }
            }
            if (acceleration_enabled)
            {
                if (path.config.isTravelPath())
                {
                    if (acceleration_travel_enabled)
                    {
                        gcode.writeTravelAcceleration(path.config.getAcceleration());
                    }
                    else
                    {
                        if (next_extrusion_idx >= paths.size())
                        {
                            if (static_cast<bool>(next_layer_acc_jerk_))
                            {
                                gcode.writeTravelAcceleration(next_layer_acc_jerk_->first);
                            }
                        }
                        else
                        {
                            gcode.writeTravelAcceleration(paths[next_extrusion_idx].config.getAcceleration());
                        }
                    }
                }
                else
                {
                    gcode.writePrintAcceleration(path.config.getAcceleration());
                }
            }
            if (jerk_enabled)
            {
                if (jerk_travel_enabled)
                {
                    gcode.writeJerk(path.config.getJerk());
                }
                else
                {
                    if (next_extrusion_idx >= paths.size())
                    {
                        if (static_cast<bool>(next_layer_acc_jerk_))
                        {
                            gcode.writeJerk(next_layer_acc_jerk_->second);
                        }
                    }
                    else
                    {
                        gcode.writeJerk(paths[next_extrusion_idx].config.getJerk());
                    }
                }
            }
            std::optional<TravelAntiOozing> retraction_amounts;
            std::optional<TravelAntiOozing> priming_amounts;
            if (path.retract)
            {
                retraction_config = get_retraction_config(path.mesh).value_or(retraction_config);
                if (! path.retract_for_nozzle_switch)
                {
                    computeAntiOozeAmounts(gcode, extruder, path, z_hop_height, retraction_config, retraction_amounts, priming_amounts);
                }
                if (retraction_amounts.has_value() && retraction_amounts.value().segment_split_position.X == 352000)
                {
                    spdlog::debug("coucou");
                    retraction_amounts.value().segment_split_position.X = 352000;
                }
                if (! gcode.writeRetraction(
                        retraction_config->retraction_config,
                        false,
                        false,
                        retraction_amounts.has_value() ? std::make_optional(retraction_amounts->amount_while_still) : std::nullopt))
                {
                    retraction_amounts.reset();
                    priming_amounts.reset();
                }
                if (path.retract_for_nozzle_switch)
                {
                    constexpr bool force = true;
                    constexpr bool extruder_switch = true;
                    gcode.writeRetraction(retraction_config->extruder_switch_retraction_config, force, extruder_switch);
                }
                insertTempOnTime(extruder_plan.getRetractTime(path), path_idx);
                if (path.perform_z_hop)
                {
                    gcode.writeZhopStart(
                        z_hop_height,
                        0.0,
                        retraction_amounts.has_value() ? std::make_optional(retraction_amounts->z_hop.amount) : std::nullopt,
                        retraction_amounts.has_value() ? retraction_amounts->z_hop.ratio : 0.0_r);
                    z_hop_height = retraction_config->retraction_config.zHop;
                }
                else
                {
                    gcode.writeZhopEnd();
                    if (z_ > 0 && path.z_offset != 0)
                    {
                        gcode.setZ(z_ + path.z_offset);
                    }
                }
            }
            const auto& extruder_changed = ! last_extrusion_config.has_value() || (last_extrusion_config.value().type != path.config.type);
            if (! path.config.isTravelPath() && extruder_changed)
            {
                gcode.writeTypeComment(path.config.type);
                if (path.config.isBridgePath())
                {
                    gcode.writeComment("BRIDGE");
                }
                last_extrusion_config = path.config;
                update_extrusion_offset = true;
            }
            else
            {
                update_extrusion_offset = false;
            }
            double speed = path.config.getSpeed();
            speed *= path.speed_factor;
            if (path.mesh != current_mesh)
            {
                current_mesh = path.mesh;
                std::stringstream ss;
                ss << "MESH:" << (current_mesh ? current_mesh->mesh_name : "NONMESH");
                gcode.writeComment(ss.str());
            }
            if (! path.spiralize && path.travel_to_z && (! path.retract || ! path.perform_z_hop) && (z_ + path.z_offset + path.points.front().z_ != gcode.getPositionZ())
                && (path_idx > 0 || layer_nr_ > 0))
            {
                gcode.writeTravel(Point3LL(gcode.getPosition().x_, gcode.getPosition().y_, z_ + path.z_offset + path.points.front().z_), speed);
            }
            if (path.config.isTravelPath())
            {
                if (! path.perform_z_hop && final_travel_z_ != z_ && extruder_plan_idx == (extruder_plans_.size() - 1) && path_idx == (paths.size() - 1))
                {
                    Point3LL current_position = gcode.getPosition();
                    current_position.z_ = final_travel_z_;
                    gcode.writeTravel(current_position, extruder.settings_.get<Velocity>("speed_z_hop"));
                    path.z_offset = final_travel_z_ - z_;
                    gcode.setZ(final_travel_z_);
                }
                auto travel_retraction_state = TravelRetractionState::None;
                if (retraction_amounts.has_value() && retraction_amounts->amount_while_travel > 0.0)
                {
                    travel_retraction_state = TravelRetractionState::Retracting;
                }
                const auto write_travel_segment = [this, &travel_retraction_state, &gcode, &path, &retraction_amounts, &priming_amounts, &speed](const size_t point_index) -> void
                {
                    writeTravelSegment(travel_retraction_state, gcode, path, retraction_amounts, priming_amounts, speed, point_index);
                };
                for (size_t point_idx = 0; point_idx + 1 < path.points.size(); point_idx++)
                {
                    write_travel_segment(point_idx);
                }
                if (path.unretract_before_last_travel_move && final_travel_z_ == z_)
                {
                    gcode.writeUnretractionAndPrime();
                }
                if (! path.points.empty())
                {
                    write_travel_segment(path.points.size() - 1);
                }
                if (priming_amounts.has_value() && priming_amounts->z_hop.amount > 0.0)
                {
                    gcode.setZHopPrimeLeftover(ZHopAntiOozing{ priming_amounts->amount_while_still, priming_amounts->z_hop.ratio });
                }
                continue;
            }
            bool spiralize = path.spiralize;
            if (! spiralize)
            {
                bool coasting = extruder.settings_.get<bool>("coasting_enable");
                if (coasting)
                {
                    coasting = writePathWithCoasting(gcode, extruder_plan_idx, path_idx, insertTempOnTime, coasting_per_path[path_idx]);
                }
                if (! coasting)
                {
                    Point3LL prev_point = gcode.getPosition();
                    for (const auto& pt : path.points)
                    {
                        const auto [_, time] = extruder_plan.getPointToPointTime(prev_point, pt, path);
                        insertTempOnTime(time, path_idx);
                        const double extrude_speed = speed * path.speed_back_pressure_factor;
                        writeExtrusionRelativeZ(gcode, pt, extrude_speed, path.z_offset, path.getExtrusionMM3perMM(), path.config.type, update_extrusion_offset);
                        sendLineTo(path, pt, extrude_speed);
                        prev_point = pt;
                    }
                }
            }
            else
            {
                double totalLength = 0.0;
                Point2LL p0 = gcode.getPositionXY();
                for (unsigned int _path_idx = path_idx; _path_idx < paths.size() && ! paths[_path_idx].isTravelPath(); _path_idx++)
                {
                    GCodePath& _path = paths[_path_idx];
                    for (unsigned int point_idx = 0; point_idx < _path.points.size(); point_idx++)
                    {
                        Point2LL p1 = _path.points[point_idx].toPoint2LL();
                        totalLength += vSizeMM(p0 - p1);
                        p0 = p1;
                    }
                }
                double length = 0.0;
                p0 = gcode.getPositionXY();
                const auto writeSpiralPath = [&](const GCodePath& spiral_path, const bool end_layer) -> void
                {
                    for (const auto& p1 : spiral_path.points)
                    {
                        const Point2LL p1_2d = p1.toPoint2LL();
                        length += vSizeMM(p0 - p1_2d);
                        p0 = p1_2d;
                        const coord_t z_offset = end_layer ? layer_thickness_ / 2 : std::round(layer_thickness_ * length / totalLength);
                        const double extrude_speed = speed * spiral_path.speed_back_pressure_factor;
                        writeExtrusionRelativeZ(
                            gcode,
                            p1,
                            extrude_speed,
                            path.z_offset + z_offset,
                            spiral_path.getExtrusionMM3perMM(),
                            spiral_path.config.type,
                            update_extrusion_offset);
                        sendLineTo(spiral_path, Point3LL(p1.x_, p1.y_, z_offset), extrude_speed, layer_thickness_);
                    }
                };
                for (; path_idx < paths.size() && paths[path_idx].spiralize; path_idx++)
                {
                    constexpr bool not_end_layer = false;
                    writeSpiralPath(paths[path_idx], not_end_layer);
                }
                if (path_idx < paths.size())
                {
                    constexpr bool end_layer = true;
                    for (; path_idx < paths.size(); path_idx++)
                    {
                        writeSpiralPath(paths[path_idx], end_layer);
                    }
                    break;
                }
                path_idx--;
            }
        }
        if (extruder.settings_.get<bool>("cool_lift_head") && extruder_plan.extra_time_ > 0.0)
        {
            gcode.writeComment("Small layer, adding delay");
            const RetractionAndWipeConfig& actual_retraction_config
                = current_mesh ? current_mesh->retraction_wipe_config : storage_.retraction_wipe_config_per_extruder[gcode.getExtruderNr()];
            gcode.writeRetraction(actual_retraction_config.retraction_config);
            if (extruder_plan_idx == extruder_plans_.size() - 1 || ! extruder.settings_.get<bool>("machine_extruder_end_pos_abs"))
            {
                gcode.writeZhopStart(MM2INT(3.0));
            }
            gcode.writeDelay(extruder_plan.extra_time_);
        }
        extruder_plan.handleAllRemainingInserts(gcode);
        scripta::log(
            "extruder_plan_2",
            extruder_plan.paths_,
            SectionType::NA,
            layer_nr_,
            scripta::CellVDI{ "flow", &GCodePath::flow },
            scripta::CellVDI{ "width_factor", &GCodePath::width_factor },
            scripta::CellVDI{ "spiralize", &GCodePath::spiralize },
            scripta::CellVDI{ "speed_factor", &GCodePath::speed_factor },
            scripta::CellVDI{ "speed_back_pressure_factor", &GCodePath::speed_back_pressure_factor },
            scripta::CellVDI{ "retract", &GCodePath::retract },
            scripta::CellVDI{ "unretract_before_last_travel_move", &GCodePath::unretract_before_last_travel_move },
            scripta::CellVDI{ "perform_z_hop", &GCodePath::perform_z_hop },
            scripta::CellVDI{ "perform_prime", &GCodePath::perform_prime },
            scripta::CellVDI{ "fan_speed", &GCodePath::getFanSpeed },
            scripta::CellVDI{ "is_travel_path", &GCodePath::isTravelPath },
            scripta::CellVDI{ "extrusion_mm3_per_mm", &GCodePath::getExtrusionMM3perMM });
    }
    communication->sendLayerComplete(layer_nr_, z_, layer_thickness_);
    gcode.updateTotalPrintTime();
}
//END
template void LayerPlan::addLinesByOptimizer(
    const LinesSet<OpenPolyline>& lines,
    const GCodePathConfig& config,
    const SpaceFillType space_fill_type,
    const bool enable_travel_optimization,
    const coord_t wipe_dist,
    const Ratio flow_ratio,
    const std::optional<Point2LL> near_start_location,
    const double fan_speed,
    const bool reverse_print_direction,
    const std::unordered_multimap<const Polyline*, const Polyline*>& order_requirements,
    const coord_t extra_inwards_start_move_length,
    const coord_t extra_inwards_end_move_length,
    const MendedShape& extra_inwards_move_contour);
template void LayerPlan::addLinesByOptimizer(
    const LinesSet<ClosedPolyline>& lines,
    const GCodePathConfig& config,
    const SpaceFillType space_fill_type,
    const bool enable_travel_optimization,
    const coord_t wipe_dist,
    const Ratio flow_ratio,
    const std::optional<Point2LL> near_start_location,
    const double fan_speed,
    const bool reverse_print_direction,
    const std::unordered_multimap<const Polyline*, const Polyline*>& order_requirements,
    const coord_t extra_inwards_start_move_length,
    const coord_t extra_inwards_end_move_length,
    const MendedShape& extra_inwards_move_contour);
}
