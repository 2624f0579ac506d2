// Layer plans.
#include <algorithm>
#include <array>
#include <unordered_set>
#include <unordered_map>
#include <set>
#include <map>
#include <list>
#include <vector>
#include <deque>
#include <memory>
#include <numeric>
#include <optional>
#include <functional>
#include <string>
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "geometry/Polygon.h"
#include "geometry/OpenPolyline.h"
#include "geometry/SingleShape.h"
#include "geometry/MixedLinesSet.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "raft.h"
#include "Application.h"
#include "BeadingStrategy/BeadingStrategyFactory.h"
#include "ExtruderPlan.h"
#include "ExtruderTrain.h"
#include "FanSpeedLayerTime.h"
#include "FffProcessor.h"
#include "ForceRetract.h"
#include "InsetOrderOptimizer.h"
#include "LayerPlan.h"
#include "LayerPlanBuffer.h"
#include "PathAdapter.h"
#include "PathOrderMonotonic.h"
#include "PathOrderOptimizer.h"
#include "Preheat.h"
#include "PrintInformation.h"
#include "RetractionConfig.h"
#include "Slice.h"
#include "SpaceFillType.h"
#include "TravelAntiOozing.h"
#include "WipeScriptConfig.h"
#include "arachne/SkeletalTrapezoidation.h"
#include "arachne/SkeletalTrapezoidationGraph.h"
#include "bridge/bridge.h"
#include "communication/Communication.h"
#include "gcode_export/gcodeExport.h"
#include "geometry/ClosedLinesSet.h"
#include "geometry/LinesSet.h"
#include "geometry/MendedShape.h"
#include "geometry/OpenPolyline.h"
#include "geometry/Point2LL.h"
#include "geometry/Polygon.h"
#include "geometry/conversions/Point2D_Point2LL.h"
#include "gradual_flow/Processor.h"
#include "pathPlanning/Comb.h"
#include "pathPlanning/CombPaths.h"
#include "pathPlanning/GCodePath.h"
#include "pathPlanning/NozzleTempInsert.h"
#include "pathPlanning/TimeMaterialEstimates.h"
#include "plugins/slots.h"
#include "raft.h"
#include "range/v3/view/chunk_by.hpp"
#include "settings/PathConfigStorage.h"
#include "settings/Settings.h"
#include "settings/types/Duration.h"
#include "settings/types/LayerIndex.h"
#include "settings/types/Ratio.h"
#include "sliceDataStorage.h"
#include "utils/ExtrusionJunction.h"
#include "utils/Simplify.h"
#include "utils/linearAlg2D.h"
#include "utils/math.h"
#include "utils/polygonUtils.h"
#include "utils/section_type.h"
#include <algorithm>
#include <boost/mpl/distance.hpp>
#include <boost/range/distance.hpp>
#include <condition_variable>
#include <cstring>
#include <functional>
#include <gtest/gtest_prod.h> //Friend tests, so that they can inspect the privates.
#include <limits>
#include <list>
#include <memory>
#include <numeric>
#include <optional>
#include <range/v3/algorithm/any_of.hpp>
#include <range/v3/algorithm/find_if.hpp>
#include <range/v3/algorithm/max_element.hpp>
#include <scripta/logger.h>
#include <spdlog/spdlog.h>
#include <vector>
#include "ExtruderPlan.h"
#include "LayerPlan.h"
#include "LayerPlanBuffer.h"
#include "ref.h"

namespace ref
{
using namespace cura;

//= cura::ExtruderPlan::ExtruderPlan
void r1(cura::ExtruderPlan& self, const size_t extruder, const LayerIndex layer_nr, const bool is_initial_layer, const bool is_raft_layer, const coord_t layer_thickness, const FanSpeedLayerTimeSettings& fan_speed_layer_time_settings, const RetractionConfig& retraction_config)
{
        member(self.extruder_nr_) = extruder;
        member(self.layer_nr_) = layer_nr;
        member(self.is_initial_layer_) = is_initial_layer;
        member(self.is_raft_layer_) = is_raft_layer;
        member(self.layer_thickness_) = layer_thickness;
        member(self.fan_speed_layer_time_settings_) = fan_speed_layer_time_settings;
        member(self.retraction_config_) = retraction_config;
}

//= cura::ExtruderPlan::insertCommand
void r2(cura::ExtruderPlan& self, NozzleTempInsert&& insert)
{
    self.inserts_.emplace_back(insert);
}

//= cura::ExtruderPlan::handleInserts
void r3(cura::ExtruderPlan& self, const size_t path_idx, GCodeExport& gcode, const double cumulative_path_time)
{
    while (! self.inserts_.empty())
    {
        const NozzleTempInsert& insert = self.inserts_.front();
        const bool in_future_path = insert.path_idx > path_idx;
        const bool in_current_path_at_future_time = insert.path_idx == path_idx && insert.time_after_path_start > cumulative_path_time;
        if (in_future_path || in_current_path_at_future_time)
        {
            break;
        }
        self.inserts_.front().write(gcode);
        self.inserts_.pop_front();
    }
}

//= cura::ExtruderPlan::handleAllRemainingInserts
void r4(cura::ExtruderPlan& self, GCodeExport& gcode)
{
    while (! self.inserts_.empty())
    { 
        NozzleTempInsert& insert = self.inserts_.front();
        insert.write(gcode);
        self.inserts_.pop_front();
    }
}

//= cura::ExtruderPlan::setFanSpeed
void r5(cura::ExtruderPlan& self, double _fan_speed)
{
    self.fan_speed = _fan_speed;
}

//= cura::ExtruderPlan::getFanSpeed
double r6(cura::ExtruderPlan& self)
{
    return self.fan_speed;
}

//= cura::ExtruderPlan::applyBackPressureCompensation
void r7(cura::ExtruderPlan& self, const Ratio back_pressure_compensation)
{
    constexpr double epsilon_speed_factor = 0.001; 
    for (auto& path : self.paths_)
    {
        const double nominal_width_for_path = static_cast<double>(path.config.getLineWidth());
        if (path.width_factor <= 0.0 || nominal_width_for_path <= 0.0 || path.config.isTravelPath() || path.config.isBridgePath())
        {
            continue;
        }
        const double line_width_for_path = path.width_factor * nominal_width_for_path;
        path.speed_back_pressure_factor = std::max(epsilon_speed_factor, 1.0 + (nominal_width_for_path / line_width_for_path - 1.0) * back_pressure_compensation);
    }
}

//= cura::ExtruderPlan::findFirstPrintedMesh
std::shared_ptr<const SliceMeshStorage> r8(const cura::ExtruderPlan& self)
{
    for (const GCodePath& path : self.paths_)
    {
        if (path.mesh)
        {
            return path.mesh;
        }
    }
    return nullptr;
}

//= cura::ExtruderPlan::hasExtrusion
bool r9(const cura::ExtruderPlan& self)
{
    return ranges::any_of(
        self.paths_,
        [](const GCodePath& path)
        {
            return ! path.isTravelPath() && ! path.points.empty();
        });
}

//= cura::ExtruderPlan::calculateExtrusionBoundingBox
AABB r10(const cura::ExtruderPlan& self)
{
    std::optional<Point2LL> current_position;
    AABB bounding_box;
    for (const GCodePath& gcode_path : self.paths_)
    {
        if (gcode_path.points.empty())
        {
            continue;
        }
        if (! gcode_path.isTravelPath())
        {
            if (current_position.has_value())
            {
                bounding_box.include(current_position.value());
            }
            for (const Point3LL& position : gcode_path.points)
            {
                bounding_box.include(position.toPoint2LL());
            }
        }
        current_position = gcode_path.points.back().toPoint2LL();
    }
    return bounding_box;
}

//= cura::LayerPlan::getLatestPathWithConfig
GCodePath* r11(cura::LayerPlan& self, const GCodePathConfig& config, const SpaceFillType space_fill_type, const coord_t z_offset, const Ratio flow, const Ratio width_factor, const bool spiralize, const Ratio speed_factor, const bool travel_to_z)
{
    std::vector<GCodePath>& paths = self.extruder_plans_.back().paths_;
    if (paths.size() > 0 && paths.back().config == config && ! paths.back().done && paths.back().flow == flow && paths.back().width_factor == width_factor
        && paths.back().speed_factor == speed_factor && paths.back().z_offset == z_offset
        && paths.back().mesh == self.current_mesh_) 
    {
        return &paths.back();
    }
    paths.emplace_back(GCodePath{
        .z_offset = z_offset,
        .config = config,
        .mesh = self.current_mesh_,
        .space_fill_type = space_fill_type,
        .flow = flow,
        .width_factor = width_factor,
        .spiralize = spiralize,
        .speed_factor = speed_factor,
        .travel_to_z = travel_to_z,
    });
    GCodePath* ret = &paths.back();
    return ret;
}

//= cura::LayerPlan::getCombBoundaryInside
const Shape* r12(const cura::LayerPlan& self)
{
    return &self.comb_boundary_preferred_;
}

//= cura::LayerPlan::forceNewPathStart
void r13(cura::LayerPlan& self)
{
    std::vector<GCodePath>& paths = self.extruder_plans_.back().paths_;
    if (paths.size() > 0)
        paths[paths.size() - 1].done = true;
}

//= cura::LayerPlan::getLastPlannedExtruderTrain
ExtruderTrain* r15(cura::LayerPlan& self)
{
    return self.last_planned_extruder_;
}

//= cura::LayerPlan::computeCombBoundary
namespace n16
{
using CombBoundary = cura::LayerPlan::CombBoundary;
Shape r16(cura::LayerPlan& self, const CombBoundary boundary_type)
{
    Shape comb_boundary;
    const CombingMode mesh_combing_mode = Application::getInstance().current_slice_->scene.current_mesh_group->settings.get<CombingMode>("retraction_combing");
    if (mesh_combing_mode != CombingMode::OFF && (self.layer_nr_ >= 0 || mesh_combing_mode != CombingMode::NO_SKIN))
    {
        switch (self.layer_type_)
        {
        case Raft::LayerType::RaftBase:
            comb_boundary = self.storage_.raft_base_outline.offset(MM2INT(0.1));
            break;
        case Raft::LayerType::RaftInterface:
            comb_boundary = self.storage_.raft_interface_outline.offset(MM2INT(0.1));
            break;
        case Raft::LayerType::RaftSurface:
            comb_boundary = self.storage_.raft_surface_outline.offset(MM2INT(0.1));
            break;
        case Raft::LayerType::Airgap:
            break;
        case Raft::LayerType::Model:
            for (const std::shared_ptr<SliceMeshStorage>& mesh_ptr : self.storage_.meshes)
            {
                const auto& mesh = *mesh_ptr;
                const SliceLayer& layer = mesh.layers[static_cast<size_t>(self.layer_nr_)];
                if (! mesh.isModelMesh())
                {
                    continue;
                }
                constexpr coord_t extra_offset = 10; 
                coord_t offset;
                switch (boundary_type)
                {
                case CombBoundary::MINIMUM:
                    offset = -(mesh.settings.get<coord_t>("machine_nozzle_size") / 2 + mesh.settings.get<coord_t>("wall_line_width_0") / 2 + extra_offset);
                    break;
                case CombBoundary::PREFERRED:
                    offset = -(mesh.settings.get<coord_t>("retraction_combing_avoid_distance") + mesh.settings.get<coord_t>("wall_line_width_0") / 2 + extra_offset);
                    break;
                default:
                    offset = 0;
                    break;
                }
                const CombingMode combing_mode = mesh.settings.get<CombingMode>("retraction_combing");
                for (const SliceLayerPart& part : layer.parts)
                {
                    Shape part_combing_boundary;
                    if (combing_mode == CombingMode::INFILL)
                    {
                        part_combing_boundary = part.infill_area;
                    }
                    else
                    {
                        part_combing_boundary = part.outline.offset(10).offset(offset - 10);
                        if (combing_mode == CombingMode::NO_SKIN) 
                        {
                            part_combing_boundary = part_combing_boundary.difference(part.inner_area.difference(part.infill_area));
                        }
                        else if (combing_mode == CombingMode::NO_OUTER_SURFACES)
                        {
                            for (const SliceLayerPart& outer_surface_part : layer.parts)
                            {
                                part_combing_boundary = part_combing_boundary.difference(outer_surface_part.top_most_surface);
                                part_combing_boundary = part_combing_boundary.difference(outer_surface_part.bottom_most_surface);
                            }
                        }
                    }
                    comb_boundary.push_back(part_combing_boundary);
                }
            }
            break;
        }
    }
    return comb_boundary;
}
} // namespace n16

//= cura::LayerPlan::setIsInside
void r17(cura::LayerPlan& self, bool _is_inside)
{
    self.is_inside_ = _is_inside;
}

//= cura::LayerPlan::setExtruder
bool r18(cura::LayerPlan& self, const size_t extruder_nr)
{
    if (extruder_nr == self.getExtruder())
    {
        return false;
    }
    self.setIsInside(false);
    { 
        ExtruderTrain* extruder = self.getLastPlannedExtruderTrain();
        const bool end_pos_absolute = extruder->settings_.get<bool>("machine_extruder_end_pos_abs");
        Point2LL end_pos(extruder->settings_.get<coord_t>("machine_extruder_end_pos_x"), extruder->settings_.get<coord_t>("machine_extruder_end_pos_y"));
        if (! end_pos_absolute)
        {
            end_pos += self.getLastPlannedPositionOrStartingPosition();
        }
        else
        {
            const Point2LL extruder_offset(extruder->settings_.get<coord_t>("machine_nozzle_offset_x"), extruder->settings_.get<coord_t>("machine_nozzle_offset_y"));
            end_pos += extruder_offset; 
        }
        if (end_pos_absolute || self.last_planned_position_)
        {
            GCodePath& path = self.addTravel(end_pos); 
            path.retract_for_nozzle_switch = true;
        }
    }
    if (self.extruder_plans_.back().paths_.empty() && self.extruder_plans_.back().inserts_.empty())
    { 
        self.extruder_plans_.back().extruder_nr_ = extruder_nr;
    }
    const auto is_raft_layer = self.layer_type_ == Raft::LayerType::RaftBase || self.layer_type_ == Raft::LayerType::RaftInterface || self.layer_type_ == Raft::LayerType::RaftSurface;
    self.extruder_plans_.emplace_back(
        extruder_nr,
        self.layer_nr_,
        self.is_initial_layer_,
        is_raft_layer,
        self.layer_thickness_,
        self.fan_speed_layer_time_settings_per_extruder_[extruder_nr],
        self.storage_.retraction_wipe_config_per_extruder[extruder_nr].retraction_config);
    self.last_planned_extruder_ = &Application::getInstance().current_slice_->scene.extruders[extruder_nr];
    { 
        ExtruderTrain* extruder = self.getLastPlannedExtruderTrain();
        const bool start_pos_absolute = extruder->settings_.get<bool>("machine_extruder_start_pos_abs");
        Point3LL start_pos(extruder->settings_.get<coord_t>("machine_extruder_start_pos_x"), extruder->settings_.get<coord_t>("machine_extruder_start_pos_y"), 0);
        if (! start_pos_absolute)
        {
            start_pos += self.getLastPlannedPositionOrStartingPosition();
        }
        else
        {
            Point3LL extruder_offset(extruder->settings_.get<coord_t>("machine_nozzle_offset_x"), extruder->settings_.get<coord_t>("machine_nozzle_offset_y"), 0);
            start_pos += extruder_offset; 
        }
        if (start_pos_absolute || self.last_planned_position_)
        {
            self.last_planned_position_ = start_pos;
        }
    }
    return true;
}

//= cura::LayerPlan::setMesh
void r19(cura::LayerPlan& self, const std::shared_ptr<const SliceMeshStorage>& mesh)
{
    self.current_mesh_ = mesh;
}

//= cura::LayerPlan::moveInsideCombBoundary
void r20(cura::LayerPlan& self, const coord_t distance, const std::optional<SliceLayerPart>& part, GCodePath* path)
{
    constexpr coord_t max_dist2 = MM2INT(2.0) * MM2INT(2.0); 
    Point2LL p = self.getLastPlannedPositionOrStartingPosition(); 
    if (PolygonUtils::moveInside(self.comb_boundary_preferred_, p, distance, max_dist2) != NO_INDEX)
    {
        PolygonUtils::moveInside(self.comb_boundary_preferred_, p, distance, max_dist2);
        if (self.comb_boundary_preferred_.inside(p) && (part == std::nullopt || part->outline.inside(p)))
        {
            self.addTravel_simple(p, path);
            self.forceNewPathStart();
        }
    }
}

//= cura::LayerPlan::getPrimeTowerIsPlanned
bool r21(const cura::LayerPlan& self, size_t extruder_nr)
{
    return self.has_prime_tower_planned_per_extruder_[extruder_nr];
}

//= cura::LayerPlan::setPrimeTowerIsPlanned
void r22(cura::LayerPlan& self, size_t extruder_nr)
{
    self.has_prime_tower_planned_per_extruder_[extruder_nr] = true;
}

//= cura::LayerPlan::getFirstTravelDestinationState
std::optional<std::pair<Point2LL, bool>> r23(const cura::LayerPlan& self)
{
    std::optional<std::pair<Point2LL, bool>> ret;
    if (self.first_travel_destination_)
    {
        ret = std::make_pair(*self.first_travel_destination_, self.first_travel_destination_is_inside_);
    }
    return ret;
}

//= cura::LayerPlan::addTravel_simple
GCodePath& r25(cura::LayerPlan& self, const Point2LL& p, GCodePath* path)
{
    bool is_first_travel_of_layer = ! static_cast<bool>(self.last_planned_position_);
    if (is_first_travel_of_layer)
    { 
        self.first_travel_destination_ = p;
        self.first_travel_destination_is_inside_ = self.is_inside_;
    }
    if (path == nullptr)
    {
        path = self.getLatestPathWithConfig(self.configs_storage_.travel_config_per_extruder[self.getExtruder()], SpaceFillType::None);
    }
    path->points.push_back(p);
    self.last_planned_position_ = p;
    return *path;
}

//= cura::LayerPlan::planPrime
void r26(cura::LayerPlan& self, double prime_blob_wipe_length)
{
    self.forceNewPathStart();
    GCodePath& prime_travel = self.addTravel_simple(self.getLastPlannedPositionOrStartingPosition() + Point2LL(0, MM2INT(prime_blob_wipe_length)));
    prime_travel.retract = false;
    prime_travel.perform_z_hop = false;
    prime_travel.perform_prime = true;
    self.forceNewPathStart();
}

//= cura::LayerPlan::setGeneratedInfillLines
void r27(cura::LayerPlan& self, const SliceMeshStorage* mesh, const MixedLinesSet& infill_lines)
{
    self.infill_lines_[mesh].push_back(infill_lines);
}

//= cura::LayerPlan::getGeneratedInfillLines
const MixedLinesSet r28(const cura::LayerPlan& self, const SliceMeshStorage* mesh)
{
    auto iterator = self.infill_lines_.find(mesh);
    if (iterator != self.infill_lines_.end())
    {
        return iterator->second;
    }
    return MixedLinesSet();
}

//= cura::LayerPlan::addExtrusionMove
void r29(cura::LayerPlan& self, const Point3LL& p, const GCodePathConfig& config, const SpaceFillType space_fill_type, const Ratio& flow, const Ratio width_factor, const bool spiralize, const Ratio speed_factor, const double fan_speed, const bool travel_to_z)
{
    GCodePath* path = self.getLatestPathWithConfig(config, space_fill_type, config.z_offset, flow, width_factor, spiralize, speed_factor, travel_to_z);
    path->points.push_back(p);
    path->setFanSpeed(fan_speed);
    if (! static_cast<bool>(self.first_extrusion_acc_jerk_))
    {
        self.first_extrusion_acc_jerk_ = std::make_pair(path->config.getAcceleration(), path->config.getJerk());
    }
    self.last_planned_position_ = p;
}

//= cura::LayerPlan::addSkinExtrusion
void r31(cura::LayerPlan& self, const Point3LL& p0, const Point3LL& p1, const Shape& mask, const GCodePathConfig& skin_config, const GCodePathConfig& default_config, const Ratio& flow, const Ratio& width_factor, const bool spiralize, bool travel_to_z)
{
    OpenLinesSet line_polys;
    line_polys.addSegment(p0.toPoint2LL(), p1.toPoint2LL());
    constexpr bool restitch = false; 
    OpenLinesSet skin_line_segments = mask.intersection(line_polys, restitch);
    auto order_points = [&p0](const Point2LL& point_left, const Point2LL& point_right) -> bool
    {
        return vSize2(point_left - p0) < vSize2(point_right - p0);
    };
    std::set<Point2LL, decltype(order_points)> intersections(order_points);
    for (const OpenPolyline& line_poly : skin_line_segments)
    {
        intersections.insert(line_poly.front());
        intersections.insert(line_poly.back());
    }
    bool inside_skin = ! intersections.empty() && (*intersections.begin() == p0.toPoint2LL());
    if (inside_skin)
    {
        intersections.erase(intersections.begin());
    }
    intersections.insert(p1.toPoint2LL());
    const coord_t segment_length = vSize(p1.toPoint2LL() - p0.toPoint2LL());
    Point2LL current_position = p0.toPoint2LL();
    const coord_t z_diff = p1.z_ - p0.z_;
    for (const Point2LL& intersection : intersections)
    {
        if (intersection == p1 || vSize2(intersection - current_position) > EPSILON_SQUARED)
        {
            Point3LL target_position(intersection, p0.z_);
            if (z_diff != 0)
            {
                const double factor = static_cast<double>(vSize(intersection - p0)) / segment_length;
                target_position.z_ += lerp(0, z_diff, factor);
            }
            self.addExtrusionMove(
                target_position,
                inside_skin ? skin_config : default_config,
                SpaceFillType::Polygons,
                flow,
                width_factor,
                spiralize,
                1.0_r,
                GCodePathConfig::FAN_SPEED_DEFAULT,
                travel_to_z);
            travel_to_z = false; 
        }
        inside_skin = ! inside_skin;
        current_position = intersection;
    }
}

//= cura::LayerPlan::addWipeTravel | ta=cura::Polygon
namespace n32
{
using PathType = cura::Polygon;
void r32(cura::LayerPlan& self, const PathAdapter<PathType>& path, const coord_t wipe_distance, const bool backwards, const size_t start_index, const Point2LL& last_path_position)
{
    if (path.size() >= 2 && wipe_distance > 0)
    {
        const int direction = backwards ? -1 : 1;
        Point2LL p0 = last_path_position;
        int distance_traversed = 0;
        size_t index = start_index;
        while (distance_traversed < wipe_distance)
        {
            index = static_cast<size_t>((index + direction + path.size()) % path.size());
            if (index == start_index && distance_traversed == 0)
            {
                break;
            }
            const Point2LL& p1 = path.pointAt(index);
            const int p0p1_dist = vSize(p1 - p0);
            if (distance_traversed + p0p1_dist >= wipe_distance)
            {
                Point2LL vector = p1 - p0;
                Point2LL half_way = p0 + normal(vector, wipe_distance - distance_traversed);
                self.addTravel_simple(half_way);
            }
            else
            {
                self.addTravel_simple(p1);
            }
            distance_traversed += p0p1_dist;
            p0 = p1;
        }
        self.forceNewPathStart();
    }
}
} // namespace n32

//= cura::LayerPlan::addWipeTravel | ta=cura::ExtrusionLine
namespace n33
{
using PathType = cura::ExtrusionLine;
void r33(cura::LayerPlan& self, const PathAdapter<PathType>& path, const coord_t wipe_distance, const bool backwards, const size_t start_index, const Point2LL& last_path_position)
{
    if (path.size() >= 2 && wipe_distance > 0)
    {
        const int direction = backwards ? -1 : 1;
        Point2LL p0 = last_path_position;
        int distance_traversed = 0;
        size_t index = start_index;
        while (distance_traversed < wipe_distance)
        {
            index = static_cast<size_t>((index + direction + path.size()) % path.size());
            if (index == start_index && distance_traversed == 0)
            {
                break;
            }
            const Point2LL& p1 = path.pointAt(index);
            const int p0p1_dist = vSize(p1 - p0);
            if (distance_traversed + p0p1_dist >= wipe_distance)
            {
                Point2LL vector = p1 - p0;
                Point2LL half_way = p0 + normal(vector, wipe_distance - distance_traversed);
                self.addTravel_simple(half_way);
            }
            else
            {
                self.addTravel_simple(p1);
            }
            distance_traversed += p0p1_dist;
            p0 = p1;
        }
        self.forceNewPathStart();
    }
}
} // namespace n33

//= cura::LayerPlan::addPolygonsByOptimizer
void r35(cura::LayerPlan& self, const Shape& polygons, const GCodePathConfig& config, const Settings& settings, const ZSeamConfig& z_seam_config, coord_t wall_0_wipe_dist, bool spiralize, const Ratio flow_ratio, const ForceRetract force_retract, bool reverse_order, const std::optional<Point2LL> start_near_location, bool scarf_seam, bool smooth_speed, const std::shared_ptr<TextureDataProvider>& texture_data_provider)
{
    if (polygons.empty())
    {
        return;
    }
    constexpr bool detect_loops = false;
    constexpr Shape* combing_boundary = nullptr;
    constexpr bool reverse_direction = false;
    const std::unordered_multimap<const Polygon*, const Polygon*>& order_requirements = PathOrderOptimizer<const Polygon*>::no_order_requirements_;
    constexpr bool group_outer_walls = false;
    const Shape disallowed_areas_for_seams = {}; 
    constexpr bool use_shortest_for_inner_walls = false;
    const Shape overhang_areas = Shape(); 
    PathOrderOptimizer<const Polygon*> orderOptimizer(
        start_near_location.value_or(self.getLastPlannedPositionOrStartingPosition()),
        z_seam_config,
        detect_loops,
        combing_boundary,
        reverse_direction,
        order_requirements,
        group_outer_walls,
        disallowed_areas_for_seams,
        use_shortest_for_inner_walls,
        overhang_areas,
        texture_data_provider);
    for (size_t poly_idx = 0; poly_idx < polygons.size(); poly_idx++)
    {
        orderOptimizer.addPolygon(&polygons[poly_idx]);
    }
    orderOptimizer.optimize();
    self.addPolygonsInGivenOrder(
        orderOptimizer.paths_,
        config,
        settings,
        z_seam_config,
        wall_0_wipe_dist,
        spiralize,
        flow_ratio,
        force_retract,
        reverse_order,
        scarf_seam,
        smooth_speed);
}

//= cura::LayerPlan::addInfillPolygonsByOptimizer
void r36(cura::LayerPlan& self, const Shape& polygons, OpenLinesSet& remaining_lines, const GCodePathConfig& config, const Settings& settings, const bool add_extra_inwards_move, const std::optional<Point2LL>& near_start_location, const bool reverse_print_direction)
{
    if (polygons.empty())
    {
        return;
    }
    const ZSeamConfig seam_config = ZSeamConfig();
    constexpr bool detect_loops = false;
    constexpr Shape* combing_boundary = nullptr;
    PathOrderOptimizer<const Polygon*>
        orderOptimizer(near_start_location.value_or(self.getLastPlannedPositionOrStartingPosition()), seam_config, detect_loops, combing_boundary, reverse_print_direction);
    for (size_t poly_idx = 0; poly_idx < polygons.size(); poly_idx++)
    {
        orderOptimizer.addPolygon(&polygons[poly_idx]);
    }
    orderOptimizer.optimize();
    if (! add_extra_inwards_move)
    {
        self.addTravel(orderOptimizer.paths_[0].vertices_->at(orderOptimizer.paths_[0].start_vertex_));
        self.addPolygonsInGivenOrder(orderOptimizer.paths_, config, settings);
        return;
    }
    for (const PathOrdering<const Polygon*>& ordered_polygon : orderOptimizer.paths_)
    {
        const Polygon& polygon = *ordered_polygon.vertices_;
        const size_t start_index = ordered_polygon.start_vertex_;
        ClosedPolyline split_polygon(polygon);
        split_polygon.shiftVerticesToStartPoint(start_index);
        remaining_lines.push_back(split_polygon.toPseudoOpenPolyline());
    }
}

//= cura::LayerPlan::addWallLine
namespace n37
{
static constexpr double max_non_bridge_line_volume = MM2INT(100);
void r37(cura::LayerPlan& self, const PathAdapter<ExtrusionLine>& wall, const size_t segment_index, const Ratio& segment_start_ratio, const Ratio& segment_end_ratio, const Point3LL& p0, const Point3LL& p1, const Settings& settings, const GCodePathConfig& default_config, const GCodePathConfig& roofing_config, const GCodePathConfig& flooring_config, const GCodePathConfig& bridge_config, double flow, const Ratio width_factor, double& non_bridge_line_volume, Ratio speed_factor, double distance_to_bridge_start, const bool travel_to_z)
{
    constexpr double acceleration_segment_len = MM2INT(1); 
    constexpr double acceleration_factor = 0.75; 
    constexpr bool spiralize = false;
    const coord_t min_bridge_line_len = std::max(EPSILON, settings.get<coord_t>("bridge_wall_min_length"));
    const Ratio bridge_wall_coast = settings.get<Ratio>("bridge_wall_coast");
    Point3LL cur_point = p0;
    auto addNonBridgeLine = [&](const Point3LL& line_end)
    {
        coord_t distance_to_line_end = (cur_point - line_end).vSize();
        while (distance_to_line_end > EPSILON)
        {
            Point3LL segment_end = (speed_factor == 1 || distance_to_line_end < acceleration_segment_len)
                                     ? line_end
                                     : cur_point + (line_end - cur_point) * acceleration_segment_len / distance_to_line_end;
            const double segment_flow = (speed_factor > 1) ? flow * (1 / speed_factor) : flow;
            if (distance_to_bridge_start > 0)
            {
                const Ratio speed_flow_factor((bridge_config.getSpeed() * bridge_config.getFlowRatio()) / (default_config.getSpeed() * default_config.getFlowRatio()));
                const double coast_dist = std::min(non_bridge_line_volume, max_non_bridge_line_volume) * (1 - speed_flow_factor) * bridge_wall_coast / 40;
                if ((distance_to_bridge_start - distance_to_line_end) <= coast_dist)
                {
                    segment_end = line_end;
                }
                const coord_t len = (cur_point - segment_end).vSize();
                if (coast_dist > 0 && ((distance_to_bridge_start - len) <= coast_dist))
                {
                    if ((len - coast_dist) > EPSILON)
                    {
                        self.addExtrusionMove(
                            segment_end + coast_dist * (cur_point - segment_end) / len,
                            default_config,
                            SpaceFillType::Polygons,
                            segment_flow,
                            width_factor,
                            spiralize,
                            speed_factor,
                            GCodePathConfig::FAN_SPEED_DEFAULT,
                            travel_to_z);
                    }
                    constexpr Ratio no_flow = 0.0_r; 
                    self.addExtrusionMove(segment_end, default_config, SpaceFillType::Polygons, no_flow, width_factor, spiralize, speed_factor);
                }
                else
                {
                    self.addExtrusionMoveWithGradualOverhang(
                        segment_end,
                        default_config,
                        SpaceFillType::Polygons,
                        segment_flow,
                        width_factor,
                        spiralize,
                        speed_factor,
                        GCodePathConfig::FAN_SPEED_DEFAULT,
                        travel_to_z);
                }
                distance_to_bridge_start -= len;
            }
            else
            {
                self.addExtrusionMoveWithGradualOverhang(
                    segment_end,
                    default_config,
                    SpaceFillType::Polygons,
                    segment_flow,
                    width_factor,
                    spiralize,
                    speed_factor,
                    GCodePathConfig::FAN_SPEED_DEFAULT,
                    travel_to_z);
            }
            non_bridge_line_volume += (cur_point - segment_end).vSize() * segment_flow * width_factor * speed_factor * default_config.getSpeed();
            cur_point = segment_end;
            speed_factor = 1 - (1 - speed_factor) * acceleration_factor;
            if (speed_factor >= 0.9)
            {
                speed_factor = 1.0;
            }
            distance_to_line_end = (cur_point - line_end).vSize();
        }
    };
    const auto use_skin_config = [&default_config, &p0, &p1](const Shape& mask, const GCodePathConfig& config) -> bool
    {
        if (config == default_config)
        {
            return false;
        }
        return PolygonUtils::polygonCollidesWithLineSegment(mask, p0.toPoint2LL(), p1.toPoint2LL()) || mask.inside(p1.toPoint2LL(), true);
    };
    if (use_skin_config(self.roofing_mask_, roofing_config))
    {
        self.addSkinExtrusion(p0, p1, self.roofing_mask_, roofing_config, default_config, flow, width_factor, spiralize, travel_to_z);
    }
    else if (self.bridge_wall_mask_.empty())
    {
        self.addExtrusionMoveWithGradualOverhang(
            p1,
            default_config,
            SpaceFillType::Polygons,
            flow,
            width_factor,
            spiralize,
            speed_factor,
            GCodePathConfig::FAN_SPEED_DEFAULT,
            travel_to_z);
    }
    else if (std::vector<std::tuple<Ratio, Ratio>> bridging_subsegments = wallSegmentUsesBridging(
                 self.bridge_wall_mask_bb_,
                 self.bridge_wall_mask_,
                 wall,
                 segment_index,
                 segment_start_ratio,
                 segment_end_ratio,
                 min_bridge_line_len,
                 default_config.line_width);
             ! bridging_subsegments.empty())
    {
        for (const std::tuple<Ratio, Ratio>& bridging_subsegment : bridging_subsegments)
        {
            const Point3LL bridging_subsegment_p0 = lerp(p0, p1, std::get<0>(bridging_subsegment).value);
            const Point3LL bridging_subsegment_p1 = lerp(p0, p1, std::get<1>(bridging_subsegment).value);
            addNonBridgeLine(bridging_subsegment_p0);
            self.addExtrusionMove(bridging_subsegment_p1, bridge_config, SpaceFillType::Polygons, flow, width_factor, spiralize, 1.0_r, GCodePathConfig::FAN_SPEED_DEFAULT, travel_to_z);
            non_bridge_line_volume = 0;
            cur_point = bridging_subsegment_p1;
            speed_factor = std::max(std::min(Ratio(bridge_config.getSpeed() / default_config.getSpeed()), 1.0_r), 0.5_r);
        }
        addNonBridgeLine(p1);
    }
    else if (use_skin_config(self.flooring_mask_, flooring_config))
    {
        self.addSkinExtrusion(p0, p1, self.flooring_mask_, flooring_config, default_config, flow, width_factor, spiralize, travel_to_z);
    }
    else
    {
        addNonBridgeLine(p1);
    }
}
} // namespace n37

//= cura::LayerPlan::addWall
void r38(cura::LayerPlan& self, const Polygon& wall, size_t start_idx, const Settings& settings, const GCodePathConfig& default_config, const GCodePathConfig& roofing_config, const GCodePathConfig& flooring_config, const GCodePathConfig& bridge_config, coord_t wall_0_wipe_dist, double flow_ratio, const ForceRetract force_retract)
{
    if (wall.size() < 3)
    {
    }
    constexpr size_t dummy_perimeter_id = 0; 
    const coord_t nominal_line_width
        = default_config
              .getLineWidth(); 
    ExtrusionLine ewall;
    std::for_each(
        wall.begin(),
        wall.end(),
        [&dummy_perimeter_id, &nominal_line_width, &ewall](const Point2LL& p)
        {
            ewall.emplace_back(p, nominal_line_width, dummy_perimeter_id);
        });
    ewall.emplace_back(*wall.begin(), nominal_line_width, dummy_perimeter_id);
    constexpr bool is_closed = true;
    constexpr bool is_reversed = false;
    constexpr bool is_linked_path = false;
    self.addWall(
        ewall,
        start_idx,
        settings,
        default_config,
        roofing_config,
        flooring_config,
        bridge_config,
        wall_0_wipe_dist,
        flow_ratio,
        force_retract,
        is_closed,
        is_reversed,
        is_linked_path);
}

//= cura::LayerPlan::computeDistanceToBridgeStart
coord_t r42(const cura::LayerPlan& self, const ExtrusionLine& wall, const size_t current_index, const coord_t min_bridge_line_len, const int direction)
{
    coord_t distance_to_bridge_start = 0;
    const auto point_index = [&wall](const int base_index) -> size_t
    {
        int index = base_index;
        while (index < 0)
        {
            index += wall.size();
        }
        return index % wall.size();
    };
    if (! self.bridge_wall_mask_.empty())
    {
        const size_t iterations = wall.is_closed_ ? wall.size() : (direction > 0 ? wall.size() - current_index : current_index);
        for (size_t iteration = 0; iteration < iterations; ++iteration)
        {
            const size_t base_index = current_index + iteration * direction;
            const ExtrusionJunction& p0 = wall[point_index(base_index)];
            const ExtrusionJunction& p1 = wall[point_index(base_index + direction)];
            if (self.bridge_wall_mask_bb_.hit(AABB({ p0.p_, p1.p_ })) && PolygonUtils::polygonCollidesWithLineSegment(self.bridge_wall_mask_, p0.p_, p1.p_))
            {
                constexpr bool restitch = false; 
                OpenLinesSet intersections_with_bridge_mask = self.bridge_wall_mask_.intersection(OpenLinesSet(OpenPolyline({ p0.p_, p1.p_ })), restitch);
                ranges::sort(
                    intersections_with_bridge_mask,
                    [&p0](OpenPolyline& segment0, OpenPolyline& segment1) -> bool
                    {
                        const coord_t distance_s0_p0 = vSize2(segment0[0] - p0.p_);
                        const coord_t distance_s0_p1 = vSize2(segment0[1] - p0.p_);
                        const coord_t distance_s1_p0 = vSize2(segment1[0] - p0.p_);
                        const coord_t distance_s1_p1 = vSize2(segment1[1] - p0.p_);
                        if (distance_s0_p1 < distance_s0_p0)
                        {
                            std::swap(segment0[0], segment0[1]);
                        }
                        if (distance_s1_p1 < distance_s1_p0)
                        {
                            std::swap(segment1[0], segment1[1]);
                        }
                        return distance_s0_p0 < distance_s1_p0;
                    });
                for (const OpenPolyline& intersection_segment : intersections_with_bridge_mask)
                {
                    const Point2LL& b0 = intersection_segment[0];
                    const Point2LL& b1 = intersection_segment[1];
                    const double bridge_line_len = vSize(b1 - b0);
                    if (bridge_line_len >= min_bridge_line_len)
                    {
                        return distance_to_bridge_start + vSize(b0 - p0.p_);
                    }
                }
                distance_to_bridge_start += vSize(p1.p_ - p0.p_);
            }
            else if (! self.bridge_wall_mask_.inside(p0.p_, true))
            {
                distance_to_bridge_start += vSize(p1.p_ - p0.p_);
            }
        }
        distance_to_bridge_start = 0;
    }
    return distance_to_bridge_start;
}

//= cura::LayerPlan::addInfillWall
void r46(cura::LayerPlan& self, const ExtrusionLine& wall, const GCodePathConfig& path_config, const ForceRetract force_retract)
{
    ExtrusionJunction junction{ *wall.begin() };
    self.addTravel(junction.p_, force_retract);
    for (const auto& junction_n : wall)
    {
        const Ratio width_factor{ static_cast<Ratio::value_type>(junction_n.w_) / Ratio{ static_cast<Ratio::value_type>(path_config.getLineWidth()) } };
        constexpr SpaceFillType space_fill_type = SpaceFillType::Polygons;
        constexpr Ratio flow = 1.0_r;
        self.addExtrusionMove(junction_n.p_, path_config, space_fill_type, flow, width_factor);
        junction = junction_n;
    }
}

//= cura::LayerPlan::addWalls
void r47(cura::LayerPlan& self, const Shape& walls, const Settings& settings, const GCodePathConfig& default_config, const GCodePathConfig& roofing_config, const GCodePathConfig& flooring_config, const GCodePathConfig& bridge_config, const ZSeamConfig& z_seam_config, coord_t wall_0_wipe_dist, double flow_ratio, const ForceRetract force_retract)
{
    PathOrderOptimizer<const Polygon*> orderOptimizer(self.getLastPlannedPositionOrStartingPosition(), z_seam_config);
    for (const Polygon& polygon : walls)
    {
        orderOptimizer.addPolygon(&polygon);
    }
    orderOptimizer.optimize();
    for (const PathOrdering<const Polygon*>& path : orderOptimizer.paths_)
    {
        self.addWall(*path.vertices_, path.start_vertex_, settings, default_config, roofing_config, flooring_config, bridge_config, wall_0_wipe_dist, flow_ratio, force_retract);
    }
}

//= cura::LayerPlan::makeInwardsMove
OpenPolyline r48(const std::list<STHalfEdge>& trapezoidal_edges, const Point2LL& start_point, const coord_t move_inwards_length)
{
    const STHalfEdge* trapezoidal_start = nullptr;
    uint8_t trapezoidal_segments = 0;
    double projection_ratio_on_outer_segment = 0.0;
    std::optional<coord_t> distance_to_closest_segment_squared;
    for (const STHalfEdge& start_edge : trapezoidal_edges)
    {
        if (start_edge.prev_ != nullptr)
        {
            continue;
        }
        uint8_t current_trapezoidal_segments = 1;
        const STHalfEdge* end_edge = &start_edge;
        while (end_edge->next_)
        {
            current_trapezoidal_segments++;
            end_edge = end_edge->next_;
        }
        const Point2LL& outer_segment_p0 = start_edge.from_->p_;
        const Point2LL& outer_segment_p1 = end_edge->to_->p_;
        coord_t projection_distance_squared;
        double projection_ratio;
        if (outer_segment_p1 == outer_segment_p0)
        {
            projection_distance_squared = vSize2(start_point - outer_segment_p0);
            projection_ratio = 0.5; 
        }
        else
        {
            const Point2LL p0_p1 = outer_segment_p1 - outer_segment_p0;
            const Point2LL p0_start = start_point - outer_segment_p0;
            projection_ratio = dot(p0_start, p0_p1) / vSize2f(p0_p1);
            if (projection_ratio < 0.0)
            {
                projection_distance_squared = vSize2(start_point - outer_segment_p0);
            }
            else if (projection_ratio > 1.0)
            {
                projection_distance_squared = vSize2(start_point - outer_segment_p1);
            }
            else
            {
                const Point2LL projected = lerp(outer_segment_p0, outer_segment_p1, projection_ratio);
                projection_distance_squared = vSize2(start_point - projected);
            }
        }
        if (! distance_to_closest_segment_squared.has_value() || projection_distance_squared < distance_to_closest_segment_squared.value())
        {
            trapezoidal_start = &start_edge;
            trapezoidal_segments = current_trapezoidal_segments;
            projection_ratio_on_outer_segment = projection_ratio;
            distance_to_closest_segment_squared = projection_distance_squared;
        }
    }
    if (! trapezoidal_start)
    {
        return {};
    }
    coord_t remaining_inwards_length = move_inwards_length - std::sqrt(distance_to_closest_segment_squared.value());
    if (remaining_inwards_length <= 0)
    {
        return {};
    }
    Point2LL opposite_projection;
    if (trapezoidal_segments == 2)
    {
        opposite_projection = trapezoidal_start->to_->p_;
    }
    else
    {
        opposite_projection = lerp(trapezoidal_start->to_->p_, trapezoidal_start->next_->to_->p_, projection_ratio_on_outer_segment);
    }
    OpenPolyline inwards_move;
    constexpr bool is_upward_strict = true;
    const STHalfEdgeNode* next_start_node = nullptr;
    const Point2LL start_to_opposite = opposite_projection - start_point;
    const coord_t distance_to_opposite_vertex = vSize(start_to_opposite);
    const auto add_edge = [&remaining_inwards_length, &inwards_move](const STHalfEdge* edge_move_up, const Point2LL& start_position)
    {
        const Point2LL start_to_edge_end = edge_move_up->to_->p_ - start_position;
        const coord_t distance_to_edge_end = vSize(start_to_edge_end);
        const coord_t add_distance = std::min(distance_to_edge_end, remaining_inwards_length);
        const Point2D edge_direction = toPoint2D(edge_move_up->to_->p_ - edge_move_up->from_->p_).vNormalized().value();
        inwards_move.push_back(start_position + toPoint2LL(edge_direction * add_distance));
        remaining_inwards_length -= add_distance;
    };
    if (distance_to_opposite_vertex > remaining_inwards_length)
    {
        const Point2D inwards_direction = toPoint2D(start_to_opposite).vNormalized().value();
        inwards_move.push_back(start_point + toPoint2LL(inwards_direction * remaining_inwards_length));
    }
    else
    {
        remaining_inwards_length -= distance_to_opposite_vertex;
        inwards_move.push_back(opposite_projection);
        if (trapezoidal_segments == 2)
        {
            next_start_node = trapezoidal_start->to_;
        }
        else
        {
            const STHalfEdge* edge_move_up = nullptr;
            if (trapezoidal_start->next_->isUpward(is_upward_strict))
            {
                edge_move_up = trapezoidal_start->next_;
            }
            else if (trapezoidal_start->next_->twin_->isUpward(is_upward_strict))
            {
                edge_move_up = trapezoidal_start->next_->twin_;
            }
            if (edge_move_up)
            {
                add_edge(edge_move_up, opposite_projection);
                if (remaining_inwards_length > 0)
                {
                    next_start_node = edge_move_up->to_;
                }
            }
        }
    }
    if (next_start_node == nullptr)
    {
        return inwards_move;
    }
    while (remaining_inwards_length > 0)
    {
        auto iterator = ranges::find_if(
            trapezoidal_edges,
            [&next_start_node](const STHalfEdge& edge)
            {
                return edge.from_ == next_start_node && edge.isUpward(is_upward_strict);
            });
        if (iterator == trapezoidal_edges.end())
        {
            break;
        }
        const STHalfEdge* edge_move_up = &(*iterator);
        add_edge(edge_move_up, edge_move_up->from_->p_);
        next_start_node = edge_move_up->to_;
    }
    return inwards_move;
}

//= cura::LayerPlan::addLinesByOptimizer
void r51(cura::LayerPlan& self, const MixedLinesSet& lines, const GCodePathConfig& config, const SpaceFillType space_fill_type, const bool enable_travel_optimization, const coord_t wipe_dist, const Ratio flow_ratio, const std::optional<Point2LL> near_start_location, const double fan_speed, const bool reverse_print_direction, const std::unordered_multimap<const Polyline*, const Polyline*>& order_requirements)
{
    Shape boundary;
    if (enable_travel_optimization && ! self.comb_boundary_minimum_.empty())
    {
        int dist = 0;
        if (self.layer_nr_ >= 0)
        {
            for (const std::shared_ptr<SliceMeshStorage>& mesh : self.storage_.meshes)
            {
                const coord_t overlap = std::max(mesh->settings.get<coord_t>("skin_overlap_mm"), mesh->settings.get<coord_t>("infill_overlap_mm"));
                if (overlap > dist)
                {
                    dist = overlap;
                }
            }
            dist += 100; 
        }
        boundary.push_back(self.comb_boundary_minimum_.offset(dist));
        boundary = Simplify(MM2INT(0.1), MM2INT(0.1), 0).polygon(boundary);
    }
    constexpr bool detect_loops = false; 
    PathOrderOptimizer<const Polyline*> order_optimizer(
        near_start_location.value_or(self.getLastPlannedPositionOrStartingPosition()),
        ZSeamConfig(),
        detect_loops,
        &boundary,
        reverse_print_direction,
        order_requirements);
    for (const std::shared_ptr<const Polyline>& line : lines)
    {
        if (const std::shared_ptr<const OpenPolyline> open_line = dynamic_pointer_cast<const OpenPolyline>(line))
        {
            order_optimizer.addPolyline(open_line.get());
        }
        else if (const std::shared_ptr<const ClosedPolyline> closed_line = dynamic_pointer_cast<const ClosedPolyline>(line))
        {
            order_optimizer.addPolygon(closed_line.get());
        }
    }
    order_optimizer.optimize();
    self.addLinesInGivenOrder(order_optimizer.paths_, config, space_fill_type, wipe_dist, flow_ratio, fan_speed);
}

//= cura::LayerPlan::addPolygonsInGivenOrder
void r53(cura::LayerPlan& self, const std::vector<PathOrdering<const Polygon*>>& polygons, const GCodePathConfig& config, const Settings& settings, const ZSeamConfig& z_seam_config, coord_t wall_0_wipe_dist, bool spiralize, const Ratio flow_ratio, const ForceRetract force_retract, bool reverse_order, bool scarf_seam, bool smooth_speed)
{
    const auto add_polygons
        = [&self, &config, &settings, &wall_0_wipe_dist, &spiralize, &flow_ratio, &force_retract, &scarf_seam, &smooth_speed](const auto& iterator_begin, const auto& iterator_end)
    {
        for (auto iterator = iterator_begin; iterator != iterator_end; ++iterator)
        {
            self.addPolygon(
                *iterator->vertices_,
                iterator->start_vertex_,
                iterator->backwards_,
                settings,
                config,
                wall_0_wipe_dist,
                spiralize,
                flow_ratio,
                force_retract,
                scarf_seam,
                smooth_speed);
        }
    };
    if (! reverse_order)
    {
        add_polygons(polygons.begin(), polygons.end());
    }
    else
    {
        add_polygons(polygons.rbegin(), polygons.rend());
    }
}

//= cura::LayerPlan::computeTravelDurations
namespace n54
{
using TravelDurations = cura::LayerPlan::TravelDurations;
LayerPlan::TravelDurations r54(const GCodeExport& gcode, const ExtruderTrain& extruder, const GCodePath& path, const coord_t z_hop_height)
{
    TravelDurations travel_durations;
    if (z_hop_height > 0)
    {
        const Velocity z_hop_speed = extruder.settings_.get<Velocity>("speed_z_hop");
        travel_durations.z_hop = (z_hop_height / z_hop_speed) / 1000.0;
    }
    if (! path.points.empty())
    {
        const Velocity& travel_speed = path.config.getSpeed();
        Point2LL start_position = gcode.getPosition().toPoint2LL();
        const coord_t travel_distance = ranges::accumulate(
            path.points,
            0,
            [&start_position](const coord_t total_distance, const Point3LL& travel_point)
            {
                const Point2LL travel_point_2d = travel_point.toPoint2LL();
                const coord_t travel_segment_length = vSize(travel_point_2d - start_position);
                start_position = travel_point_2d;
                return total_distance + travel_segment_length;
            });
        travel_durations.travel = (travel_distance / travel_speed) / 1000.0;
    }
    return travel_durations;
}
} // namespace n54

//= cura::LayerPlan::computeAntiOozeAmounts
namespace n55
{
using AntiOozeIntermediateAmounts = cura::LayerPlan::AntiOozeIntermediateAmounts;
using AntiOozeSettings = cura::LayerPlan::AntiOozeSettings;
using TravelDurations = cura::LayerPlan::TravelDurations;
void r55(const GCodeExport& gcode, const ExtruderTrain& extruder, const GCodePath& path, const coord_t z_hop_height, const RetractionAndWipeConfig* retraction_config, std::optional<TravelAntiOozing>& retraction_amounts, std::optional<TravelAntiOozing>& priming_amounts)
{
    const TravelDurations travel_durations = cura::LayerPlan::computeTravelDurations(gcode, extruder, path, path.perform_z_hop ? z_hop_height : 0);
    const AntiOozeSettings retract_settings{ retraction_config->retraction_config.distance,
                                             retraction_config->retraction_config.speed,
                                             retraction_config->retraction_config.retract_during_travel };
    const AntiOozeSettings prime_settings{ retraction_config->retraction_config.distance + gcode.mm3ToE(retraction_config->retraction_config.prime_volume),
                                           retraction_config->retraction_config.primeSpeed,
                                           retraction_config->retraction_config.prime_during_travel };
    auto compute_base_anti_ooze_amounts
        = [&gcode, &travel_durations](const AntiOozeSettings& settings, AntiOozeIntermediateAmounts& intermediate_amounts, std::optional<TravelAntiOozing>& amounts) -> void
    {
        intermediate_amounts.actual_during_travel_ratio = gcode.machineHandlesRetraction() ? 0.0_r : settings.during_travel_ratio;
        intermediate_amounts.total_expected_duration = settings.distance / settings.speed;
        const Duration expected_duration_during_zhop_and_travel = intermediate_amounts.total_expected_duration * intermediate_amounts.actual_during_travel_ratio;
        intermediate_amounts.expected_duration_during_travel = std::max(0.0_s, expected_duration_during_zhop_and_travel - travel_durations.z_hop);
        intermediate_amounts.expected_amount_during_travel = intermediate_amounts.expected_duration_during_travel * settings.speed;
        amounts = TravelAntiOozing{};
        const double expected_distance_during_zhop_and_travel = settings.distance * intermediate_amounts.actual_during_travel_ratio;
        amounts->amount_while_still = settings.distance - expected_distance_during_zhop_and_travel;
        double actual_distance_during_zhop = 0.0;
        if (travel_durations.z_hop > 0.0_s)
        {
            const double possible_distance_during_zhop = settings.speed * travel_durations.z_hop;
            actual_distance_during_zhop = std::min(expected_distance_during_zhop_and_travel, possible_distance_during_zhop);
            amounts->z_hop.ratio = actual_distance_during_zhop / possible_distance_during_zhop;
        }
        amounts->z_hop.amount = amounts->amount_while_still + actual_distance_during_zhop;
    };
    AntiOozeIntermediateAmounts intermediate_amounts_retract;
    AntiOozeIntermediateAmounts intermediate_amounts_prime;
    Velocity retract_speed = retract_settings.speed;
    compute_base_anti_ooze_amounts(retract_settings, intermediate_amounts_retract, retraction_amounts);
    compute_base_anti_ooze_amounts(prime_settings, intermediate_amounts_prime, priming_amounts);
    const Duration total_anti_ooze_expected_duration_during_travel
        = intermediate_amounts_retract.expected_duration_during_travel + intermediate_amounts_prime.expected_duration_during_travel;
    const double free_time_during_travel = travel_durations.travel.value_ - total_anti_ooze_expected_duration_during_travel.value_;
    if (free_time_during_travel < 0.0)
    {
        const Ratio reduction_ratio = -(free_time_during_travel / total_anti_ooze_expected_duration_during_travel);
        const double retraction_reduction_amount = intermediate_amounts_retract.expected_amount_during_travel * reduction_ratio;
        intermediate_amounts_retract.actual_amount_during_travel = intermediate_amounts_retract.expected_amount_during_travel - retraction_reduction_amount;
        const double prime_reduction_amount = intermediate_amounts_prime.expected_amount_during_travel * reduction_ratio;
        intermediate_amounts_prime.actual_amount_during_travel = intermediate_amounts_prime.expected_amount_during_travel - prime_reduction_amount;
        const double expected_prime_retract_ratio = prime_settings.distance / retract_settings.distance;
        const double reduced_retract_distance = retract_settings.distance - retraction_reduction_amount;
        const double reduced_prime_distance = prime_settings.distance - prime_reduction_amount;
        const double reduced_prime_ratio = reduced_prime_distance / reduced_retract_distance;
        if (reduced_prime_ratio < expected_prime_retract_ratio)
        {
            const double expected_reduced_retract_distance = reduced_prime_distance / expected_prime_retract_ratio;
            const double stationary_retract_reduction = reduced_retract_distance - expected_reduced_retract_distance;
            retraction_amounts->amount_while_still -= stationary_retract_reduction;
            retraction_amounts->z_hop.amount -= stationary_retract_reduction;
        }
        else if (reduced_prime_ratio > expected_prime_retract_ratio)
        {
            const double expected_reduced_prime_distance = reduced_retract_distance * expected_prime_retract_ratio;
            const double stationary_prime_reduction = reduced_prime_distance - expected_reduced_prime_distance;
            priming_amounts->amount_while_still -= stationary_prime_reduction;
            priming_amounts->z_hop.amount -= stationary_prime_reduction;
        }
    }
    else
    {
        intermediate_amounts_retract.actual_amount_during_travel = intermediate_amounts_retract.expected_amount_during_travel;
        intermediate_amounts_prime.actual_amount_during_travel = intermediate_amounts_prime.expected_amount_during_travel;
        if (retraction_config->retraction_config.keep_retracting_during_travel && free_time_during_travel > 0.0)
        {
            const double longer_retraction_duration = intermediate_amounts_retract.expected_duration_during_travel.value_ + free_time_during_travel;
            retract_speed = intermediate_amounts_retract.actual_amount_during_travel / longer_retraction_duration;
        }
    }
    retraction_amounts->amount_while_travel = retraction_amounts->z_hop.amount + intermediate_amounts_retract.actual_amount_during_travel;
    priming_amounts->amount_while_travel = priming_amounts->z_hop.amount + intermediate_amounts_prime.actual_amount_during_travel;
    cura::LayerPlan::computeAntiOozeTravelSplit(gcode, path, retract_speed, intermediate_amounts_retract.actual_amount_during_travel, false, *retraction_amounts);
    cura::LayerPlan::computeAntiOozeTravelSplit(gcode, path, prime_settings.speed, intermediate_amounts_prime.actual_amount_during_travel, true, *priming_amounts);
    const double prime_delta = retraction_amounts->amount_while_travel - priming_amounts->amount_while_travel;
    priming_amounts->amount_while_travel += prime_delta;
    priming_amounts->z_hop.amount += prime_delta;
    priming_amounts->amount_while_still += prime_delta;
    for (double& amount_by_segment : priming_amounts->amount_by_segment)
    {
        amount_by_segment += prime_delta;
    }
}
} // namespace n55

//= cura::LayerPlan::computeAntiOozeTravelSplit
void r56(const GCodeExport& gcode, const GCodePath& path, const Velocity& speed, const double amount_during_travel, const bool reversed, TravelAntiOozing& anti_oozing)
{
    const Point2LL start_position = gcode.getPosition().toPoint2LL();
    std::vector<Point3LL> points;
    if (reversed)
    {
        points.insert(points.end(), path.points.rbegin(), path.points.rend());
        points.push_back(start_position);
    }
    else
    {
        points = path.points;
        points.insert(points.begin(), start_position);
    }
    const Duration duration_during_travel = amount_during_travel / speed;
    Duration travel_duration;
    for (const auto& [index, segment] : points | ranges::views::sliding(2) | ranges::views::enumerate)
    {
        const Point2LL& segment_start = segment[0].toPoint2LL();
        const Point2LL& segment_end = segment[1].toPoint2LL();
        const Duration segment_duration = (vSize(segment_end - segment_start) / path.config.getSpeed()) / 1000.0;
        if ((travel_duration + segment_duration >= (duration_during_travel - 0.001_s)) || index == points.size() - 2)
        {
            if (segment_duration > 0.001_s)
            {
                const double segment_ratio = (duration_during_travel - travel_duration) / segment_duration;
                anti_oozing.segment_split_position = cura::lerp(segment_start, segment_end, segment_ratio);
            }
            else
            {
                anti_oozing.segment_split_position = segment_start;
            }
            if (reversed)
            {
                anti_oozing.amount_by_segment.insert(anti_oozing.amount_by_segment.begin(), anti_oozing.z_hop.amount);
            }
            else
            {
                anti_oozing.amount_by_segment.push_back(anti_oozing.amount_while_travel);
            }
            break;
        }
        anti_oozing.amount_by_segment.push_back(
            std::lerp(anti_oozing.z_hop.amount, anti_oozing.amount_while_travel, (travel_duration + segment_duration) / duration_during_travel));
        travel_duration += segment_duration;
    }
}

//= cura::LayerPlan::writeTravelSegment
namespace n57
{
using TravelRetractionState = cura::LayerPlan::TravelRetractionState;
void r57(cura::LayerPlan& self, TravelRetractionState& travel_retraction_state, GCodeExport& gcode, const GCodePath& path, const std::optional<TravelAntiOozing>& retraction_amounts, const std::optional<TravelAntiOozing>& priming_amounts, const Velocity& speed, const size_t point_index)
{
    switch (travel_retraction_state)
    {
    case TravelRetractionState::None:
        self.writeTravelRelativeZ(gcode, path.points[point_index], speed, path.z_offset);
        break;
    case TravelRetractionState::Retracting:
    {
        if (point_index == retraction_amounts->amount_by_segment.size() - 1)
        {
            travel_retraction_state = TravelRetractionState::Travelling;
            self.writeTravelRelativeZ(gcode, retraction_amounts->segment_split_position, speed, path.z_offset, retraction_amounts->amount_by_segment[point_index]);
            self.writeTravelSegment(travel_retraction_state, gcode, path, retraction_amounts, priming_amounts, speed, point_index); 
        }
        else if (point_index < retraction_amounts->amount_by_segment.size())
        {
            self.writeTravelRelativeZ(gcode, path.points[point_index], speed, path.z_offset, retraction_amounts->amount_by_segment[point_index]);
        }
        else
        {
        }
        break;
    }
    case TravelRetractionState::Travelling:
    {
        const size_t point_index_reversed = path.points.size() - 1 - point_index;
        if (point_index_reversed == priming_amounts->amount_by_segment.size() - 1)
        {
            travel_retraction_state = TravelRetractionState::Priming;
            self.writeTravelRelativeZ(gcode, priming_amounts->segment_split_position, speed, path.z_offset);
            self.writeTravelSegment(travel_retraction_state, gcode, path, retraction_amounts, priming_amounts, speed, point_index); 
        }
        else
        {
            self.writeTravelRelativeZ(gcode, path.points[point_index], speed, path.z_offset);
        }
        break;
    }
    case TravelRetractionState::Priming:
    {
        const size_t point_index_reversed = path.points.size() - 1 - point_index;
        if (point_index_reversed < priming_amounts->amount_by_segment.size())
        {
            self.writeTravelRelativeZ(gcode, path.points[point_index], speed, path.z_offset, priming_amounts->amount_by_segment[point_index_reversed]);
        }
        else
        {
        }
        break;
    }
    }
}
} // namespace n57

//= cura::LayerPlan::sendLineTo
void r58(cura::LayerPlan& self, const GCodePath& path, const Point3LL& position, const double extrude_speed, const std::optional<coord_t>& line_thickness)
{
    Application::getInstance().communication_->sendLineTo(
        path.config.type,
        position + Point3LL(0, 0, self.z_ + path.z_offset),
        path.getLineWidthForLayerView(),
        line_thickness.value_or(path.config.getLayerThickness() + path.z_offset + position.z_),
        extrude_speed);
}

//= cura::LayerPlan::writeTravelRelativeZ
void r59(cura::LayerPlan& self, GCodeExport& gcode, const Point3LL& position, const Velocity& speed, const coord_t path_z_offset, const std::optional<double> retract_distance)
{
    gcode.writeTravel(position + Point3LL(0, 0, self.z_ + path_z_offset), speed, retract_distance);
}

//= cura::LayerPlan::writeExtrusionRelativeZ
void r60(cura::LayerPlan& self, GCodeExport& gcode, const Point3LL& position, const Velocity& speed, const coord_t path_z_offset, double extrusion_mm3_per_mm, PrintFeatureType feature, bool update_extrusion_offset)
{
    Ratio thickness_factor;
    const coord_t z_offset_start = gcode.getPositionZ() - self.z_;
    if (z_offset_start != 0 || path_z_offset != 0)
    {
        const Ratio thickness_factor_start = std::clamp(1.0 + (static_cast<double>(z_offset_start) / self.layer_thickness_), 0.0, 1.0);
        const Ratio thickness_factor_end = std::clamp(1.0 + (static_cast<double>(path_z_offset) / self.layer_thickness_), 0.0, 1.0);
        thickness_factor = (thickness_factor_start + thickness_factor_end) / 2.0;
    }
    else
    {
        thickness_factor = 1.0;
    }
    gcode.writeExtrusion(position + Point3LL(0, 0, self.z_ + path_z_offset), speed, extrusion_mm3_per_mm * thickness_factor, feature, update_extrusion_offset);
}

//= cura::LayerPlan::addLinesMonotonic
void r61(cura::LayerPlan& self, const Shape& area, const OpenLinesSet& lines, const GCodePathConfig& config, const SpaceFillType space_fill_type, const AngleRadians monotonic_direction, const coord_t max_adjacent_distance, const coord_t exclude_distance, const coord_t wipe_dist, const Ratio flow_ratio, const double fan_speed, const bool interlaced)
{
    const Shape exclude_areas = area.createTubeShape(exclude_distance, exclude_distance);
    const coord_t exclude_dist2 = exclude_distance * exclude_distance;
    const Point2LL last_position = self.getLastPlannedPositionOrStartingPosition();
    PathOrderOptimizer<const OpenPolyline*> line_order(last_position);
    for (const OpenPolyline& line : lines)
    {
        line_order.addPolyline(&line);
    }
    line_order.optimize();
    const auto is_inside_exclusion = [&exclude_areas, &exclude_dist2](const OpenPolyline& path)
    {
        return vSize2(path[1] - path[0]) < exclude_dist2 && exclude_areas.inside((path[0] + path[1]) / 2);
    };
    PathOrderMonotonic<const Polyline*> order(monotonic_direction, max_adjacent_distance, last_position, interlaced);
    OpenLinesSet left_over;
    bool last_would_have_been_excluded = false;
    for (size_t line_idx = 0; line_idx < line_order.paths_.size(); ++line_idx)
    {
        const OpenPolyline& polyline = *line_order.paths_[line_idx].vertices_;
        if (! polyline.isValid())
        {
            continue;
        }
        const bool inside_exclusion = is_inside_exclusion(polyline);
        const bool next_would_have_been_included = inside_exclusion && (line_idx < line_order.paths_.size() - 1 && is_inside_exclusion(*line_order.paths_[line_idx + 1].vertices_));
        if (inside_exclusion && last_would_have_been_excluded && next_would_have_been_included)
        {
            left_over.push_back(polyline);
        }
        else
        {
            order.addPolyline(&polyline);
        }
        last_would_have_been_excluded = inside_exclusion;
    }
    order.optimize();
    self.addLinesInGivenOrder(order.paths_, config, space_fill_type, wipe_dist, flow_ratio, fan_speed);
    self.addLinesByOptimizer(left_over, config, space_fill_type, true, wipe_dist, flow_ratio, self.getLastPlannedPositionOrStartingPosition(), fan_speed);
}

//= cura::LayerPlan::spiralizeWallSlice
void r62(cura::LayerPlan& self, const GCodePathConfig& config, const Polygon& wall, const Polygon& last_wall, const int seam_vertex_idx, const int last_seam_vertex_idx, const bool is_top_layer, const bool is_bottom_layer)
{
    const bool smooth_contours = Application::getInstance().current_slice_->scene.current_mesh_group->settings.get<bool>("smooth_spiralized_contours");
    constexpr bool spiralize = true; 
    constexpr Ratio width_factor = 1.0_r;
    const Point2LL origin = (last_seam_vertex_idx >= 0 && ! is_bottom_layer) ? last_wall[last_seam_vertex_idx] : wall[seam_vertex_idx];
    self.addTravel(origin);
    if (! smooth_contours && last_seam_vertex_idx >= 0)
    {
        Point2LL join_first_wall_at = LinearAlg2D::getClosestOnLineSegment(origin, wall[seam_vertex_idx % wall.size()], wall[(seam_vertex_idx + 1) % wall.size()]);
        if (vSize(join_first_wall_at - origin) > 10)
        {
            constexpr Ratio flow = 1.0_r;
            self.addExtrusionMove(join_first_wall_at, config, SpaceFillType::Polygons, flow, width_factor, spiralize);
        }
    }
    const int n_points = wall.size();
    Shape last_wall_polygons;
    last_wall_polygons.push_back(last_wall);
    const int max_dist2 = config.getLineWidth() * config.getLineWidth() * 4; 
    double total_length = 0.0; 
    Point2LL p0 = origin;
    for (int wall_point_idx = 1; wall_point_idx <= n_points; ++wall_point_idx)
    {
        const Point2LL& p1 = wall[(seam_vertex_idx + wall_point_idx) % n_points];
        total_length += vSizeMM(p1 - p0);
        p0 = p1;
    }
    if (total_length == 0.0)
    {
        return;
    }
    const double min_bottom_layer_flow = 0.25; 
    const double min_top_layer_flow = 0.25; 
    double speed_factor = 1; 
    if (is_top_layer)
    {
        const FanSpeedLayerTimeSettings& layer_time_settings = self.extruder_plans_.back().fan_speed_layer_time_settings_;
        const double min_time = layer_time_settings.cool_min_layer_time;
        const double normal_layer_time = total_length / config.getSpeed();
        if (normal_layer_time < min_time)
        {
            const double extended_layer_time = (total_length * (2 - min_top_layer_flow)) / config.getSpeed();
            speed_factor = normal_layer_time / std::min(extended_layer_time, min_time);
        }
    }
    double wall_length = 0.0;
    p0 = origin;
    for (int wall_point_idx = 1; wall_point_idx <= n_points; ++wall_point_idx)
    {
        const Point2LL& p = wall[(seam_vertex_idx + wall_point_idx) % n_points];
        wall_length += vSizeMM(p - p0);
        p0 = p;
        const double flow = (is_bottom_layer) ? (min_bottom_layer_flow + ((1 - min_bottom_layer_flow) * wall_length / total_length)) : 1.0;
        if (smooth_contours && ! is_bottom_layer && wall_point_idx < n_points)
        {
            ClosestPointPolygon cpp = PolygonUtils::findClosest(p, last_wall_polygons);
            if (cpp.isValid() && vSize2(cpp.location_ - p) <= max_dist2)
            {
                self.addExtrusionMove(cpp.location_ + (p - cpp.location_) * (wall_length / total_length), config, SpaceFillType::Polygons, flow, width_factor, spiralize, speed_factor);
            }
            else
            {
                self.addExtrusionMove(p, config, SpaceFillType::Polygons, flow, width_factor, spiralize, speed_factor);
            }
        }
        else
        {
            self.addExtrusionMove(p, config, SpaceFillType::Polygons, flow, width_factor, spiralize, speed_factor);
        }
    }
    if (is_top_layer)
    {
        const double min_spiral_coast_dist = 10; 
        double distance_coasted = 0;
        wall_length = 0;
        for (int wall_point_idx = 1; wall_point_idx <= n_points && distance_coasted < min_spiral_coast_dist; wall_point_idx++)
        {
            const Point2LL& p = wall[(seam_vertex_idx + wall_point_idx) % n_points];
            const double seg_length = vSizeMM(p - p0);
            wall_length += seg_length;
            p0 = p;
            double flow = 1 - (wall_length / total_length);
            if (flow < min_top_layer_flow)
            {
                flow = 0;
                distance_coasted += seg_length;
            }
            constexpr bool no_spiralize = false;
            constexpr double fan_speed = GCodePathConfig::FAN_SPEED_DEFAULT;
            constexpr bool travel_to_z = false;
            self.addExtrusionMove(
                Point3LL(p, self.layer_thickness_ / 2.0),
                config,
                SpaceFillType::Polygons,
                ((int)(flow * 20)) / 20.0,
                width_factor,
                no_spiralize,
                speed_factor,
                fan_speed,
                travel_to_z);
        }
    }
}

//= cura::ExtruderPlan::forceMinimalLayerTime
bool r63(cura::ExtruderPlan& self, double minTime, double time_other_extr_plans)
{
    const double minimalSpeed = self.fan_speed_layer_time_settings_.cool_min_speed;
    const double travelTime = self.estimates_.getTravelTime();
    const double extrudeTime = self.estimates_.extrude_time;
    const double totalTime = travelTime + extrudeTime + time_other_extr_plans;
    constexpr double epsilon = 0.01;
    double total_extrude_time_at_minimum_speed = 0.0;
    double total_extrude_time_at_slowest_speed = 0.0;
    for (GCodePath& path : self.paths_)
    {
        total_extrude_time_at_minimum_speed += path.estimates.extrude_time_at_minimum_speed;
        total_extrude_time_at_slowest_speed += path.estimates.extrude_time_at_slowest_path_speed;
    }
    if (totalTime < minTime - epsilon && extrudeTime > 0.0)
    {
        const double minExtrudeTime = minTime - (totalTime - extrudeTime);
        double target_speed = 0.0;
        std::function<double(const GCodePath&)> slow_down_func{ [&target_speed](const GCodePath& path)
                                                                {
                                                                    return std::min(target_speed / (path.config.getSpeed() * path.speed_factor), 1.0);
                                                                } };
        if (minExtrudeTime >= total_extrude_time_at_minimum_speed)
        {
            target_speed = minimalSpeed;
            self.temperature_factor_ = 1.0;
            self.estimates_.extrude_time = total_extrude_time_at_minimum_speed;
            if (minTime - total_extrude_time_at_minimum_speed - travelTime > epsilon)
            {
                self.extra_time_ = minTime - total_extrude_time_at_minimum_speed - travelTime;
            }
        }
        else if (minExtrudeTime >= total_extrude_time_at_slowest_speed && std::abs(total_extrude_time_at_minimum_speed - total_extrude_time_at_slowest_speed) >= epsilon)
        {
            const double factor
                = (1 / total_extrude_time_at_minimum_speed - 1 / minExtrudeTime) / (1 / total_extrude_time_at_minimum_speed - 1 / total_extrude_time_at_slowest_speed);
            target_speed = minimalSpeed * (1.0 - factor) + self.slowest_path_speed_ * factor;
            self.temperature_factor_ = 1.0 - factor;
            self.estimates_.extrude_time = minExtrudeTime;
        }
        else
        {
            const double factor = (1 / total_extrude_time_at_slowest_speed - 1 / minExtrudeTime) / (1 / total_extrude_time_at_slowest_speed - 1 / extrudeTime);
            slow_down_func = [&slowest_path_speed = self.slowest_path_speed_, factor](const GCodePath& path)
            {
                const double actual_target_speed = slowest_path_speed * (1.0 - factor) + (path.config.getSpeed() * path.speed_factor) * factor;
                return std::min(actual_target_speed / (path.config.getSpeed() * path.speed_factor), 1.0);
            };
            self.estimates_.extrude_time = minExtrudeTime;
        }
        for (GCodePath& path : self.paths_)
        {
            if (path.isTravelPath())
            {
                continue;
            }
            Ratio slow_down_factor = slow_down_func(path);
            path.speed_factor *= slow_down_factor;
            path.estimates.extrude_time /= slow_down_factor;
        }
        return true;
    }
    return false;
}

//= cura::ExtruderPlan::getRetractTime
double r64(cura::ExtruderPlan& self, const GCodePath& path)
{
    return self.retraction_config_.distance / (path.retract ? self.retraction_config_.speed : self.retraction_config_.primeSpeed);
}

//= cura::ExtruderPlan::getPointToPointTime
std::pair<double, double> r65(const cura::ExtruderPlan& self, const Point3LL& p0, const Point3LL& p1, const GCodePath& path)
{
    const double length = (p0 - p1).vSizeMM();
    return { length, length / (path.config.getSpeed() * path.speed_factor) };
}

//= cura::ExtruderPlan::computeNaiveTimeEstimates
TimeMaterialEstimates r66(cura::ExtruderPlan& self, Point2LL starting_position)
{
    Point3LL p0 = starting_position;
    const double min_path_speed = self.fan_speed_layer_time_settings_.cool_min_speed;
    self.slowest_path_speed_ = std::accumulate(
        self.paths_.begin(),
        self.paths_.end(),
        std::numeric_limits<double>::max(),
        [](double value, const GCodePath& path)
        {
            return path.isTravelPath() ? value : std::min(value, path.config.getSpeed().value * path.speed_factor);
        });
    bool was_retracted = false; 
    for (GCodePath& path : self.paths_)
    {
        bool is_extrusion_path = false;
        double* path_time_estimate;
        double& material_estimate = path.estimates.material;
        path.estimates.extrude_time_at_minimum_speed = 0.0;
        path.estimates.extrude_time_at_slowest_path_speed = 0.0;
        if (! path.isTravelPath())
        {
            is_extrusion_path = true;
            path_time_estimate = &path.estimates.extrude_time;
        }
        else
        {
            if (path.retract)
            {
                path_time_estimate = &path.estimates.retracted_travel_time;
            }
            else
            {
                path_time_estimate = &path.estimates.unretracted_travel_time;
            }
            if (path.retract != was_retracted)
            { 
                double retract_unretract_time;
                if (path.retract)
                {
                    retract_unretract_time = self.retraction_config_.distance / self.retraction_config_.speed;
                }
                else
                {
                    retract_unretract_time = self.retraction_config_.distance / self.retraction_config_.primeSpeed;
                }
                path.estimates.retracted_travel_time += 0.5 * retract_unretract_time;
                path.estimates.unretracted_travel_time += 0.5 * retract_unretract_time;
            }
        }
        for (Point3LL& p1 : path.points)
        {
            double length = (p0 - p1).vSizeMM();
            if (is_extrusion_path)
            {
                if (length > 0)
                {
                    path.estimates.extrude_time_at_minimum_speed += length / min_path_speed;
                    path.estimates.extrude_time_at_slowest_path_speed += length / self.slowest_path_speed_;
                }
                material_estimate += length * INT2MM(self.layer_thickness_) * INT2MM(path.config.getLineWidth());
            }
            double thisTime = length / (path.config.getSpeed() * path.speed_factor);
            *path_time_estimate += thisTime;
            p0 = p1;
        }
        self.estimates_ += path.estimates;
    }
    return self.estimates_;
}

//= cura::ExtruderPlan::processFanSpeedForMinimalLayerTime
void r67(cura::ExtruderPlan& self, Duration minTime, double time_other_extr_plans)
{
    const double total_layer_time = self.estimates_.getTotalTime() + time_other_extr_plans;
    const double layer_time_diff = self.fan_speed_layer_time_settings_.cool_min_layer_time_fan_speed_max - minTime;
    const double fraction_of_slope = (layer_time_diff != 0.0) ? std::clamp((total_layer_time - minTime) / layer_time_diff, 0.0, 1.0) : 1.0;
    self.fan_speed = std::lerp(self.fan_speed_layer_time_settings_.cool_fan_speed_max, self.fan_speed, fraction_of_slope);
}

//= cura::ExtruderPlan::processFanSpeedForFirstLayers
void r68(cura::ExtruderPlan& self)
{
    self.fan_speed = self.fan_speed_layer_time_settings_.cool_fan_speed_min;
    if (self.layer_nr_ < self.fan_speed_layer_time_settings_.cool_fan_full_layer
        && self.fan_speed_layer_time_settings_.cool_fan_full_layer > 0 
        && ! self.is_raft_layer_ 
    )
    {
        self.fan_speed = self.fan_speed_layer_time_settings_.cool_fan_speed_0
                  + (self.fan_speed - self.fan_speed_layer_time_settings_.cool_fan_speed_0) * std::max(LayerIndex(0), self.layer_nr_) / self.fan_speed_layer_time_settings_.cool_fan_full_layer;
    }
}

//= cura::LayerPlan::processFanSpeedAndMinimalLayerTime
void r69(cura::LayerPlan& self, Point2LL starting_position)
{
    const size_t last_extruder_nr = ranges::max_element(
                                        self.extruder_plans_,
                                        [](const ExtruderPlan& a, const ExtruderPlan& b)
                                        {
                                            return a.extruder_nr_ < b.extruder_nr_;
                                        })
                                        ->extruder_nr_;
    unsigned int last_extruder_idx;
    double other_extr_plan_time = 0.0;
    Duration maximum_cool_min_layer_time;
    for (unsigned int extr_plan_idx = 0; extr_plan_idx < self.extruder_plans_.size(); extr_plan_idx++)
    {
        {
            ExtruderPlan& extruder_plan = self.extruder_plans_[extr_plan_idx];
            extruder_plan.computeNaiveTimeEstimates(starting_position);
            if (extruder_plan.extruder_nr_ == last_extruder_nr)
            {
                last_extruder_idx = extr_plan_idx;
            }
            else
            {
                other_extr_plan_time += extruder_plan.estimates_.getTotalTime();
            }
            const FanSpeedLayerTimeSettings& settings = extruder_plan.fan_speed_layer_time_settings_;
            const bool apply_minimum_layer_time_overhang = self.max_overhang_length_ > settings.cool_min_layer_time_overhang_min_segment_length;
            maximum_cool_min_layer_time
                = std::max(maximum_cool_min_layer_time, apply_minimum_layer_time_overhang ? settings.cool_min_layer_time_overhang : settings.cool_min_layer_time);
            extruder_plan.processFanSpeedForFirstLayers();
            if (! extruder_plan.paths_.empty() && ! extruder_plan.paths_.back().points.empty())
            {
                starting_position = extruder_plan.paths_.back().points.back().toPoint2LL();
            }
        }
    }
    ExtruderPlan& last_extruder_plan = self.extruder_plans_[last_extruder_idx];
    self.min_layer_time_used |= last_extruder_plan.forceMinimalLayerTime(maximum_cool_min_layer_time, other_extr_plan_time);
    last_extruder_plan.processFanSpeedForMinimalLayerTime(maximum_cool_min_layer_time, other_extr_plan_time);
}

//= cura::LayerPlan::overrideFanSpeeds
void r71(cura::LayerPlan& self, double speed)
{
    for (ExtruderPlan& extruder_plan : self.extruder_plans_)
    {
        extruder_plan.setFanSpeed(speed);
    }
}

//= cura::LayerPlan::makeRetractSwitchRetract
bool r72(cura::LayerPlan& self, unsigned int extruder_plan_idx, unsigned int path_idx)
{
    std::vector<GCodePath>& paths = self.extruder_plans_[extruder_plan_idx].paths_;
    for (unsigned int path_idx2 = path_idx + 1; path_idx2 < paths.size(); path_idx2++)
    {
        if (paths[path_idx2].getExtrusionMM3perMM() > 0)
        {
            return false;
        }
    }
    if (self.extruder_plans_.size() <= extruder_plan_idx + 1)
    {
        return false; 
    }
    if (self.extruder_plans_[extruder_plan_idx + 1].extruder_nr_ != self.extruder_plans_[extruder_plan_idx].extruder_nr_)
    {
        return true;
    }
    else
    {
        return false;
    }
}

//= cura::LayerPlan::writePathWithCoasting
namespace n73
{
using ApplyCoasting = cura::LayerPlan::ApplyCoasting;
using PathCoasting = cura::LayerPlan::PathCoasting;
bool r73(cura::LayerPlan& self, GCodeExport& gcode, const size_t extruder_plan_idx, const size_t path_idx, const std::function<void(const double, const int64_t)> insertTempOnTime, const PathCoasting& path_coasting)
{
    if (path_coasting.apply_coasting == ApplyCoasting::NoCoasting)
    {
        return false;
    }
    size_t coasting_start_index;
    Point3LL previous_position = gcode.getPosition();
    const ExtruderPlan& extruder_plan = self.extruder_plans_[extruder_plan_idx];
    const std::vector<GCodePath>& paths = extruder_plan.paths_;
    const GCodePath& path = paths[path_idx];
    const ExtruderTrain& extruder = Application::getInstance().current_slice_->scene.extruders[extruder_plan.extruder_nr_];
    if (path_coasting.apply_coasting == ApplyCoasting::CoastEntirePath)
    {
        coasting_start_index = 0;
    }
    else
    {
        const double extrude_speed = path.config.getSpeed() * path.speed_factor * path.speed_back_pressure_factor;
        coasting_start_index = path_coasting.coasting_start_index;
        for (size_t point_idx = 0; point_idx < coasting_start_index; point_idx++)
        {
            auto [_, time] = extruder_plan.getPointToPointTime(previous_position, path.points[point_idx], path);
            insertTempOnTime(time, path_idx);
            self.writeExtrusionRelativeZ(gcode, path.points[point_idx], extrude_speed, path.z_offset, path.getExtrusionMM3perMM(), path.config.type);
            self.sendLineTo(path, path.points[point_idx], extrude_speed);
            previous_position = path.points[point_idx];
        }
        self.writeExtrusionRelativeZ(gcode, path_coasting.coasting_start_pos, extrude_speed, path.z_offset, path.getExtrusionMM3perMM(), path.config.type);
        self.sendLineTo(path, path_coasting.coasting_start_pos, extrude_speed);
    }
    for (size_t point_idx = coasting_start_index; point_idx < path.points.size(); point_idx++)
    {
        auto [_, time] = extruder_plan.getPointToPointTime(previous_position, path.points[point_idx], path);
        insertTempOnTime(time, path_idx);
        const Ratio coasting_speed_modifier = extruder.settings_.get<Ratio>("coasting_speed");
        const Velocity speed = Velocity(coasting_speed_modifier * path.config.getSpeed());
        self.writeTravelRelativeZ(gcode, path.points[point_idx], speed, path.z_offset);
        previous_position = path.points[point_idx];
    }
    return true;
}
} // namespace n73

//= cura::LayerPlan::applyModifyPlugin
void r74(cura::LayerPlan& self)
{
    bool handled_initial_travel = false;
    for (auto& extruder_plan : self.extruder_plans_)
    {
        scripta::log(
            "extruder_plan_0",
            extruder_plan.paths_,
            SectionType::NA,
            self.layer_nr_,
            scripta::CellVDI{ "flow", &GCodePath::flow },
            scripta::CellVDI{ "width_factor", &GCodePath::width_factor },
            scripta::CellVDI{ "spiralize", &GCodePath::spiralize },
            scripta::CellVDI{ "speed_factor", &GCodePath::speed_factor },
            scripta::CellVDI{ "speed_back_pressure_factor", &GCodePath::speed_back_pressure_factor },
            scripta::CellVDI{ "retract", &GCodePath::retract },
            scripta::CellVDI{ "unretract_before_last_travel_move", &GCodePath::unretract_before_last_travel_move },
            scripta::CellVDI{ "perform_z_hop", &GCodePath::perform_z_hop },
            scripta::CellVDI{ "perform_prime", &GCodePath::perform_prime },
            scripta::CellVDI{ "fan_speed", &GCodePath::getFanSpeed },
            scripta::CellVDI{ "is_travel_path", &GCodePath::isTravelPath },
            scripta::CellVDI{ "extrusion_mm3_per_mm", &GCodePath::getExtrusionMM3perMM });
        extruder_plan.paths_ = slots::instance().modify<plugins::v0::SlotID::GCODE_PATHS_MODIFY>(extruder_plan.paths_, extruder_plan.extruder_nr_, self.layer_nr_);
        if (! handled_initial_travel)
        {
            for (auto& path : extruder_plan.paths_)
            {
                if (path.isTravelPath() && path.points.size() > 0)
                {
                    if (path.points.front() != self.first_travel_destination_)
                    {
                        self.first_travel_destination_ = path.points.front().toPoint2LL();
                    }
                    handled_initial_travel = true;
                    break;
                }
            }
        }
        size_t removed_count = std::erase_if(
            extruder_plan.paths_,
            [](GCodePath& path)
            {
                return path.points.empty();
            });
        if (removed_count > 0)
        {
        }
        scripta::log(
            "extruder_plan_1",
            extruder_plan.paths_,
            SectionType::NA,
            self.layer_nr_,
            scripta::CellVDI{ "flow", &GCodePath::flow },
            scripta::CellVDI{ "width_factor", &GCodePath::width_factor },
            scripta::CellVDI{ "spiralize", &GCodePath::spiralize },
            scripta::CellVDI{ "speed_factor", &GCodePath::speed_factor },
            scripta::CellVDI{ "speed_back_pressure_factor", &GCodePath::speed_back_pressure_factor },
            scripta::CellVDI{ "retract", &GCodePath::retract },
            scripta::CellVDI{ "unretract_before_last_travel_move", &GCodePath::unretract_before_last_travel_move },
            scripta::CellVDI{ "perform_z_hop", &GCodePath::perform_z_hop },
            scripta::CellVDI{ "perform_prime", &GCodePath::perform_prime },
            scripta::CellVDI{ "fan_speed", &GCodePath::getFanSpeed },
            scripta::CellVDI{ "is_travel_path", &GCodePath::isTravelPath },
            scripta::CellVDI{ "extrusion_mm3_per_mm", &GCodePath::getExtrusionMM3perMM });
    }
}

//= cura::LayerPlan::applyBackPressureCompensation
void r75(cura::LayerPlan& self)
{
    for (auto& extruder_plan : self.extruder_plans_)
    {
        const Ratio back_pressure_compensation
            = Application::getInstance().current_slice_->scene.extruders[extruder_plan.extruder_nr_].settings_.get<Ratio>("speed_equalize_flow_width_factor");
        if (back_pressure_compensation != 0.0)
        {
            extruder_plan.applyBackPressureCompensation(back_pressure_compensation);
        }
    }
}

//= cura::LayerPlan::applyGradualFlow
void r76(cura::LayerPlan& self)
{
    for (ExtruderPlan& extruder_plan : self.extruder_plans_)
    {
        gradual_flow::Processor::process(extruder_plan.paths_, extruder_plan.extruder_nr_, self.layer_nr_);
    }
}

//= cura::LayerPlan::findFirstPrintedMesh
std::shared_ptr<const SliceMeshStorage> r77(const cura::LayerPlan& self)
{
    for (const ExtruderPlan& extruder_plan : self.extruder_plans_)
    {
        if (std::shared_ptr<const SliceMeshStorage> mesh = extruder_plan.findFirstPrintedMesh())
        {
            return mesh;
        }
    }
    return nullptr;
}

//= cura::LayerPlan::findInitialExtruderNr
std::optional<size_t> r78(const cura::LayerPlan& self)
{
    auto iterator = ranges::find_if(
        self.extruder_plans_,
        [](const ExtruderPlan& extruder_plan)
        {
            return extruder_plan.hasExtrusion();
        });
    if (iterator != self.extruder_plans_.end())
    {
        return iterator->extruder_nr_;
    }
    return std::nullopt;
}

//= cura::LayerPlan::calculateExtrusionBoundingBox
AABB r79(const cura::LayerPlan& self)
{
    AABB bounding_box;
    for (const ExtruderPlan& extruder_plan : self.extruder_plans_)
    {
        bounding_box.include(extruder_plan.calculateExtrusionBoundingBox());
    }
    return bounding_box;
}

//= cura::LayerPlan::empty
const bool r80(const cura::LayerPlan& self)
{
    return ranges::all_of(
        self.extruder_plans_,
        [](const ExtruderPlan& extruder_plan)
        {
            return extruder_plan.paths_.empty();
        });
}

//= cura::LayerPlan::getLayerNr
LayerIndex r81(const cura::LayerPlan& self)
{
    return self.layer_nr_;
}

//= cura::LayerPlan::getLastPlannedPositionOrStartingPosition
Point2LL r82(const cura::LayerPlan& self)
{
    return self.last_planned_position_.value_or(self.layer_start_pos_per_extruder_[self.getExtruder()]).toPoint2LL();
}

//= cura::LayerPlan::getIsInsideMesh
bool r83(const cura::LayerPlan& self)
{
    return self.was_inside_;
}

//= cura::LayerPlan::getSkirtBrimIsPlanned
bool r84(const cura::LayerPlan& self, unsigned int extruder_nr)
{
    return self.skirt_brim_is_processed_[extruder_nr];
}

//= cura::LayerPlan::setSkirtBrimIsPlanned
void r85(cura::LayerPlan& self, unsigned int extruder_nr)
{
    self.skirt_brim_is_processed_[extruder_nr] = true;
}

//= cura::LayerPlan::getExtruder
size_t r86(const cura::LayerPlan& self)
{
    return self.extruder_plans_.back().extruder_nr_;
}

//= cura::LayerPlan::setBridgeWallMask
void r87(cura::LayerPlan& self, const Shape& polys)
{
    self.bridge_wall_mask_ = polys;
    self.bridge_wall_mask_bb_ = AABB(polys);
}

//= cura::LayerPlan::setOverhangMasks
namespace n88
{
using OverhangMask = cura::LayerPlan::OverhangMask;
void r88(cura::LayerPlan& self, const std::vector<OverhangMask>& masks)
{
    self.overhang_masks_ = masks;
}
} // namespace n88

//= cura::LayerPlan::setSeamOverhangMask
void r89(cura::LayerPlan& self, const Shape& polys)
{
    self.seam_overhang_mask_ = polys;
}

//= cura::LayerPlan::getSeamOverhangMask
const Shape& r90(const cura::LayerPlan& self)
{
    return self.seam_overhang_mask_;
}

//= cura::LayerPlan::setRoofingMask
void r91(cura::LayerPlan& self, const Shape& polys)
{
    self.roofing_mask_ = polys;
}

//= cura::LayerPlan::setFlooringMask
void r92(cura::LayerPlan& self, const Shape& shape)
{
    self.flooring_mask_ = shape;
}

//= cura::LayerPlanBuffer::handle
void r93(cura::LayerPlanBuffer& self, LayerPlan& layer_plan, GCodeExport& gcode)
{
    std::lock_guard mutex_locker(self.buffer_mutex_);
    self.buffer_.push_back(&layer_plan);
    LayerPlan* to_be_written = self.processBuffer();
    if (to_be_written)
    {
        to_be_written->writeGCode(gcode);
        delete to_be_written;
    }
    self.buffer_condition_variable_.notify_all();
}

//= cura::LayerPlanBuffer::processBuffer
LayerPlan* r94(cura::LayerPlanBuffer& self)
{
    if (self.buffer_.empty())
    {
        return nullptr;
    }
    self.processFanSpeedLayerTime();
    if (self.buffer_.size() >= 2)
    {
        self.addConnectingTravelMove(*--(--self.buffer_.end()), *--self.buffer_.end());
    }
    if (self.buffer_.size() > 0)
    {
        self.insertTempCommands(); 
    }
    if (self.buffer_.size() > self.buffer_size_)
    {
        LayerPlan* ret = self.buffer_.front();
        self.buffer_.pop_front();
        return ret;
    }
    return nullptr;
}

//= cura::LayerPlanBuffer::getCompletedLayerPlan
const LayerPlan* r96(const cura::LayerPlanBuffer& self, const LayerIndex& layer_nr)
{
    const LayerPlan* result = nullptr;
    const auto search_layer_plan = [&layer_nr, &self]() -> const LayerPlan*
    {
        const auto iterator = ranges::find_if(
            self.buffer_,
            [&layer_nr](const LayerPlan* layer_plan)
            {
                return layer_plan->getLayerNr() == layer_nr;
            });
        if (iterator != self.buffer_.end())
        {
            return *iterator;
        }
        return nullptr;
    };
    auto noconst_this = const_cast<LayerPlanBuffer*>((&self));
    while (true)
    {
        std::unique_lock mutex_locker(noconst_this->buffer_mutex_);
        result = search_layer_plan();
        if (result != nullptr)
        {
            break;
        }
        noconst_this->buffer_condition_variable_.wait(mutex_locker);
    }
    return result;
}

//= cura::LayerPlanBuffer::addConnectingTravelMove
void r97(cura::LayerPlanBuffer& self, LayerPlan* prev_layer, const LayerPlan* newest_layer)
{
    std::optional<std::pair<Point2LL, bool>> new_layer_destination_state = newest_layer->getFirstTravelDestinationState();
    if (! new_layer_destination_state)
    {
        return;
    }
    Point2LL first_location_new_layer = new_layer_destination_state->first;
    if (! prev_layer->last_planned_position_ || prev_layer->last_planned_position_.value().toPoint2LL() != first_location_new_layer)
    {
        const Settings& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
        const Settings& extruder_settings = Application::getInstance().current_slice_->scene.extruders[prev_layer->extruder_plans_.back().extruder_nr_].settings_;
        prev_layer->setIsInside(new_layer_destination_state->second);
        const bool travel_retract_before_outer_wall = mesh_group_settings.get<RetractBeforeOuterWall>("travel_retract_before_outer_wall") == RetractBeforeOuterWall::RETRACTED;
        const bool retract_at_layer_change = extruder_settings.get<bool>("retract_at_layer_change");
        bool next_mesh_retract_before_outer_wall = false;
        std::shared_ptr<const SliceMeshStorage> first_printed_mesh = newest_layer->findFirstPrintedMesh();
        if (! retract_at_layer_change && first_printed_mesh && travel_retract_before_outer_wall)
        {
            const Settings& mesh_settings = first_printed_mesh->settings;
            const InsetDirection inset_direction = mesh_settings.get<InsetDirection>("inset_direction");
            const size_t wall_line_count = mesh_settings.get<size_t>("wall_line_count");
            next_mesh_retract_before_outer_wall = inset_direction == InsetDirection::OUTSIDE_IN || wall_line_count == 1;
        }
        const ForceRetract force_retract = (retract_at_layer_change || next_mesh_retract_before_outer_wall) ? ForceRetract::RETRACTED : ForceRetract::AUTOMATIC;
        prev_layer->final_travel_z_ = newest_layer->z_;
        GCodePath& path = prev_layer->addTravel(first_location_new_layer, force_retract);
        if (force_retract == ForceRetract::RETRACTED && ! path.retract)
        {
            path.retract = true;
        }
    }
    prev_layer->next_layer_acc_jerk_ = newest_layer->first_extrusion_acc_jerk_;
}

//= cura::LayerPlanBuffer::processFanSpeedLayerTime
void r98(cura::LayerPlanBuffer& self)
{
    auto newest_layer_it = --self.buffer_.end();
    Point2LL starting_position(0, 0);
    if (self.buffer_.size() >= 2)
    {
        auto prev_layer_it = newest_layer_it;
        prev_layer_it--;
        const LayerPlan* prev_layer = *prev_layer_it;
        starting_position = prev_layer->getLastPlannedPositionOrStartingPosition();
    }
    LayerPlan* newest_layer = *newest_layer_it;
    newest_layer->processFanSpeedAndMinimalLayerTime(starting_position);
}

//= cura::LayerPlanBuffer::insertPreheatCommand
void r99(cura::LayerPlanBuffer& self, ExtruderPlan& extruder_plan_before, const Duration time_before_extruder_plan_end, const size_t extruder_nr, const Temperature temp)
{
    Duration acc_time = 0.0;
    for (unsigned int path_idx = extruder_plan_before.paths_.size() - 1; int(path_idx) != -1; path_idx--)
    {
        GCodePath& path = extruder_plan_before.paths_[path_idx];
        acc_time += path.estimates.getTotalTime();
        if (acc_time >= time_before_extruder_plan_end)
        {
            constexpr bool wait = false;
            extruder_plan_before.insertCommand(NozzleTempInsert{ .path_idx = path_idx,
                                                                 .extruder = extruder_nr,
                                                                 .temperature = temp,
                                                                 .wait = wait,
                                                                 .time_after_path_start = acc_time - time_before_extruder_plan_end });
            return;
        }
    }
    constexpr bool wait = false;
    constexpr size_t path_idx = 0;
    extruder_plan_before.insertCommand(NozzleTempInsert{ .path_idx = path_idx,
                                                         .extruder = extruder_nr,
                                                         .temperature = temp,
                                                         .wait = wait }); 
}

//= cura::LayerPlanBuffer::computeStandbyTempPlan
Preheat::WarmUpResult r100(cura::LayerPlanBuffer& self, std::vector<ExtruderPlan*>& extruder_plans, unsigned int extruder_plan_idx)
{
    ExtruderPlan& extruder_plan = *extruder_plans[extruder_plan_idx];
    size_t extruder = extruder_plan.extruder_nr_;
    Settings& extruder_settings = Application::getInstance().current_slice_->scene.extruders[extruder].settings_;
    double initial_print_temp = extruder_plan.required_start_temperature_;
    Duration in_between_time = 0.0_s; 
    for (size_t extruder_plan_before_idx = extruder_plan_idx - 1; int(extruder_plan_before_idx) >= 0; extruder_plan_before_idx--)
    { 
        ExtruderPlan& extruder_plan_before = *extruder_plans[extruder_plan_before_idx];
        if (extruder_plan_before.extruder_nr_ == extruder)
        {
            Temperature temp_before = extruder_settings.get<Temperature>("material_final_print_temperature");
            if (temp_before == 0)
            {
                temp_before = extruder_plan_before.extrusion_temperature_.value_or(initial_print_temp);
            }
            constexpr bool during_printing = false;
            Preheat::WarmUpResult warm_up = self.preheat_config_.getWarmUpPointAfterCoolDown(
                in_between_time,
                extruder,
                temp_before,
                extruder_settings.get<Temperature>("material_standby_temperature"),
                initial_print_temp,
                during_printing);
            warm_up.heating_time = std::min(in_between_time, warm_up.heating_time + self.extra_preheat_time_);
            return warm_up;
        }
        in_between_time += extruder_plan_before.estimates_.getTotalTime();
    }
    Preheat::WarmUpResult warm_up;
    warm_up.total_time_window = in_between_time;
    warm_up.lowest_temperature = extruder_settings.get<Temperature>("material_standby_temperature");
    constexpr bool during_printing = false;
    warm_up.heating_time = self.preheat_config_.getTimeToGoFromTempToTemp(extruder, warm_up.lowest_temperature, initial_print_temp, during_printing);
    if (warm_up.heating_time > in_between_time)
    {
        warm_up.heating_time = in_between_time;
        warm_up.lowest_temperature = initial_print_temp - in_between_time * extruder_settings.get<Temperature>("machine_nozzle_heat_up_speed");
    }
    warm_up.heating_time = warm_up.heating_time + self.extra_preheat_time_;
    return warm_up;
}

//= cura::LayerPlanBuffer::insertPreheatCommand_singleExtrusion
void r101(cura::LayerPlanBuffer& self, ExtruderPlan& prev_extruder_plan, const size_t extruder_nr, const Temperature required_temp)
{
    if (! Application::getInstance().current_slice_->scene.extruders[extruder_nr].settings_.get<bool>("machine_nozzle_temp_enabled"))
    {
        return;
    }
    constexpr bool during_printing = true;
    const double prev_extrusion_temp = prev_extruder_plan.extrusion_temperature_.value_or(prev_extruder_plan.required_start_temperature_);
    double time_before_extruder_plan_end = 0.5 * self.preheat_config_.getTimeToGoFromTempToTemp(extruder_nr, prev_extrusion_temp, required_temp, during_printing);
    time_before_extruder_plan_end = std::min(prev_extruder_plan.estimates_.getTotalTime(), time_before_extruder_plan_end);
    self.insertPreheatCommand(prev_extruder_plan, time_before_extruder_plan_end, extruder_nr, required_temp);
}

//= cura::LayerPlanBuffer::insertTempCommands
void r104(cura::LayerPlanBuffer& self, std::vector<ExtruderPlan*>& extruder_plans, unsigned int extruder_plan_idx)
{
    ExtruderPlan& extruder_plan = *extruder_plans[extruder_plan_idx];
    const size_t extruder = extruder_plan.extruder_nr_;
    ExtruderPlan* prev_extruder_plan = extruder_plans[extruder_plan_idx - 1];
    const size_t prev_extruder = prev_extruder_plan->extruder_nr_;
    if (prev_extruder != extruder)
    { 
        const Settings& previous_extruder_settings = Application::getInstance().current_slice_->scene.extruders[prev_extruder].settings_;
        extruder_plan.prev_extruder_standby_temp_ = previous_extruder_settings.get<Temperature>("material_standby_temperature");
    }
    if (prev_extruder == extruder)
    {
        self.insertPreheatCommand_singleExtrusion(*prev_extruder_plan, extruder, extruder_plan.required_start_temperature_);
        prev_extruder_plan->extrusion_temperature_command_ = --prev_extruder_plan->inserts_.end();
    }
    else if (Application::getInstance().current_slice_->scene.extruders[extruder].settings_.get<bool>("machine_extruders_share_heater"))
    {
        self.insertPreheatCommand_singleExtrusion(*prev_extruder_plan, prev_extruder, extruder_plan.required_start_temperature_);
    }
    else
    {
        self.insertPreheatCommand_multiExtrusion(extruder_plans, extruder_plan_idx);
        self.insertFinalPrintTempCommand(extruder_plans, extruder_plan_idx - 1);
        self.insertPrintTempCommand(extruder_plan);
    }
}

//= cura::LayerPlanBuffer::insertInLayerTempCommands
void r105(cura::LayerPlanBuffer& self, ExtruderPlan& extruder_plan)
{
    const double normal_temperature = extruder_plan.extrusion_temperature_.value_or(extruder_plan.required_start_temperature_);
    double actual_temperature = normal_temperature;
    for (const auto [index, path] : extruder_plan.paths_ | ranges::views::enumerate)
    {
        if (path.isTravelPath())
        {
            continue;
        }
        const Temperature path_temperature = normal_temperature + path.config.temperature_delta;
        if (! fuzzy_equal(path_temperature.value, actual_temperature, 0.1))
        {
            constexpr bool wait = false;
            extruder_plan.insertCommand({ index, extruder_plan.extruder_nr_, path_temperature, wait });
            actual_temperature = path_temperature;
        }
    }
}

//= cura::LayerPlanBuffer::insertPrintTempCommand
void r106(cura::LayerPlanBuffer& self, ExtruderPlan& extruder_plan)
{
    if (! extruder_plan.extrusion_temperature_)
    {
        return;
    }
    const double print_temp = *extruder_plan.extrusion_temperature_;
    const unsigned int extruder = extruder_plan.extruder_nr_;
    const Settings& extruder_settings = Application::getInstance().current_slice_->scene.extruders[extruder].settings_;
    if (! extruder_settings.get<bool>("machine_nozzle_temp_enabled"))
    {
        return;
    }
    double heated_pre_travel_time = 0;
    if (extruder_settings.get<Temperature>("material_initial_print_temperature") != 0)
    { 
        unsigned int path_idx;
        for (path_idx = 0; path_idx < extruder_plan.paths_.size(); path_idx++)
        {
            GCodePath& path = extruder_plan.paths_[path_idx];
            heated_pre_travel_time += path.estimates.getTotalTime();
            if (! path.isTravelPath())
            {
                break;
            }
        }
        bool wait = false;
        extruder_plan.insertCommand(NozzleTempInsert{ .path_idx = path_idx, .extruder = extruder, .temperature = print_temp, .wait = wait });
    }
    extruder_plan.heated_pre_travel_time_ = heated_pre_travel_time;
}

//= cura::PrintInformation::updateWithLayer
void r109(cura::PrintInformation& self, const LayerPlan* layer_plan)
{
    if (! self.initial_extruder_nr.has_value())
    {
        self.initial_extruder_nr = layer_plan->findInitialExtruderNr();
    }
    if (layer_plan->getLayerNr() == 0)
    {
        self.initial_layer_bb.include(layer_plan->calculateExtrusionBoundingBox());
    }
}

//END
}  // namespace ref
