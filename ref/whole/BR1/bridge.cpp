// What the functions of this unit compute.
#include "bridge/bridge.h"
#include <range/v3/action/stable_sort.hpp>
#include <range/v3/algorithm/reverse.hpp>
#include "LayerPlan.h"
#include "PathAdapter.h"
#include "bridge/ExpansionRange.h"
#include "bridge/SegmentOverlapping.h"
#include "bridge/TransformedShape.h"
#include "geometry/PointMatrix.h"
#include "geometry/Polygon.h"
#include "settings/EnumSettings.h"
#include "settings/types/Ratio.h"
#include "sliceDataStorage.h"
#include "utils/AABB.h"
#include "utils/linearAlg2D.h"
#include "utils/math.h"
#include "utils/types/geometry.h"
namespace cura
{
std::vector<coord_t> shapeLineIntersections(const coord_t line_y, const TransformedShape& transformed_shape)
{
    std::vector<coord_t> intersections;
    for (const TransformedSegment& transformed_segment : transformed_shape.getSegments())
    {
        if (transformed_segment.minY() > line_y || transformed_segment.maxY() < line_y)
        {
            continue;
        }
        const std::optional<coord_t> intersection = LinearAlg2D::lineHorizontalLineIntersection(transformed_segment.getStart(), transformed_segment.getEnd(), line_y);
        if (intersection.has_value())
        {
            intersections.push_back(intersection.value());
        }
    }
    return intersections;
}
//= cura::evaluateBridgeLine
coord_t evaluateBridgeLine(const coord_t line_y, const TransformedShape& transformed_skin_area, const TransformedShape& transformed_supported_area)
{
    std::vector<coord_t> skin_outline_intersections = shapeLineIntersections(line_y, transformed_skin_area);
    if (skin_outline_intersections.size() < 2)
    {
        return 0;
    }
    ranges::stable_sort(skin_outline_intersections);
    std::vector<coord_t> supported_regions_intersections = shapeLineIntersections(line_y, transformed_supported_area);
    ranges::stable_sort(supported_regions_intersections);
    enum class BridgeStatus
    {
        Outside,
        Hanging,
        Anchored,
        Supported,
    };
    bool inside_skin_area = false;
    bool inside_supported_area = false;
    coord_t last_position;
    coord_t segment_score = 0;
    BridgeStatus bridge_status = BridgeStatus::Outside;
    while (! skin_outline_intersections.empty() || ! supported_regions_intersections.empty())
    {
        bool next_intersection_is_skin_area = false;
        bool next_intersection_is_supported_area = false;
        if (skin_outline_intersections.empty())
        {
            next_intersection_is_supported_area = true;
        }
        else if (supported_regions_intersections.empty())
        {
            next_intersection_is_skin_area = true;
        }
        else
        {
            const double next_intersection_skin_area = skin_outline_intersections.front();
            const double next_intersection_supported_area = supported_regions_intersections.front();
            if (is_zero(next_intersection_skin_area - next_intersection_supported_area))
            {
                next_intersection_is_skin_area = true;
                next_intersection_is_supported_area = true;
            }
            else if (next_intersection_skin_area <= next_intersection_supported_area)
            {
                next_intersection_is_skin_area = true;
                if (inside_skin_area && inside_supported_area)
                {
                    next_intersection_is_supported_area = true;
                }
            }
            else
            {
                next_intersection_is_supported_area = true;
                if (! inside_supported_area && ! inside_skin_area)
                {
                    next_intersection_is_skin_area = true;
                }
            }
        }
        bool next_inside_skin_area = inside_skin_area;
        bool next_inside_supported_area = inside_supported_area;
        coord_t next_intersection;
        if (next_intersection_is_skin_area)
        {
            next_intersection = skin_outline_intersections.front();
            skin_outline_intersections.erase(skin_outline_intersections.begin());
            next_inside_skin_area = ! next_inside_skin_area;
        }
        if (next_intersection_is_supported_area)
        {
            next_intersection = supported_regions_intersections.front();
            supported_regions_intersections.erase(supported_regions_intersections.begin());
            next_inside_supported_area = ! next_inside_supported_area;
        }
        const bool leaving_skin = next_intersection_is_skin_area && ! next_inside_skin_area;
        const bool reaching_supported = next_intersection_is_supported_area && next_inside_supported_area;
        double add_segment_score_weight = 0.0;
        switch (bridge_status)
        {
        case BridgeStatus::Outside:
            bridge_status = reaching_supported ? BridgeStatus::Supported : BridgeStatus::Hanging;
            break;
        case BridgeStatus::Supported:
            bridge_status = leaving_skin ? BridgeStatus::Outside : BridgeStatus::Anchored;
            add_segment_score_weight = -0.1;
            break;
        case BridgeStatus::Hanging:
            add_segment_score_weight = -1.0;
            bridge_status = reaching_supported ? BridgeStatus::Supported : BridgeStatus::Outside;
            break;
        case BridgeStatus::Anchored:
            if (reaching_supported)
            {
                add_segment_score_weight = 1.0;
                bridge_status = BridgeStatus::Supported;
            }
            else if (leaving_skin)
            {
                add_segment_score_weight = -1.0;
                bridge_status = BridgeStatus::Outside;
            }
            break;
        }
        if (add_segment_score_weight != 0.0)
        {
            const coord_t segment_length = next_intersection - last_position;
            segment_score += std::llrint(segment_length * add_segment_score_weight);
        }
        last_position = next_intersection;
        inside_skin_area = next_inside_skin_area;
        inside_supported_area = next_inside_supported_area;
    }
    return segment_score;
}
//END
//= cura::evaluateBridgeLines
coord_t evaluateBridgeLines(const Shape& skin_outline, const Shape& supported_regions, const coord_t line_width, const AngleDegrees& angle)
{
    const PointMatrix matrix(angle);
    const TransformedShape transformed_skin_area(skin_outline, matrix);
    const TransformedShape transformed_supported_area(supported_regions, matrix);
    if (transformed_skin_area.minY() >= transformed_skin_area.maxY() || transformed_supported_area.minY() >= transformed_supported_area.maxY())
    {
        return std::numeric_limits<coord_t>::lowest();
    }
    const size_t bridge_lines_count = (transformed_skin_area.maxY() - transformed_skin_area.minY()) / line_width;
    if (bridge_lines_count == 0)
    {
        return std::numeric_limits<coord_t>::lowest();
    }
    const coord_t line_min = transformed_skin_area.minY() + line_width * 0.5;
    coord_t line_score = 0;
    const TransformedShape empty_transformed_shape;
    for (size_t i = 0; i < bridge_lines_count; ++i)
    {
        const coord_t line_y = line_min + i * line_width;
        const bool has_supports = line_y >= transformed_supported_area.minY() && line_y <= transformed_supported_area.maxY();
        line_score += evaluateBridgeLine(line_y, transformed_skin_area, has_supports ? transformed_supported_area : empty_transformed_shape);
    }
    return line_score;
}
//END
AngleDegrees bridgeOverInfillAngle(const SliceMeshStorage& mesh, const unsigned layer_nr)
{
    if (layer_nr == 0)
    {
        return 0;
    }
    const std::vector<AngleDegrees>& infill_angles = mesh.infill_angles;
    assert(! infill_angles.empty());
    const AngleDegrees infill_angle_below = infill_angles[(layer_nr - 1) % infill_angles.size()];
    const auto infill_pattern = mesh.settings.get<EFillMethod>("infill_pattern");
    AngleDegrees bridge_angle;
    switch (infill_pattern)
    {
    case EFillMethod::CROSS:
    case EFillMethod::CROSS_3D:
        bridge_angle = 22.5;
        break;
    case EFillMethod::GYROID:
    case EFillMethod::CONCENTRIC:
    case EFillMethod::LIGHTNING:
    case EFillMethod::PLUGIN:
    case EFillMethod::NONE:
        bridge_angle = 45;
        break;
    case EFillMethod::CUBICSUBDIV:
        bridge_angle = infill_angle_below + 45;
        break;
    case EFillMethod::TRIANGLES:
    case EFillMethod::LINES:
    case EFillMethod::TRIHEXAGON:
    case EFillMethod::CUBIC:
    case EFillMethod::ZIG_ZAG:
    case EFillMethod::HONEYCOMB:
    case EFillMethod::OCTAGON:
        bridge_angle = infill_angle_below + 90;
        break;
    case EFillMethod::QUARTER_CUBIC:
    case EFillMethod::TETRAHEDRAL:
    case EFillMethod::GRID:
        bridge_angle = infill_angle_below;
        break;
    }
    return bridge_angle;
}
//= cura::bridgeAngle
std::optional<AngleDegrees> bridgeAngle(
    const SliceMeshStorage& mesh,
    const Shape& skin_outline,
    const SliceDataStorage& storage,
    const unsigned layer_nr,
    const unsigned bridge_layer,
    const SupportLayer* support_layer,
    Shape& supported_regions)
{
    const Settings& settings = mesh.settings;
    const bool bridge_settings_enabled = settings.get<bool>("bridge_settings_enabled");
    if (! bridge_settings_enabled)
    {
        return std::nullopt;
    }
    AABB boundary_box(skin_outline);
    const coord_t line_width = settings.get<coord_t>("skin_line_width");
    Shape islands;
    Shape prev_layer_outline;
    Shape prev_layer_infill;
    for (const std::shared_ptr<SliceMeshStorage>& mesh_ptr : storage.meshes)
    {
        const auto& mesh = *mesh_ptr;
        if (mesh.isPrinted())
        {
            const coord_t infill_line_distance = mesh.settings.get<coord_t>("infill_line_distance");
            const bool part_has_sparse_infill = infill_line_distance == 0;
            for (const SliceLayerPart& prev_layer_part : mesh.layers[layer_nr - bridge_layer].parts)
            {
                Shape prev_layer_part_infill = prev_layer_part.getOwnInfillArea();
                prev_layer_infill = prev_layer_infill.unionPolygons(prev_layer_part_infill);
                Shape solid_below(prev_layer_part.outline);
                if (bridge_layer == 1 && part_has_sparse_infill)
                {
                    solid_below = solid_below.difference(prev_layer_part_infill);
                }
                prev_layer_outline.push_back(solid_below);
                if (! boundary_box.hit(prev_layer_part.boundaryBox))
                    continue;
                islands.push_back(skin_outline.intersection(solid_below));
            }
        }
    }
    supported_regions = islands;
    if (support_layer)
    {
        if (! support_layer->support_roof.empty())
        {
            AABB support_roof_bb(support_layer->support_roof);
            if (boundary_box.hit(support_roof_bb))
            {
                prev_layer_outline.push_back(support_layer->support_roof);
                Shape supported_skin(skin_outline.intersection(support_layer->support_roof));
                if (! supported_skin.empty())
                {
                    supported_regions.push_back(supported_skin);
                }
            }
        }
        else
        {
            for (const SupportInfillPart& support_part : support_layer->support_infill_parts)
            {
                AABB support_part_bb(support_part.outline_);
                if (boundary_box.hit(support_part_bb))
                {
                    prev_layer_outline.push_back(support_part.outline_);
                    Shape supported_skin(skin_outline.intersection(support_part.outline_));
                    if (! supported_skin.empty())
                    {
                        supported_regions.push_back(supported_skin);
                    }
                }
            }
        }
    }
    const Ratio support_threshold = settings.get<Ratio>("bridge_skin_support_threshold");
    if (support_threshold == 0 || (supported_regions.area() / (skin_outline.area() + 1)) >= support_threshold)
    {
        return std::nullopt;
    }
    prev_layer_infill = skin_outline.intersection(prev_layer_infill);
    const Ratio infill_ratio = prev_layer_infill.area() / (skin_outline.area() + 1);
    if (infill_ratio > 0.5)
    {
        return bridgeOverInfillAngle(mesh, layer_nr);
    }
    struct FitAngle
    {
        coord_t score;
        std::optional<AngleDegrees> angle;
    };
    OpenLinesSet bridge_area_lines;
    for (auto& path : skin_outline)
    {
        bridge_area_lines.push_back(path.toPseudoOpenPolyline());
    }
    bridge_area_lines = bridge_area_lines.difference(supported_regions.offset(10));
    if (bridge_area_lines.empty())
    {
        auto skin_outline_ = skin_outline;
        skin_outline_.makeConvex();
        auto [aabb, angle] = AABB::minimumAreaOrientedBoundingBox(skin_outline_);
        if (aabb.height() > aabb.width())
        {
            angle += AngleDegrees(90);
        }
        return -AngleDegrees(angle);
    }
    FitAngle best_angle{ std::numeric_limits<coord_t>::lowest(), std::nullopt };
    for (AngleDegrees angle = 0; angle < 180; angle += 1)
    {
        const coord_t score = evaluateBridgeLines(skin_outline, supported_regions, line_width, angle);
        if (score > best_angle.score)
        {
            best_angle = { score, angle + 90 };
        }
    }
    return best_angle.angle;
}
//END
std::vector<ExpansionRange> makeExpandedRanges(const TransformedSegment& segment, const std::vector<TransformedSegment>& infill_lines_below, const int8_t expand_direction)
{
    std::vector<ExpansionRange> expanded_ranges;
    expanded_ranges.push_back(ExpansionRange(segment.minY(), segment.maxY(), &segment));
    if (! expanded_ranges.front().isValid())
    {
        return expanded_ranges;
    }
    for (const TransformedSegment& infill_line_below : infill_lines_below)
    {
        const std::optional<SegmentOverlapping> overlapping = segment.calculateOverlapping(infill_line_below, expand_direction);
        if (! overlapping.has_value())
        {
            continue;
        }
        const TransformedSegment& line_part = overlapping->other_overlapping_part;
        std::vector<ExpansionRange> new_expanded_ranges;
        std::optional<ExpansionRange> replacing_range;
        const auto commit_replacing_range = [&replacing_range, &new_expanded_ranges]()
        {
            if (replacing_range.has_value())
            {
                if (replacing_range->isValid())
                {
                    new_expanded_ranges.push_back(*replacing_range);
                }
                replacing_range.reset();
            }
        };
        for (const ExpansionRange& expanded_range : expanded_ranges)
        {
            const std::optional<SegmentOverlapping> range_overlapping = expanded_range.calculateOverlapping(line_part, -expand_direction);
            if (! range_overlapping.has_value())
            {
                commit_replacing_range();
                new_expanded_ranges.push_back(std::move(expanded_range));
                continue;
            }
            if (range_overlapping->type != SegmentOverlappingType::Bottom && range_overlapping->type != SegmentOverlappingType::Full)
            {
                commit_replacing_range();
                ExpansionRange cropped_range_bottom = std::move(expanded_range);
                cropped_range_bottom.cropTop(range_overlapping->other_overlapping_part.minY());
                if (cropped_range_bottom.isValid())
                {
                    new_expanded_ranges.push_back(std::move(cropped_range_bottom));
                }
            }
            if (! replacing_range.has_value())
            {
                replacing_range = ExpansionRange(range_overlapping->other_overlapping_part, &infill_line_below);
            }
            else
            {
                replacing_range->setProjectedEnd(range_overlapping->other_overlapping_part.getEnd());
            }
            if (range_overlapping->type != SegmentOverlappingType::Top && range_overlapping->type != SegmentOverlappingType::Full)
            {
                commit_replacing_range();
                ExpansionRange cropped_range_top = std::move(expanded_range);
                cropped_range_top.cropBottom(range_overlapping->other_overlapping_part.maxY());
                if (cropped_range_top.isValid())
                {
                    new_expanded_ranges.push_back(std::move(cropped_range_top));
                }
            }
        }
        commit_replacing_range();
        if (! new_expanded_ranges.empty())
        {
            expanded_ranges = std::move(new_expanded_ranges);
        }
    }
    return expanded_ranges;
}
//= cura::updateExpandedPolygon
void updateExpandedPolygon(
    const TransformedSegment& segment,
    const std::vector<ExpansionRange>& expanded_ranges,
    const int8_t expand_direction,
    Polygon& expanded_polygon,
    const TransformedSegment*& current_supporting_infill_line)
{
    for (const ExpansionRange& expanded_range : expanded_ranges)
    {
        if (expanded_range.getSupportingSegment() == current_supporting_infill_line)
        {
            continue;
        }
        if (current_supporting_infill_line == nullptr)
        {
            if (! expanded_range.isProjected())
            {
                expanded_polygon.push_back(segment.getStart());
            }
            else
            {
                expanded_polygon.push_back(expand_direction > 0 ? expanded_range.getProjectedSegment().getStart() : expanded_range.getProjectedSegment().getEnd());
            }
        }
        else
        {
            Point2LL next_start_position;
            if (! expanded_range.isProjected())
            {
                const coord_t position_switch_y = expand_direction > 0 ? expanded_range.minY() : expanded_range.maxY();
                next_start_position = Point2LL(LinearAlg2D::lineHorizontalLineIntersection(segment.getStart(), segment.getEnd(), position_switch_y).value_or(0), position_switch_y);
            }
            else
            {
                next_start_position = expand_direction > 0 ? expanded_range.getProjectedSegment().getStart() : expanded_range.getProjectedSegment().getEnd();
            }
            expanded_polygon.pushBackIfFormingSegment(Point2LL(
                LinearAlg2D::lineHorizontalLineIntersection(current_supporting_infill_line->getStart(), current_supporting_infill_line->getEnd(), next_start_position.Y)
                    .value_or(0),
                next_start_position.Y));
            expanded_polygon.pushBackIfFormingSegment(next_start_position);
        }
        current_supporting_infill_line = expanded_range.getSupportingSegment();
    }
}
//END
//= cura::expandSegment
void expandSegment(
    const TransformedSegment& segment,
    const std::vector<TransformedSegment>& infill_lines_below,
    Polygon& expanded_polygon,
    const TransformedSegment*& current_supporting_infill_line)
{
    const int8_t expand_direction = sign(segment.getEnd().Y - segment.getStart().Y);
    std::vector<ExpansionRange> expanded_ranges = makeExpandedRanges(segment, infill_lines_below, expand_direction);
    if (expand_direction < 0)
    {
        ranges::reverse(expanded_ranges);
    }
    updateExpandedPolygon(segment, expanded_ranges, expand_direction, expanded_polygon, current_supporting_infill_line);
}
//END
//= cura::makeBridgeOverInfillPrintable
std::tuple<Shape, AngleDegrees> makeBridgeOverInfillPrintable(
    const Shape& infill_contour,
    const Shape& infill_below_skin_area,
    const SliceMeshStorage& mesh,
    const LayerPlan* completed_layer_plan_below,
    const unsigned layer_nr)
{
    if (layer_nr == 0 || infill_below_skin_area.empty())
    {
        return {};
    }
    Shape unsupported_infill_below_skin_area = infill_below_skin_area;
    for (const SliceLayerPart& part_below : mesh.layers[layer_nr - 1].parts)
    {
        for (const SkinPart& skin_part_below : part_below.skin_parts)
        {
            unsupported_infill_below_skin_area = unsupported_infill_below_skin_area.difference(skin_part_below.outline);
        }
    }
    if (unsupported_infill_below_skin_area.empty())
    {
        return {};
    }
    const AngleDegrees bridge_angle = bridgeOverInfillAngle(mesh, layer_nr);
    const AngleDegrees expansion_angle = bridge_angle + 90;
    const MixedLinesSet infill_lines_below = completed_layer_plan_below->getGeneratedInfillLines(&mesh);
    const PointMatrix matrix(expansion_angle);
    TransformedShape filtered_infill_lines_below(matrix);
    constexpr bool filter_out_horizontal = true;
    for (const PolylinePtr& infill_line_below : infill_lines_below)
    {
        for (auto iterator = infill_line_below->cbeginSegments(); iterator != infill_line_below->cendSegments(); ++iterator)
        {
            filtered_infill_lines_below.addSegment((*iterator).start, (*iterator).end, filter_out_horizontal);
        }
    }
    filtered_infill_lines_below.addShape(infill_contour, filter_out_horizontal);
    Shape transformed_expanded_infill_below_skin_area;
    for (const Polygon& infill_below_skin_polygon : unsupported_infill_below_skin_area)
    {
        const TransformedShape transformed_infill_below_skin_polygon(infill_below_skin_polygon, matrix);
        Polygon expanded_polygon;
        const TransformedSegment* current_supporting_infill_line = nullptr;
        for (const TransformedSegment& transformed_infill_below_skin_segment : transformed_infill_below_skin_polygon.getSegments())
        {
            expandSegment(transformed_infill_below_skin_segment, filtered_infill_lines_below.getSegments(), expanded_polygon, current_supporting_infill_line);
        }
        transformed_expanded_infill_below_skin_area.push_back(std::move(expanded_polygon));
    }
    transformed_expanded_infill_below_skin_area.applyMatrix(matrix.inverse());
    transformed_expanded_infill_below_skin_area = transformed_expanded_infill_below_skin_area.offset(EPSILON).offset(-EPSILON).intersection(infill_contour);
    return { transformed_expanded_infill_below_skin_area, bridge_angle };
}
//END
bool isWallTipAnchored(
    const Shape& bridge_mask,
    const PathAdapter<ExtrusionLine>& wall,
    const size_t tip_index,
    const Point2LL& tip,
    const Point2LL& other_tip,
    const bool tip_inside_bridge_mask,
    const std::ptrdiff_t segment_direction,
    const coord_t min_anchoring_length,
    const std::vector<float>& intersections)
{
    coord_t remaining_anchoring_length = min_anchoring_length;
    if (! tip_inside_bridge_mask)
    {
        const float closest_intersection = segment_direction > 0 ? intersections.front() : (1.0 - intersections.back());
        const coord_t segment_length = vSize(other_tip - tip);
        const coord_t inside_anchoring_length = closest_intersection * segment_length;
        remaining_anchoring_length -= inside_anchoring_length;
    }
    if (remaining_anchoring_length > 0)
    {
        const coord_t max_outside_search_length = min_anchoring_length * 2;
        coord_t remaining_search_length = max_outside_search_length;
        bool over_air = tip_inside_bridge_mask;
        Point2LL following_segment_p0 = tip;
        ptrdiff_t next_point_index = tip_index;
        const auto increment_index = [&next_point_index, segment_direction, &wall]()
        {
            next_point_index = ((next_point_index - segment_direction) + wall.size()) % wall.size();
        };
        const auto account_for_segment = [&over_air, &remaining_anchoring_length, &remaining_search_length](const Point2LL& start, const Point2LL& end)
        {
            const coord_t segment_length = vSize(end - start);
            if (! over_air)
            {
                remaining_anchoring_length -= std::min(remaining_search_length, segment_length);
            }
            remaining_search_length = std::max(static_cast<coord_t>(0), remaining_search_length - segment_length);
        };
        increment_index();
        while (remaining_search_length > 0 && remaining_anchoring_length > 0)
        {
            const Point2LL following_segment_p1 = wall.pointAt(next_point_index);
            std::vector<float> following_segment_intersections = bridge_mask.intersectionsWithSegment(following_segment_p0, following_segment_p1);
            Point2LL current_position = following_segment_p0;
            ranges::stable_sort(following_segment_intersections);
            for (const float next_intersection : following_segment_intersections)
            {
                const Point2LL next_intersection_position = lerp(following_segment_p0, following_segment_p1, next_intersection);
                account_for_segment(current_position, next_intersection_position);
                over_air = ! over_air;
                current_position = next_intersection_position;
            }
            account_for_segment(current_position, following_segment_p1);
            following_segment_p0 = following_segment_p1;
            increment_index();
        }
    }
    return remaining_anchoring_length <= 0;
}
//= cura::wallSegmentUsesBridging
std::vector<std::tuple<Ratio, Ratio>> wallSegmentUsesBridging(
    const AABB& bridge_mask_bb,
    const Shape& bridge_mask,
    const PathAdapter<ExtrusionLine>& wall,
    const size_t segment_index,
    const Ratio& segment_start_ratio,
    const Ratio& segment_end_ratio,
    const coord_t min_bridge_line_len,
    const coord_t line_width)
{
    const size_t p0_index = segment_index;
    const size_t p1_index = (segment_index + 1) % wall.size();
    const Point2LL& p0 = wall.pointAt(p0_index);
    const Point2LL& p1 = wall.pointAt(p1_index);
    const coord_t segment_length = vSize(p0 - p1);
    if (! bridge_mask_bb.hit(AABB({ p0, p1 })) || segment_length < min_bridge_line_len)
    {
        return {};
    }
    const bool p0_inside_mask = bridge_mask.inside(p0);
    const bool p1_inside_mask = bridge_mask.inside(p1);
    std::vector<float> intersections = bridge_mask.intersectionsWithSegment(p0, p1);
    if (! p0_inside_mask && ! p1_inside_mask && intersections.empty())
    {
        return {};
    }
    const coord_t min_anchoring_length = line_width;
    ranges::stable_sort(intersections);
    if (! isWallTipAnchored(bridge_mask, wall, p0_index, p0, p1, p0_inside_mask, 1, min_anchoring_length, intersections)
        || ! isWallTipAnchored(bridge_mask, wall, p1_index, p1, p0, p1_inside_mask, -1, min_anchoring_length, intersections))
    {
        return {};
    }
    Ratio current_position = 0.0;
    bool bridging = p0_inside_mask;
    std::vector<std::tuple<Ratio, Ratio>> bridging_subsegments;
    const auto add_bridging_subsegment
        = [&bridging_subsegments, min_bridge_line_len, segment_length, &segment_start_ratio, &segment_end_ratio](const Ratio& start, const Ratio& end)
    {
        const coord_t bridge_line_len = (end - start) * segment_length;
        if (bridge_line_len >= min_bridge_line_len && end >= segment_start_ratio && start <= segment_end_ratio)
        {
            const Ratio full_segment_start_ratio = std::max(start, segment_start_ratio);
            const Ratio full_segment_end_ratio = std::min(end, segment_end_ratio);
            const Ratio sub_segment_start_ratio = inverse_lerp(segment_start_ratio.value, segment_end_ratio.value, full_segment_start_ratio.value);
            const Ratio sub_segment_end_ratio = inverse_lerp(segment_start_ratio.value, segment_end_ratio.value, full_segment_end_ratio.value);
            bridging_subsegments.push_back(std::make_tuple(sub_segment_start_ratio, sub_segment_end_ratio));
        }
    };
    for (const float next_intersection : intersections)
    {
        if (bridging)
        {
            add_bridging_subsegment(current_position, next_intersection);
        }
        current_position = next_intersection;
        bridging = ! bridging;
    }
    if (bridging)
    {
        add_bridging_subsegment(current_position, 1.0);
    }
    return bridging_subsegments;
}
//END
}
