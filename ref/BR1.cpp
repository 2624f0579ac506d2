// Bridges.
#include <algorithm>
#include <array>
#include <unordered_set>
#include <unordered_map>
#include <set>
#include <map>
#include <list>
#include <vector>
#include <deque>
#include <memory>
#include <numeric>
#include <optional>
#include <functional>
#include <string>
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "geometry/Polygon.h"
#include "geometry/OpenPolyline.h"
#include "geometry/SingleShape.h"
#include "geometry/MixedLinesSet.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "raft.h"
#include "LayerPlan.h"
#include "PathAdapter.h"
#include "bridge/ExpansionRange.h"
#include "bridge/SegmentOverlapping.h"
#include "bridge/SegmentOverlappingData.h"
#include "bridge/SegmentOverlappingType.h"
#include "bridge/TransformedSegment.h"
#include "bridge/TransformedShape.h"
#include "bridge/bridge.h"
#include "geometry/Point2LL.h"
#include "geometry/PointMatrix.h"
#include "geometry/Polygon.h"
#include "geometry/Shape.h"
#include "settings/EnumSettings.h"
#include "settings/types/Ratio.h"
#include "sliceDataStorage.h"
#include "utils/AABB.h"
#include "utils/Coord_t.h"
#include "utils/linearAlg2D.h"
#include "utils/math.h"
#include "utils/types/geometry.h"
#include <algorithm>
#include <optional>
#include <range/v3/action/stable_sort.hpp>
#include <range/v3/algorithm/reverse.hpp>
#include <tuple>
#include "bridge/ExpansionRange.h"
#include "bridge/SegmentOverlapping.h"
#include "bridge/SegmentOverlappingData.h"
#include "bridge/SegmentOverlappingType.h"
#include "bridge/TransformedSegment.h"
#include "bridge/TransformedShape.h"
#include "bridge/bridge.h"
#include "ref.h"

namespace ref
{
using namespace cura;

//= cura::ExpansionRange::calculateOverlapping
std::optional<SegmentOverlapping> r1(const cura::ExpansionRange& self, const TransformedSegment& other, const int8_t expand_direction)
{
    if (self.is_projected_)
    {
        return self.data_.segment.calculateOverlapping(other, expand_direction);
    }
    if (fuzzy_is_greater_or_equal(other.minY(), self.maxY()) || fuzzy_is_lesser_or_equal(other.maxY(), self.minY()))
    {
        return std::nullopt;
    }
    const SegmentOverlappingData overlapping(self.data_.range.min_y, self.data_.range.max_y, other.minY(), other.maxY(), nullptr, nullptr, other.getStart(), other.getEnd());
    const bool overlap_top = (other.maxY() == self.data_.range.max_y);
    const bool overlap_bottom = (other.minY() == self.data_.range.min_y);
    return SegmentOverlapping{ TransformedSegment::makeNonIntersectingOverlapping(overlap_top, overlap_bottom), overlapping.makeOtherOverlappingPart() };
}

//= cura::SegmentOverlappingData::SegmentOverlappingData
void r2(cura::SegmentOverlappingData& self, const coord_t this_min_y, const coord_t this_max_y, const coord_t other_min_y, const coord_t other_max_y, const Point2LL* this_start, const Point2LL* this_end, const Point2LL& other_start, const Point2LL& other_end)
{
        member(self.y_min) = {std::max(this_min_y, other_min_y)};
        member(self.y_max) = {std::min(this_max_y, other_max_y)};
        member(self.this_x_min) = {this_start != nullptr ? LinearAlg2D::lineHorizontalLineIntersection(*this_start, *this_end, self.y_min).value() : 0};
        member(self.this_x_max) = {this_start != nullptr ? LinearAlg2D::lineHorizontalLineIntersection(*this_start, *this_end, self.y_max).value() : 0};
        member(self.other_x_min) = {LinearAlg2D::lineHorizontalLineIntersection(other_start, other_end, self.y_min).value()};
        member(self.other_x_max) = {LinearAlg2D::lineHorizontalLineIntersection(other_start, other_end, self.y_max).value()};
}

//= cura::SegmentOverlappingData::makeOtherOverlappingPart
TransformedSegment r3(const cura::SegmentOverlappingData& self)
{
    return TransformedSegment(Point2LL(self.other_x_min, self.y_min), Point2LL(self.other_x_max, self.y_max));
}

//= cura::TransformedSegment::TransformedSegment
void r4(cura::TransformedSegment& self, const Point2LL& start, const Point2LL& end, const PointMatrix& matrix)
{
        base<TransformedSegment>(self) = ::cura::TransformedSegment(matrix.apply(start), matrix.apply(end));
}

//= cura::TransformedSegment::updateMinMax
void r5(cura::TransformedSegment& self)
{
    std::tie(self.min_y_, self.max_y_) = std::minmax(self.start_.Y, self.end_.Y);
}

//= cura::TransformedSegment::cropTop
void r6(cura::TransformedSegment& self, const coord_t new_max_y_)
{
    self.setEnd(Point2LL(LinearAlg2D::lineHorizontalLineIntersection(self.start_, self.end_, new_max_y_).value_or(0), new_max_y_));
}

//= cura::TransformedSegment::cropBottom
void r7(cura::TransformedSegment& self, const coord_t new_min_y_)
{
    self.setStart(Point2LL(LinearAlg2D::lineHorizontalLineIntersection(self.start_, self.end_, new_min_y_).value_or(0), new_min_y_));
}

//= cura::TransformedSegment::calculateOverlapping
std::optional<SegmentOverlapping> r8(const cura::TransformedSegment& self, const TransformedSegment& other, const int8_t expand_direction)
{
    if (fuzzy_is_greater_or_equal(other.min_y_, self.max_y_) || fuzzy_is_lesser_or_equal(other.max_y_, self.min_y_))
    {
        return std::nullopt;
    }
    const SegmentOverlappingData overlapping(self.min_y_, self.max_y_, other.min_y_, other.max_y_, &self.start_, &self.end_, other.start_, other.end_);
    if (fuzzy_equal(overlapping.this_x_min, overlapping.other_x_min) && fuzzy_equal(overlapping.this_x_max, overlapping.other_x_max))
    {
        return std::nullopt;
    }
    int8_t sign_min = sign(overlapping.other_x_min - overlapping.this_x_min);
    int8_t sign_max = sign(overlapping.other_x_max - overlapping.this_x_max);
    const bool overlap_top = (overlapping.y_max == self.max_y_);
    const bool overlap_bottom = (overlapping.y_min == self.min_y_);
    TransformedSegment line_part = overlapping.makeOtherOverlappingPart();
    if (sign_min != sign_max)
    {
        float intersection_segment;
        float intersection_infill_line;
        if (LinearAlg2D::segmentSegmentIntersection(self.start_, self.end_, other.start_, other.end_, intersection_segment, intersection_infill_line))
        {
            const Point2LL intersection = lerp(self.start_, self.end_, intersection_segment);
            if (intersection.Y >= overlapping.y_max - EPSILON)
            {
                sign_max = sign_min;
            }
            else if (intersection.Y <= overlapping.y_min + EPSILON)
            {
                sign_min = sign_max;
            }
            else
            {
                SegmentOverlappingType type;
                if (sign_max == expand_direction)
                {
                    type = overlap_top ? SegmentOverlappingType::Top : SegmentOverlappingType::Middle;
                    line_part.setStart(intersection);
                }
                else
                {
                    type = overlap_bottom ? SegmentOverlappingType::Bottom : SegmentOverlappingType::Middle;
                    line_part.setEnd(intersection);
                }
                return SegmentOverlapping{ type, line_part };
            }
        }
    }
    if (sign_min != expand_direction)
    {
        return std::nullopt;
    }
    else
    {
        return SegmentOverlapping{ self.makeNonIntersectingOverlapping(overlap_top, overlap_bottom), line_part };
    }
}

//= cura::TransformedSegment::makeNonIntersectingOverlapping
SegmentOverlappingType r9(const bool overlap_top, const bool overlap_bottom)
{
    if (overlap_top && overlap_bottom)
    {
        return SegmentOverlappingType::Full;
    }
    else if (overlap_bottom)
    {
        return SegmentOverlappingType::Bottom;
    }
    else if (overlap_top)
    {
        return SegmentOverlappingType::Top;
    }
    else
    {
        return SegmentOverlappingType::Middle;
    }
}

//= cura::TransformedShape::TransformedShape
void r10(cura::TransformedShape& self, const PointMatrix& matrix)
{
        member(self.matrix_) = matrix;
}

//= cura::TransformedShape::TransformedShape
void r11(cura::TransformedShape& self, const Shape& shape, const PointMatrix& matrix)
{
        base<TransformedShape>(self) = ::cura::TransformedShape(matrix);
    self.addShape(shape);
}

//= cura::TransformedShape::TransformedShape
void r12(cura::TransformedShape& self, const Polygon& polygon, const PointMatrix& matrix)
{
        base<TransformedShape>(self) = ::cura::TransformedShape(matrix);
    self.addPolygon(polygon);
}

//= cura::TransformedShape::addShape
void r13(cura::TransformedShape& self, const Shape& shape, const bool filter_out_horizontal)
{
    self.segments_.reserve(self.segments_.size() + shape.pointCount());
    for (const Polygon& polygon : shape)
    {
        constexpr bool reserve_size = false;
        self.addPolygon(polygon, filter_out_horizontal, reserve_size);
    }
}

//= cura::TransformedShape::addPolygon
void r14(cura::TransformedShape& self, const Polygon& polygon, const bool filter_out_horizontal, const bool reserve_size)
{
    if (reserve_size)
    {
        self.segments_.reserve(self.segments_.size() + polygon.size());
    }
    for (auto iterator = polygon.beginSegments(); iterator != polygon.endSegments(); ++iterator)
    {
        self.addSegment((*iterator).start, (*iterator).end, filter_out_horizontal);
    }
}

//= cura::TransformedShape::addSegment
void r15(cura::TransformedShape& self, const Point2LL& start, const Point2LL& end, const bool filter_out_horizontal)
{
    TransformedSegment segment(start, end, self.matrix_);
    if (filter_out_horizontal && fuzzy_equal(segment.minY(), segment.maxY()))
    {
        return;
    }
    self.min_y_ = std::min(self.min_y_, segment.minY());
    self.max_y_ = std::max(self.max_y_, segment.maxY());
    self.segments_.push_back(std::move(segment));
}

//= cura::shapeLineIntersections
std::vector<coord_t> r16(const coord_t line_y, const TransformedShape& transformed_shape)
{
    std::vector<coord_t> intersections;
    for (const TransformedSegment& transformed_segment : transformed_shape.getSegments())
    {
        if (transformed_segment.minY() > line_y || transformed_segment.maxY() < line_y)
        {
            continue;
        }
        const std::optional<coord_t> intersection = LinearAlg2D::lineHorizontalLineIntersection(transformed_segment.getStart(), transformed_segment.getEnd(), line_y);
        if (intersection.has_value())
        {
            intersections.push_back(intersection.value());
        }
    }
    return intersections;
}

//= cura::bridgeOverInfillAngle
AngleDegrees r19(const SliceMeshStorage& mesh, const unsigned layer_nr)
{
    if (layer_nr == 0)
    {
        return 0;
    }
    const std::vector<AngleDegrees>& infill_angles = mesh.infill_angles;
    const AngleDegrees infill_angle_below = infill_angles[(layer_nr - 1) % infill_angles.size()];
    const auto infill_pattern = mesh.settings.get<EFillMethod>("infill_pattern");
    AngleDegrees bridge_angle;
    switch (infill_pattern)
    {
    case EFillMethod::CROSS:
    case EFillMethod::CROSS_3D:
        bridge_angle = 22.5;
        break;
    case EFillMethod::GYROID:
    case EFillMethod::CONCENTRIC:
    case EFillMethod::LIGHTNING:
    case EFillMethod::PLUGIN:
    case EFillMethod::NONE:
        bridge_angle = 45;
        break;
    case EFillMethod::CUBICSUBDIV:
        bridge_angle = infill_angle_below + 45;
        break;
    case EFillMethod::TRIANGLES:
    case EFillMethod::LINES:
    case EFillMethod::TRIHEXAGON:
    case EFillMethod::CUBIC:
    case EFillMethod::ZIG_ZAG:
    case EFillMethod::HONEYCOMB:
    case EFillMethod::OCTAGON:
        bridge_angle = infill_angle_below + 90;
        break;
    case EFillMethod::QUARTER_CUBIC:
    case EFillMethod::TETRAHEDRAL:
    case EFillMethod::GRID:
        bridge_angle = infill_angle_below;
        break;
    }
    return bridge_angle;
}

//= cura::makeExpandedRanges
std::vector<ExpansionRange> r21(const TransformedSegment& segment, const std::vector<TransformedSegment>& infill_lines_below, const int8_t expand_direction)
{
    std::vector<ExpansionRange> expanded_ranges;
    expanded_ranges.push_back(ExpansionRange(segment.minY(), segment.maxY(), &segment));
    if (! expanded_ranges.front().isValid())
    {
        return expanded_ranges;
    }
    for (const TransformedSegment& infill_line_below : infill_lines_below)
    {
        const std::optional<SegmentOverlapping> overlapping = segment.calculateOverlapping(infill_line_below, expand_direction);
        if (! overlapping.has_value())
        {
            continue;
        }
        const TransformedSegment& line_part = overlapping->other_overlapping_part;
        std::vector<ExpansionRange> new_expanded_ranges;
        std::optional<ExpansionRange> replacing_range;
        const auto commit_replacing_range = [&replacing_range, &new_expanded_ranges]()
        {
            if (replacing_range.has_value())
            {
                if (replacing_range->isValid())
                {
                    new_expanded_ranges.push_back(*replacing_range);
                }
                replacing_range.reset();
            }
        };
        for (const ExpansionRange& expanded_range : expanded_ranges)
        {
            const std::optional<SegmentOverlapping> range_overlapping = expanded_range.calculateOverlapping(line_part, -expand_direction);
            if (! range_overlapping.has_value())
            {
                commit_replacing_range();
                new_expanded_ranges.push_back(std::move(expanded_range));
                continue;
            }
            if (range_overlapping->type != SegmentOverlappingType::Bottom && range_overlapping->type != SegmentOverlappingType::Full)
            {
                commit_replacing_range();
                ExpansionRange cropped_range_bottom = std::move(expanded_range);
                cropped_range_bottom.cropTop(range_overlapping->other_overlapping_part.minY());
                if (cropped_range_bottom.isValid())
                {
                    new_expanded_ranges.push_back(std::move(cropped_range_bottom));
                }
            }
            if (! replacing_range.has_value())
            {
                replacing_range = ExpansionRange(range_overlapping->other_overlapping_part, &infill_line_below);
            }
            else
            {
                replacing_range->setProjectedEnd(range_overlapping->other_overlapping_part.getEnd());
            }
            if (range_overlapping->type != SegmentOverlappingType::Top && range_overlapping->type != SegmentOverlappingType::Full)
            {
                commit_replacing_range();
                ExpansionRange cropped_range_top = std::move(expanded_range);
                cropped_range_top.cropBottom(range_overlapping->other_overlapping_part.maxY());
                if (cropped_range_top.isValid())
                {
                    new_expanded_ranges.push_back(std::move(cropped_range_top));
                }
            }
        }
        commit_replacing_range();
        if (! new_expanded_ranges.empty())
        {
            expanded_ranges = std::move(new_expanded_ranges);
        }
    }
    return expanded_ranges;
}

//= cura::isWallTipAnchored
bool r25(const Shape& bridge_mask, const PathAdapter<ExtrusionLine>& wall, const size_t tip_index, const Point2LL& tip, const Point2LL& other_tip, const bool tip_inside_bridge_mask, const std::ptrdiff_t segment_direction, const coord_t min_anchoring_length, const std::vector<float>& intersections)
{
    coord_t remaining_anchoring_length = min_anchoring_length;
    if (! tip_inside_bridge_mask)
    {
        const float closest_intersection = segment_direction > 0 ? intersections.front() : (1.0 - intersections.back());
        const coord_t segment_length = vSize(other_tip - tip);
        const coord_t inside_anchoring_length = closest_intersection * segment_length;
        remaining_anchoring_length -= inside_anchoring_length;
    }
    if (remaining_anchoring_length > 0)
    {
        const coord_t max_outside_search_length = min_anchoring_length * 2;
        coord_t remaining_search_length = max_outside_search_length;
        bool over_air = tip_inside_bridge_mask;
        Point2LL following_segment_p0 = tip;
        ptrdiff_t next_point_index = tip_index;
        const auto increment_index = [&next_point_index, segment_direction, &wall]()
        {
            next_point_index = ((next_point_index - segment_direction) + wall.size()) % wall.size();
        };
        const auto account_for_segment = [&over_air, &remaining_anchoring_length, &remaining_search_length](const Point2LL& start, const Point2LL& end)
        {
            const coord_t segment_length = vSize(end - start);
            if (! over_air)
            {
                remaining_anchoring_length -= std::min(remaining_search_length, segment_length);
            }
            remaining_search_length = std::max(static_cast<coord_t>(0), remaining_search_length - segment_length);
        };
        increment_index();
        while (remaining_search_length > 0 && remaining_anchoring_length > 0)
        {
            const Point2LL following_segment_p1 = wall.pointAt(next_point_index);
            std::vector<float> following_segment_intersections = bridge_mask.intersectionsWithSegment(following_segment_p0, following_segment_p1);
            Point2LL current_position = following_segment_p0;
            ranges::stable_sort(following_segment_intersections);
            for (const float next_intersection : following_segment_intersections)
            {
                const Point2LL next_intersection_position = lerp(following_segment_p0, following_segment_p1, next_intersection);
                account_for_segment(current_position, next_intersection_position);
                over_air = ! over_air; 
                current_position = next_intersection_position;
            }
            account_for_segment(current_position, following_segment_p1);
            following_segment_p0 = following_segment_p1;
            increment_index();
        }
    }
    return remaining_anchoring_length <= 0;
}

//= cura::ExpansionRange::minY
coord_t r29(const cura::ExpansionRange& self)
{
    return self.is_projected_ ? self.data_.segment.minY() : self.data_.range.min_y;
}

//= cura::ExpansionRange::maxY
coord_t r30(const cura::ExpansionRange& self)
{
    return self.is_projected_ ? self.data_.segment.maxY() : self.data_.range.max_y;
}

//= cura::ExpansionRange::cropTop
void r31(cura::ExpansionRange& self, const coord_t new_max_y)
{
    if (self.is_projected_)
    {
        self.data_.segment.cropTop(new_max_y);
    }
    else
    {
        self.data_.range.max_y = new_max_y;
    }
}

//= cura::ExpansionRange::cropBottom
void r32(cura::ExpansionRange& self, const coord_t new_min_y)
{
    if (self.is_projected_)
    {
        self.data_.segment.cropBottom(new_min_y);
    }
    else
    {
        self.data_.range.min_y = new_min_y;
    }
}

//= cura::ExpansionRange::isValid
bool r33(const cura::ExpansionRange& self)
{
    return fuzzy_not_equal(self.maxY(), self.minY());
}

//= cura::ExpansionRange::setProjectedEnd
void r34(cura::ExpansionRange& self, const Point2LL& end)
{
    self.data_.segment.setEnd(end);
}

//= cura::ExpansionRange::getSupportingSegment
const TransformedSegment* r35(const cura::ExpansionRange& self)
{
    return self.supporting_segment_;
}

//= cura::ExpansionRange::isProjected
bool r36(const cura::ExpansionRange& self)
{
    return self.is_projected_;
}

//= cura::ExpansionRange::getProjectedSegment
const TransformedSegment& r37(const cura::ExpansionRange& self)
{
    return self.data_.segment;
}

//= cura::TransformedSegment::TransformedSegment
void r38(cura::TransformedSegment& self, const Point2LL& transformed_start, const Point2LL& transformed_end)
{
    member(self.start_) = transformed_start;
    member(self.end_) = transformed_end;
    self.updateMinMax();
}

//= cura::TransformedSegment::setStart
void r39(cura::TransformedSegment& self, const Point2LL& transformed_start)
{
    self.start_ = transformed_start;
    self.updateMinMax();
}

//= cura::TransformedSegment::setEnd
void r40(cura::TransformedSegment& self, const Point2LL& transformed_end)
{
    self.end_ = transformed_end;
    self.updateMinMax();
}

//= cura::TransformedSegment::minY
coord_t r41(const cura::TransformedSegment& self)
{
    return self.min_y_;
}

//= cura::TransformedSegment::maxY
coord_t r42(const cura::TransformedSegment& self)
{
    return self.max_y_;
}

//= cura::TransformedSegment::getStart
const Point2LL& r43(const cura::TransformedSegment& self)
{
    return self.start_;
}

//= cura::TransformedSegment::getEnd
const Point2LL& r44(const cura::TransformedSegment& self)
{
    return self.end_;
}

//= cura::TransformedShape::getSegments
const std::vector<TransformedSegment>& r45(const cura::TransformedShape& self)
{
    return self.segments_;
}

//= cura::TransformedShape::minY
coord_t r46(const cura::TransformedShape& self)
{
    return self.min_y_;
}

//= cura::TransformedShape::maxY
coord_t r47(const cura::TransformedShape& self)
{
    return self.max_y_;
}

//END
}  // namespace ref
