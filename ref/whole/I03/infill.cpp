// What the functions of this unit compute.
#include "infill.h"
#include <algorithm>
#include <functional>
#include <numbers>
#include <unordered_set>
#include <range/v3/numeric/accumulate.hpp>
#include <scripta/logger.h>
#include <spdlog/spdlog.h>
#include "WallToolPaths.h"
#include "arachne/SkeletalTrapezoidation.h"
#include "geometry/OpenPolyline.h"
#include "geometry/Point2D.h"
#include "geometry/PointMatrix.h"
#include "infill/GyroidInfill.h"
#include "infill/ImageBasedDensityProvider.h"
#include "infill/LightningGenerator.h"
#include "infill/NoZigZagConnectorProcessor.h"
#include "infill/RegularNGonalInfill.h"
#include "infill/SierpinskiFill.h"
#include "infill/SierpinskiFillProvider.h"
#include "infill/SubDivCube.h"
#include "infill/UniformDensityProvider.h"
#include "plugins/slots.h"
#include "sliceDataStorage.h"
#include "utils/OpenPolylineStitcher.h"
#include "utils/PolygonConnector.h"
#include "utils/Simplify.h"
#include "utils/UnionFind.h"
#include "utils/linearAlg2D.h"
static inline int computeScanSegmentIdx(int x, int line_width)
{
    if (x < 0)
    {
        return (x + 1) / line_width - 1;
    }
    return x / line_width;
}
namespace cura
{
//= cura::Infill::generateLinearBasedInfill
void Infill::generateLinearBasedInfill(
    const Shape& outline,
    OpenLinesSet& result,
    const int line_distance,
    const PointMatrix& rotation_matrix,
    ZigzagConnectorProcessor& zigzag_connector_processor,
    const bool connected_zigzags,
    coord_t extra_shift,
    std::vector<std::vector<std::vector<InfillLineSegment*>>>& crossings_on_line)
{
    if (line_distance == 0 || outline.empty())
    {
        return;
    }
    Shape transformed_outline = outline;
    transformed_outline.applyMatrix(rotation_matrix);
    coord_t shift = extra_shift + this->shift_;
    if (shift < 0)
    {
        shift = line_distance - (-shift) % line_distance;
    }
    else
    {
        shift = shift % line_distance;
    }
    AABB boundary(transformed_outline);
    int scanline_min_idx = computeScanSegmentIdx(boundary.min_.X - shift, line_distance);
    int line_count = computeScanSegmentIdx(boundary.max_.X - shift, line_distance) + 1 - scanline_min_idx;
    std::vector<std::vector<coord_t>> cut_list(line_count);
    struct Crossing
    {
        Point2LL coordinate_;
        size_t polygon_index_;
        size_t vertex_index_;
//= skip Crossing::Crossing
        Crossing(Point2LL coordinate, size_t polygon_index, size_t vertex_index)
            : coordinate_(coordinate)
            , polygon_index_(polygon_index)
            , vertex_index_(vertex_index)
        {
        }
//END
//= skip Crossing::operator<
        bool operator<(const Crossing& other) const
        {
            return coordinate_.Y < other.coordinate_.Y;
        }
//END
    };
    std::vector<std::vector<Crossing>> crossings_per_scanline;
    const int min_scanline_index = computeScanSegmentIdx(boundary.min_.X - shift, line_distance) + 1;
    const int max_scanline_index = computeScanSegmentIdx(boundary.max_.X - shift, line_distance) + 1;
    crossings_per_scanline.resize(max_scanline_index - min_scanline_index);
    if (connect_lines_)
    {
        crossings_on_line.resize(transformed_outline.size());
    }
    for (size_t poly_idx = 0; poly_idx < transformed_outline.size(); poly_idx++)
    {
        const Polygon& poly = transformed_outline[poly_idx];
        if (connect_lines_)
        {
            crossings_on_line[poly_idx].resize(poly.size());
        }
        Point2LL p0 = poly.back();
        zigzag_connector_processor.registerVertex(p0);
        for (size_t point_idx = 0; point_idx < poly.size(); point_idx++)
        {
            Point2LL p1 = poly[point_idx];
            if (p1.X == p0.X)
            {
                zigzag_connector_processor.registerVertex(p1);
                p0 = p1;
                continue;
            }
            int scanline_idx0;
            int scanline_idx1;
            int direction = 1;
            if (p0.X < p1.X)
            {
                scanline_idx0 = computeScanSegmentIdx(p0.X - shift, line_distance) + 1;
                scanline_idx1
                    = computeScanSegmentIdx(p1.X - shift, line_distance);
            }
            else
            {
                direction = -1;
                scanline_idx0
                    = computeScanSegmentIdx(p0.X - shift, line_distance);
                scanline_idx1 = computeScanSegmentIdx(p1.X - shift, line_distance) + 1;
            }
            for (int scanline_idx = scanline_idx0; scanline_idx != scanline_idx1 + direction; scanline_idx += direction)
            {
                const int x = scanline_idx * line_distance + shift;
                const int y = p1.Y + (p0.Y - p1.Y) * (x - p1.X) / (p0.X - p1.X);
                assert(scanline_idx - scanline_min_idx >= 0 && scanline_idx - scanline_min_idx < int(cut_list.size()) && "reading infill cutlist index out of bounds!");
                cut_list[scanline_idx - scanline_min_idx].push_back(y);
                Point2LL scanline_linesegment_intersection(x, y);
                zigzag_connector_processor.registerScanlineSegmentIntersection(scanline_linesegment_intersection, scanline_idx, line_distance / 4);
                crossings_per_scanline[scanline_idx - min_scanline_index].emplace_back(scanline_linesegment_intersection, poly_idx, point_idx);
            }
            zigzag_connector_processor.registerVertex(p1);
            p0 = p1;
        }
        zigzag_connector_processor.registerPolyFinished();
    }
    if (connect_lines_)
    {
        for (int scanline_index = min_scanline_index; scanline_index < max_scanline_index; scanline_index++)
        {
            auto& crossings = crossings_per_scanline[scanline_index - min_scanline_index];
            std::stable_sort(crossings.begin(), crossings.end());
            for (long crossing_index = 0; crossing_index < static_cast<long>(crossings.size()) - 1; crossing_index += 2)
            {
                const Crossing& first = crossings[crossing_index];
                const Crossing& second = crossings[crossing_index + 1];
                const Point2LL unrotated_first = rotation_matrix.unapply(first.coordinate_);
                const Point2LL unrotated_second = rotation_matrix.unapply(second.coordinate_);
                if (unrotated_first == unrotated_second)
                {
                    continue;
                }
                InfillLineSegment* new_segment
                    = new InfillLineSegment(unrotated_first, first.vertex_index_, first.polygon_index_, unrotated_second, second.vertex_index_, second.polygon_index_);
                crossings_on_line[first.polygon_index_][first.vertex_index_].push_back(new_segment);
                crossings_on_line[second.polygon_index_][second.vertex_index_].push_back(new_segment);
            }
        }
    }
    else
    {
        if (cut_list.size() == 0)
        {
            return;
        }
        if (connected_zigzags && cut_list.size() == 1 && cut_list[0].size() <= 2)
        {
            return;
        }
        addLineInfill(result, rotation_matrix, scanline_min_idx, line_distance, boundary, cut_list, shift);
    }
}
//END
//= cura::Infill::connectLines
void Infill::connectLines(const Shape& outline, OpenLinesSet& result_lines, std::vector<std::vector<std::vector<InfillLineSegment*>>>& crossings_on_line)
{
    UnionFind<InfillLineSegment*> connected_lines;
    for (const std::vector<std::vector<InfillLineSegment*>>& crossings_on_polygon : crossings_on_line)
    {
        for (const std::vector<InfillLineSegment*>& crossings_on_polygon_segment : crossings_on_polygon)
        {
            for (InfillLineSegment* infill_line : crossings_on_polygon_segment)
            {
                if (connected_lines.find(infill_line) == (size_t)-1)
                {
                    connected_lines.add(infill_line);
                }
            }
        }
    }
    const auto half_line_distance_squared = (line_distance_ * line_distance_) / 4;
    for (size_t polygon_index = 0; polygon_index < outline.size(); polygon_index++)
    {
        const Polygon& inner_contour_polygon = outline[polygon_index];
        if (inner_contour_polygon.empty())
        {
            continue;
        }
        assert(crossings_on_line.size() > polygon_index && "crossings dimension should be bigger then polygon index");
        std::vector<std::vector<InfillLineSegment*>>& crossings_on_polygon = crossings_on_line[polygon_index];
        InfillLineSegment* previous_crossing = nullptr;
        InfillLineSegment* previous_segment = nullptr;
        Point2LL vertex_before = inner_contour_polygon.back();
        for (size_t vertex_index = 0; vertex_index < inner_contour_polygon.size(); vertex_index++)
        {
            assert(crossings_on_polygon.size() > vertex_index && "crossings on line for the current polygon should be bigger then vertex index");
            std::vector<InfillLineSegment*>& crossings_on_polygon_segment = crossings_on_polygon[vertex_index];
            Point2LL vertex_after = inner_contour_polygon[vertex_index];
            std::stable_sort(
                crossings_on_polygon_segment.begin(),
                crossings_on_polygon_segment.end(),
                [&vertex_before, polygon_index, vertex_index](InfillLineSegment* left_hand_side, InfillLineSegment* right_hand_side)
                {
                    const bool choose_left = (left_hand_side->start_segment_ == vertex_index && left_hand_side->start_polygon_ == polygon_index);
                    const bool choose_right = (right_hand_side->start_segment_ == vertex_index && right_hand_side->start_polygon_ == polygon_index);
                    const Point2LL left_hand_point = choose_left ? left_hand_side->start_ : left_hand_side->end_;
                    const Point2LL right_hand_point = choose_right ? right_hand_side->start_ : right_hand_side->end_;
                    return vSize(left_hand_point - vertex_before) < vSize(right_hand_point - vertex_before);
                });
            for (InfillLineSegment* crossing : crossings_on_polygon_segment)
            {
                if (! previous_crossing)
                {
                    previous_crossing = crossing;
                    previous_segment = crossing;
                }
                else
                {
                    const size_t crossing_handle = connected_lines.find(crossing);
                    assert(crossing_handle != (size_t)-1);
                    const size_t previous_crossing_handle = connected_lines.find(previous_crossing);
                    assert(previous_crossing_handle != (size_t)-1);
                    if (crossing_handle == previous_crossing_handle)
                    {
                        continue;
                    }
                    const bool previous_forward = (previous_segment->start_segment_ == vertex_index && previous_segment->start_polygon_ == polygon_index);
                    const bool next_forward = (crossing->start_segment_ == vertex_index && crossing->start_polygon_ == polygon_index);
                    Point2LL& previous_point = previous_forward ? previous_segment->start_ : previous_segment->end_;
                    Point2LL& next_point = next_forward ? crossing->start_ : crossing->end_;
                    InfillLineSegment* new_segment;
                    if (previous_point == next_point)
                    {
                        (previous_forward ? previous_segment->previous_ : previous_segment->next_) = crossing;
                        new_segment = previous_segment;
                    }
                    else
                    {
                        constexpr coord_t epsilon_sqd = 25;
                        Point2LL intersect;
                        if (vSize2(previous_point - next_point) < half_line_distance_squared
                            && LinearAlg2D::lineLineIntersection(previous_segment->start_, previous_segment->end_, crossing->start_, crossing->end_, intersect)
                            && LinearAlg2D::pointIsProjectedBeyondLine(intersect, previous_segment->start_, previous_segment->end_) == 0
                            && LinearAlg2D::pointIsProjectedBeyondLine(intersect, crossing->start_, crossing->end_) == 0 && vSize2(previous_point - intersect) > epsilon_sqd
                            && vSize2(next_point - intersect) > epsilon_sqd)
                        {
                            resolveIntersection(infill_line_width_, intersect, previous_point, next_point, previous_segment, crossing);
                        }
                        new_segment = new InfillLineSegment(previous_point, vertex_index, polygon_index, next_point, vertex_index, polygon_index);
                        new_segment->altered_start_ = previous_point;
                        new_segment->altered_end_ = next_point;
                        new_segment->previous_ = previous_segment;
                        (previous_forward ? previous_segment->previous_ : previous_segment->next_) = new_segment;
                        new_segment->next_ = crossing;
                    }
                    (next_forward ? crossing->previous_ : crossing->next_) = new_segment;
                    connected_lines.unite(crossing_handle, previous_crossing_handle);
                    previous_crossing = nullptr;
                    previous_segment = nullptr;
                }
            }
            if (previous_crossing)
            {
                InfillLineSegment* new_segment;
                const bool choose_side = (vertex_index == previous_segment->start_segment_ && polygon_index == previous_segment->start_polygon_);
                const auto& previous_side = choose_side ? previous_segment->start_ : previous_segment->end_;
                if (previous_side == vertex_after)
                {
                    previous_segment = nullptr;
                    previous_crossing = nullptr;
                }
                else
                {
                    new_segment
                        = new InfillLineSegment(previous_side, vertex_index, polygon_index, vertex_after, (vertex_index + 1) % inner_contour_[polygon_index].size(), polygon_index);
                    (choose_side ? previous_segment->previous_ : previous_segment->next_) = new_segment;
                    new_segment->previous_ = previous_segment;
                    previous_segment = new_segment;
                }
            }
            vertex_before = vertex_after;
            crossings_on_polygon_segment.clear();
        }
    }
    std::unordered_set<size_t> completed_groups;
    for (InfillLineSegment* infill_line : connected_lines)
    {
        const size_t group = connected_lines.find(infill_line);
        if (completed_groups.find(group) != completed_groups.end())
        {
            continue;
        }
        Point2LL previous_vertex = infill_line->start_;
        InfillLineSegment* current_infill_line = infill_line;
        while (current_infill_line->next_ && current_infill_line->previous_)
        {
            const bool choose_side = (previous_vertex == current_infill_line->start_);
            const Point2LL next_vertex = choose_side ? current_infill_line->end_ : current_infill_line->start_;
            current_infill_line = choose_side ? current_infill_line->next_ : current_infill_line->previous_;
            previous_vertex = next_vertex;
        }
        OpenPolyline& result_line = result_lines.newLine();
        InfillLineSegment* old_line = current_infill_line;
        if (current_infill_line->previous_)
        {
            current_infill_line->swapDirection();
        }
        current_infill_line->appendTo(result_line);
        previous_vertex = current_infill_line->end_;
        current_infill_line = current_infill_line->next_;
        delete old_line;
        while (current_infill_line)
        {
            old_line = current_infill_line;
            if (previous_vertex != current_infill_line->start_)
            {
                current_infill_line->swapDirection();
            }
            const Point2LL next_vertex = current_infill_line->end_;
            constexpr bool polyline_break = false;
            current_infill_line->appendTo(result_line, polyline_break);
            current_infill_line = current_infill_line->next_;
            previous_vertex = next_vertex;
            delete old_line;
        }
        completed_groups.insert(group);
    }
}
//END
//= cura::Infill::InfillLineSegment::operator==
bool Infill::InfillLineSegment::operator==(const InfillLineSegment& other) const
{
    return start_ == other.start_ && end_ == other.end_;
}
//END
}
