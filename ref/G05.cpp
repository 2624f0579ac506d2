// Closest points and walking along polygons.
#include <algorithm>
#include <array>
#include <unordered_set>
#include <unordered_map>
#include <set>
#include <map>
#include <list>
#include <vector>
#include <deque>
#include <memory>
#include <numeric>
#include <optional>
#include <functional>
#include <string>
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "geometry/Polygon.h"
#include "geometry/OpenPolyline.h"
#include "geometry/SingleShape.h"
#include "geometry/MixedLinesSet.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "raft.h"
#include "geometry/ClosedLinesSet.h"
#include "geometry/OpenLinesSet.h"
#include "geometry/Point2LL.h"
#include "geometry/PointMatrix.h"
#include "geometry/Polygon.h"
#include "geometry/Shape.h"
#include "geometry/SingleShape.h"
#include "infill.h"
#include "utils/AABB.h"
#include "utils/ListPolyIt.h"
#include "utils/PolygonsPointIndex.h"
#include "utils/PolygonsSegmentIndex.h"
#include "utils/SparseLineGrid.h"
#include "utils/SparsePointGridInclusive.h"
#include "utils/linearAlg2D.h"
#include "utils/polygonUtils.h"
#include <array>
#include <cassert>
#include <cmath> // isfinite
#include <functional> // function
#include <limits>
#include <list>
#include <memory> // unique_ptr
#include <numbers>
#include <optional>
#include <range/v3/view/enumerate.hpp>
#include <spdlog/spdlog.h>
#include <sstream>
#include <sstream> // ostream
#include <unordered_set>
#include <vector>
#include "utils/polygonUtils.h"
#include "utils/PolygonsPointIndex.h"
#include "utils/ListPolyIt.h"
#include "ref.h"

namespace ref
{
using namespace cura;

//= cura::PolygonUtils::spreadDotsArea
std::vector<Point2LL> r1(const Shape& polygons, coord_t grid_size)
{
    return cura::PolygonUtils::spreadDotsArea(polygons, Point2LL(grid_size, grid_size));
}

//= cura::PolygonUtils::spreadDotsArea
std::vector<Point2LL> r2(const Shape& polygons, Point2LL grid_size)
{
    std::vector<VariableWidthLines> dummy_toolpaths;
    Settings dummy_settings;
    Infill infill_gen(EFillMethod::LINES, false, false, polygons, 0, grid_size.X, 0, 1, 0, 0, 0, 0, 0);
    Shape result_polygons;
    OpenLinesSet result_lines;
    infill_gen.generate(dummy_toolpaths, result_polygons, result_lines, dummy_settings, 0, SectionType::DOTS); 
    std::vector<Point2LL> result;
    for (const OpenPolyline& line : result_lines)
    {
        Point2LL a = line[0];
        Point2LL b = line[1];
        if (a.Y > b.Y)
        {
            std::swap(a, b);
        }
        for (coord_t y = a.Y - (a.Y % grid_size.Y) - grid_size.Y; y < b.Y; y += grid_size.Y)
        {
            if (y < a.Y)
                continue;
            result.emplace_back(a.X, y);
        }
    }
    return result;
}

//= cura::PolygonUtils::lineSegmentPolygonsIntersection
bool r3(const Point2LL& a, const Point2LL& b, const Shape& current_outlines, const LocToLineGrid& outline_locator, Point2LL& result, const coord_t within_max_dist)
{
    const coord_t within_max_dist2 = within_max_dist * within_max_dist;
    Point2LL coll;
    coord_t closest_dist2 = within_max_dist2;
    const auto processOnIntersect = [&result, &closest_dist2, &a, &b, &coll](const Point2LL& p_start, const Point2LL& p_end)
    {
        if (LinearAlg2D::lineLineIntersection(a, b, p_start, p_end, coll) && LinearAlg2D::pointIsProjectedBeyondLine(coll, p_start, p_end) == 0
            && LinearAlg2D::pointIsProjectedBeyondLine(coll, a, b) == 0)
        {
            const coord_t dist2 = vSize2(b - coll);
            if (dist2 < closest_dist2)
            {
                closest_dist2 = dist2;
                result = coll;
            }
        }
    };
    const auto nearby = outline_locator.getNearby(b, within_max_dist);
    if (! nearby.empty())
    {
        for (const auto& pp_idx : nearby)
        {
            processOnIntersect(pp_idx.p(), pp_idx.next().p());
        }
        if (closest_dist2 < within_max_dist2)
        {
            return true;
        }
    }
    for (const auto& poly : current_outlines)
    {
        const size_t poly_size = poly.size();
        for (size_t i_segment_start = 0; i_segment_start < poly_size; ++i_segment_start)
        {
            const size_t i_segment_end = (i_segment_start + 1) % poly_size;
            processOnIntersect(poly[i_segment_start], poly[i_segment_end]);
        }
    }
    return closest_dist2 < within_max_dist2;
}

//= cura::PolygonUtils::getVertexInwardNormal
Point2LL r4(const Polyline& poly, unsigned int point_idx)
{
    Point2LL p1 = poly[point_idx];
    int p0_idx;
    for (p0_idx = int(point_idx) - 1; (unsigned int)p0_idx != point_idx; p0_idx = p0_idx - 1)
    { 
        if (p0_idx == -1)
        {
            p0_idx = poly.size() - 1;
        }
        if (poly[p0_idx] != p1)
        {
            break;
        }
    }
    Point2LL p0 = poly[p0_idx];
    unsigned int p2_idx;
    for (p2_idx = point_idx + 1; p2_idx != point_idx; p2_idx = p2_idx + 1)
    { 
        if (p2_idx == poly.size())
        {
            p2_idx = 0;
        }
        if (poly[p2_idx] != p1)
        {
            break;
        }
    }
    const Point2LL& p2 = poly[p2_idx];
    Point2LL off0 = turn90CCW(normal(p1 - p0, MM2INT(10.0))); 
    Point2LL off1 = turn90CCW(normal(p2 - p1, MM2INT(10.0))); 
    Point2LL n = off0 + off1;
    return n;
}

//= cura::PolygonUtils::getBoundaryPointWithOffset
Point2LL r5(const Polyline& poly, unsigned int point_idx, int64_t offset)
{
    return poly[point_idx] + normal(cura::PolygonUtils::getVertexInwardNormal(poly, point_idx), -offset);
}

//= cura::PolygonUtils::moveOutside
unsigned int r6(const Shape& polygons, Point2LL& from, int distance, int64_t maxDist2)
{
    return cura::PolygonUtils::moveInside(polygons, from, -distance, maxDist2);
}

//= cura::PolygonUtils::moveInside2
ClosestPointPolygon r7(const Shape& polygons, Point2LL& from, const int distance, const int64_t max_dist2, const Shape* loc_to_line_polygons, const LocToLineGrid* loc_to_line_grid, const std::function<int(Point2LL)>& penalty_function)
{
    std::optional<ClosestPointPolygon> closest_polygon_point;
    if (loc_to_line_grid)
    {
        closest_polygon_point = cura::PolygonUtils::findClose(from, *loc_to_line_polygons, *loc_to_line_grid, penalty_function);
    }
    if (! closest_polygon_point)
    {
        closest_polygon_point = cura::PolygonUtils::findClosest(from, polygons, penalty_function);
    }
    return cura::PolygonUtils::_moveInside2(*closest_polygon_point, distance, from, max_dist2);
}

//= cura::PolygonUtils::moveInside2
ClosestPointPolygon r8(const Shape& loc_to_line_polygons, const Polygon& polygon, Point2LL& from, const int distance, const int64_t max_dist2, const LocToLineGrid* loc_to_line_grid, const std::function<int(Point2LL)>& penalty_function)
{
    std::optional<ClosestPointPolygon> closest_polygon_point;
    if (loc_to_line_grid)
    {
        closest_polygon_point = cura::PolygonUtils::findClose(from, loc_to_line_polygons, *loc_to_line_grid, penalty_function);
    }
    if (! closest_polygon_point)
    {
        closest_polygon_point = cura::PolygonUtils::findClosest(from, polygon, penalty_function);
    }
    return cura::PolygonUtils::_moveInside2(*closest_polygon_point, distance, from, max_dist2);
}

//= cura::PolygonUtils::_moveInside2
ClosestPointPolygon r9(const ClosestPointPolygon& closest_polygon_point, const int distance, Point2LL& from, const int64_t max_dist2)
{
    if (! closest_polygon_point.isValid())
    {
        return ClosestPointPolygon(); 
    }
    const Point2LL v_boundary_from = from - closest_polygon_point.location_;
    Point2LL result = cura::PolygonUtils::moveInside(closest_polygon_point, distance);
    const Point2LL v_boundary_result = result - closest_polygon_point.location_;
    if (dot(v_boundary_result, v_boundary_from) > 0)
    { 
        if (vSize2(v_boundary_from) > static_cast<coord_t>(distance) * distance)
        { 
            return closest_polygon_point;
        }
        else
        {
            from = result;
            return closest_polygon_point;
        }
    }
    else
    {
        if (vSize2(v_boundary_from) > max_dist2)
        {
            return ClosestPointPolygon(closest_polygon_point.poly_); 
        }
        else
        {
            from = result;
            return closest_polygon_point;
        }
    }
}

//= cura::PolygonUtils::moveInside
size_t r10(const Shape& polygons, Point2LL& from, int distance, int64_t maxDist2)
{
    Point2LL ret = from;
    int64_t bestDist2 = std::numeric_limits<int64_t>::max();
    size_t bestPoly = NO_INDEX;
    bool is_already_on_correct_side_of_boundary = false; 
    for (size_t poly_idx = 0; poly_idx < polygons.size(); poly_idx++)
    {
        const Polygon& poly = polygons[poly_idx];
        if (poly.size() < 2)
            continue;
        Point2LL p0 = poly[poly.size() - 2];
        Point2LL p1 = poly.back();
        bool projected_p_beyond_prev_segment = dot(p1 - p0, from - p0) >= vSize2(p1 - p0);
        for (const Point2LL& p2 : poly)
        {
            const Point2LL& a = p1;
            const Point2LL& b = p2;
            const Point2LL& p = from;
            Point2LL ab = b - a;
            Point2LL ap = p - a;
            int64_t ab_length2 = vSize2(ab);
            if (ab_length2 <= 0) 
            {
                p1 = p2; 
                continue;
            }
            int64_t dot_prod = dot(ab, ap);
            if (dot_prod <= 0) 
            {
                if (projected_p_beyond_prev_segment)
                { 
                    projected_p_beyond_prev_segment = false;
                    Point2LL& x = p1;
                    int64_t dist2 = vSize2(x - p);
                    if (dist2 < bestDist2)
                    {
                        bestDist2 = dist2;
                        bestPoly = poly_idx;
                        if (distance == 0)
                        {
                            ret = x;
                        }
                        else
                        {
                            Point2LL inward_dir = turn90CCW(normal(ab, MM2INT(10.0)) + normal(p1 - p0, MM2INT(10.0))); 
                            ret = x + normal(inward_dir, distance);
                            is_already_on_correct_side_of_boundary = dot(inward_dir, p - x) * distance >= 0;
                        }
                    }
                }
                else
                {
                    projected_p_beyond_prev_segment = false;
                    p0 = p1;
                    p1 = p2;
                    continue;
                }
            }
            else if (dot_prod >= ab_length2) 
            {
                projected_p_beyond_prev_segment = true;
                p0 = p1;
                p1 = p2;
                continue;
            }
            else
            { 
                projected_p_beyond_prev_segment = false;
                Point2LL x = a + ab * dot_prod / ab_length2;
                int64_t dist2 = vSize2(p - x);
                if (dist2 < bestDist2)
                {
                    bestDist2 = dist2;
                    bestPoly = poly_idx;
                    if (distance == 0)
                    {
                        ret = x;
                    }
                    else
                    {
                        Point2LL inward_dir = turn90CCW(normal(ab, distance)); 
                        ret = x + inward_dir;
                        is_already_on_correct_side_of_boundary = dot(inward_dir, p - x) >= 0;
                    }
                }
            }
            p0 = p1;
            p1 = p2;
        }
    }
    if (is_already_on_correct_side_of_boundary) 
    {
        if (bestDist2 < static_cast<coord_t>(distance) * distance)
        {
            from = ret;
        }
        else
        {
        }
        return bestPoly;
    }
    else if (bestDist2 < maxDist2)
    {
        from = ret;
        return bestPoly;
    }
    return NO_INDEX;
}

//= cura::PolygonUtils::moveInside
unsigned int r11(const ClosedPolyline& polygon, Point2LL& from, int distance, int64_t maxDist2)
{
    Point2LL ret = from;
    int64_t bestDist2 = std::numeric_limits<int64_t>::max();
    bool is_already_on_correct_side_of_boundary = false; 
    if (polygon.size() < 2)
    {
        return 0;
    }
    Point2LL p0 = polygon[polygon.size() - 2];
    Point2LL p1 = polygon.back();
    bool projected_p_beyond_prev_segment = dot(p1 - p0, from - p0) >= vSize2(p1 - p0);
    for (const Point2LL& p2 : polygon)
    {
        const Point2LL& a = p1;
        const Point2LL& b = p2;
        const Point2LL& p = from;
        Point2LL ab = b - a;
        Point2LL ap = p - a;
        int64_t ab_length2 = vSize2(ab);
        if (ab_length2 <= 0) 
        {
            p1 = p2; 
            continue;
        }
        int64_t dot_prod = dot(ab, ap);
        if (dot_prod <= 0) 
        {
            if (projected_p_beyond_prev_segment)
            { 
                projected_p_beyond_prev_segment = false;
                Point2LL& x = p1;
                int64_t dist2 = vSize2(x - p);
                if (dist2 < bestDist2)
                {
                    bestDist2 = dist2;
                    if (distance == 0)
                    {
                        ret = x;
                    }
                    else
                    {
                        Point2LL inward_dir = turn90CCW(normal(ab, MM2INT(10.0)) + normal(p1 - p0, MM2INT(10.0))); 
                        ret = x + normal(inward_dir, distance);
                        is_already_on_correct_side_of_boundary = dot(inward_dir, p - x) * distance >= 0;
                    }
                }
            }
            else
            {
                projected_p_beyond_prev_segment = false;
                p0 = p1;
                p1 = p2;
                continue;
            }
        }
        else if (dot_prod >= ab_length2) 
        {
            projected_p_beyond_prev_segment = true;
            p0 = p1;
            p1 = p2;
            continue;
        }
        else
        { 
            projected_p_beyond_prev_segment = false;
            Point2LL x = a + ab * dot_prod / ab_length2;
            int64_t dist2 = vSize2(p - x);
            if (dist2 < bestDist2)
            {
                bestDist2 = dist2;
                if (distance == 0)
                {
                    ret = x;
                }
                else
                {
                    Point2LL inward_dir = turn90CCW(normal(ab, distance)); 
                    ret = x + inward_dir;
                    is_already_on_correct_side_of_boundary = dot(inward_dir, p - x) >= 0;
                }
            }
        }
        p0 = p1;
        p1 = p2;
    }
    if (is_already_on_correct_side_of_boundary) 
    {
        if (bestDist2 < static_cast<coord_t>(distance) * distance)
        {
            from = ret;
        }
    }
    else if (bestDist2 < maxDist2)
    {
        from = ret;
    }
    return 0;
}

//= cura::PolygonUtils::moveOutside
Point2LL r12(const ClosestPointPolygon& cpp, const int distance)
{
    return cura::PolygonUtils::moveInside(cpp, -distance);
}

//= cura::PolygonUtils::moveInside
Point2LL r13(const ClosestPointPolygon& cpp, const int distance)
{
    if (! cpp.isValid())
    {
        return no_point;
    }
    if (distance == 0)
    { 
        return cpp.location_;
    }
    const Polyline& poly = *cpp.poly_;
    unsigned int point_idx = cpp.point_idx_;
    const Point2LL& on_boundary = cpp.location_;
    const Point2LL& p1 = poly[point_idx];
    unsigned int p2_idx;
    for (p2_idx = point_idx + 1; p2_idx != point_idx; p2_idx = p2_idx + 1)
    { 
        if (p2_idx == poly.size())
        {
            p2_idx = 0;
        }
        if (poly[p2_idx] != p1)
        {
            break;
        }
    }
    const Point2LL& p2 = poly[p2_idx];
    if (on_boundary == p1)
    {
        return cura::PolygonUtils::getBoundaryPointWithOffset(poly, point_idx, -distance);
    }
    else if (on_boundary == p2)
    {
        return cura::PolygonUtils::getBoundaryPointWithOffset(poly, p2_idx, -distance);
    }
    else
    {
        const Point2LL& x = on_boundary; 
        Point2LL inward_dir = turn90CCW(normal(p2 - p1, distance));
        return x + inward_dir;
    }
}

//= cura::PolygonUtils::ensureInsideOrOutside
ClosestPointPolygon r14(const Shape& polygons, Point2LL& from, int preferred_dist_inside, int64_t max_dist2, const Shape* loc_to_line_polygons, const LocToLineGrid* loc_to_line_grid, const std::function<int(Point2LL)>& penalty_function)
{
    const ClosestPointPolygon closest_polygon_point = cura::PolygonUtils::moveInside2(polygons, from, preferred_dist_inside, max_dist2, loc_to_line_polygons, loc_to_line_grid, penalty_function);
    return cura::PolygonUtils::ensureInsideOrOutside(polygons, from, closest_polygon_point, preferred_dist_inside, loc_to_line_polygons, loc_to_line_grid, penalty_function);
}

//= cura::PolygonUtils::ensureInsideOrOutside
ClosestPointPolygon r15(const Shape& polygons, Point2LL& from, const ClosestPointPolygon& closest_polygon_point, int preferred_dist_inside, const Shape* loc_to_line_polygons, const LocToLineGrid* loc_to_line_grid, const std::function<int(Point2LL)>& penalty_function)
{
    if (! closest_polygon_point.isValid())
    {
        return ClosestPointPolygon(); 
    }
    const Polygon& closest_poly = *closest_polygon_point.poly_;
    bool is_outside_boundary = closest_poly.orientation();
    {
        bool is_inside = closest_poly.inside(from) == is_outside_boundary; 
        if (is_inside == (preferred_dist_inside > 0))
        { 
            return closest_polygon_point;
        }
    }
    {
        int64_t max_dist2_here = std::numeric_limits<int64_t>::max(); 
        cura::PolygonUtils::moveInside2(*loc_to_line_polygons, closest_poly, from, preferred_dist_inside / 2, max_dist2_here, loc_to_line_grid, penalty_function);
        bool is_inside = closest_poly.inside(from) == is_outside_boundary; 
        if (is_inside == (preferred_dist_inside > 0))
        { 
            return closest_polygon_point;
        }
    }
    {
        const coord_t offset = (is_outside_boundary) ? -preferred_dist_inside : preferred_dist_inside; 
        Shape insetted
            = closest_poly.offset(offset / 2); 
        if (insetted.size() == 0)
        {
            return ClosestPointPolygon(); 
        }
        ClosestPointPolygon inside = cura::PolygonUtils::findClosest(from, insetted, penalty_function);
        if (inside.isValid())
        {
            bool is_inside = polygons.inside(inside.location_);
            if (is_inside != (preferred_dist_inside > 0))
            {
                Shape all_insetted = polygons.offset(-preferred_dist_inside);
                ClosestPointPolygon overall_inside = cura::PolygonUtils::findClosest(from, all_insetted, penalty_function);
                bool overall_is_inside = polygons.inside(overall_inside.location_);
                if (overall_is_inside != (preferred_dist_inside > 0))
                {
                    return ClosestPointPolygon();
                }
                inside = overall_inside;
            }
            from = inside.location_;
        } 
        return closest_polygon_point; 
    }
}

//= cura::PolygonUtils::walkToNearestSmallestConnection
void r16(ClosestPointPolygon& poly1_result, ClosestPointPolygon& poly2_result)
{
    if (! poly1_result.isValid() || ! poly2_result.isValid())
    {
        return;
    }
    const Polygon& poly1 = *poly1_result.poly_;
    const Polygon& poly2 = *poly2_result.poly_;
    size_t poly1_idx = poly1_result.poly_idx_;
    size_t poly2_idx = poly2_result.poly_idx_;
    if (poly1_result.point_idx_ == NO_INDEX || poly2_result.point_idx_ == NO_INDEX)
    {
        return;
    }
    int equilibirum_limit = MM2INT(0.1); 
    for (int loop_counter = 0; loop_counter < equilibirum_limit; loop_counter++)
    {
        unsigned int pos1_before = poly1_result.point_idx_;
        poly1_result = cura::PolygonUtils::findNearestClosest(poly2_result.location_, poly1, poly1_result.point_idx_);
        unsigned int pos2_before = poly2_result.point_idx_;
        poly2_result = cura::PolygonUtils::findNearestClosest(poly1_result.location_, poly2, poly2_result.point_idx_);
        if (poly1_result.point_idx_ == pos1_before && poly2_result.point_idx_ == pos2_before)
        {
            break;
        }
    }
    coord_t best_distance2 = vSize2(poly1_result.p() - poly2_result.p());
    auto check_neighboring_vert
        = [&best_distance2](const Polygon& from_poly, const Polygon& to_poly, ClosestPointPolygon& from_poly_result, ClosestPointPolygon& to_poly_result, bool vertex_after)
    {
        const Point2LL after_poly2_result = to_poly[(to_poly_result.point_idx_ + vertex_after) % to_poly.size()];
        const ClosestPointPolygon poly1_after_poly2_result = cura::PolygonUtils::findNearestClosest(after_poly2_result, from_poly, from_poly_result.point_idx_);
        const coord_t poly1_after_poly2_result_dist2 = vSize2(poly1_after_poly2_result.p() - after_poly2_result);
        if (poly1_after_poly2_result_dist2 < best_distance2)
        {
            from_poly_result = poly1_after_poly2_result;
            to_poly_result.location_ = after_poly2_result;
            best_distance2 = poly1_after_poly2_result_dist2;
        }
    };
    check_neighboring_vert(poly1, poly2, poly1_result, poly2_result, false);
    check_neighboring_vert(poly1, poly2, poly1_result, poly2_result, true);
    check_neighboring_vert(poly2, poly1, poly2_result, poly1_result, false);
    check_neighboring_vert(poly2, poly1, poly2_result, poly1_result, true);
    poly1_result.poly_idx_ = poly1_idx;
    poly2_result.poly_idx_ = poly2_idx;
}

//= cura::PolygonUtils::findNearestClosest
ClosestPointPolygon r17(const Point2LL& from, const Polygon& polygon, int start_idx)
{
    ClosestPointPolygon forth = cura::PolygonUtils::findNearestClosest(from, polygon, start_idx, 1);
    if (! forth.isValid())
    {
        return forth; 
    }
    ClosestPointPolygon back = cura::PolygonUtils::findNearestClosest(from, polygon, start_idx, -1);
    if (vSize2(forth.location_ - from) < vSize2(back.location_ - from))
    {
        return forth;
    }
    else
    {
        return back;
    }
}

//= cura::PolygonUtils::findNearestClosest
ClosestPointPolygon r18(const Point2LL& from, const Polygon& polygon, int start_idx, int direction)
{
    if (polygon.size() == 0)
    {
        return ClosestPointPolygon(&polygon);
    }
    Point2LL aPoint = polygon[0];
    Point2LL best = aPoint;
    int64_t closestDist = vSize2(from - best);
    int bestPos = 0;
    size_t poly_size = polygon.size();
    for (size_t p = 0; p < poly_size; p++)
    {
        int p1_idx = (poly_size + direction * p + start_idx) % poly_size;
        int p2_idx = (poly_size + direction * (p + 1) + start_idx) % poly_size;
        const Point2LL& p1 = polygon[p1_idx];
        const Point2LL& p2 = polygon[p2_idx];
        Point2LL closest_here = LinearAlg2D::getClosestOnLineSegment(from, p1, p2);
        int64_t dist = vSize2(from - closest_here);
        if (dist < closestDist)
        {
            best = closest_here;
            closestDist = dist;
            bestPos = (direction > 0) ? p1_idx : p2_idx;
        }
        else
        {
            return ClosestPointPolygon(best, bestPos, &polygon);
        }
    }
    return ClosestPointPolygon(best, bestPos, &polygon);
}

//= cura::PolygonUtils::findClosest
ClosestPointPolygon r19(const Point2LL& from, const Shape& polygons, const std::function<int(Point2LL)>& penalty_function)
{
    ClosestPointPolygon none;
    if (polygons.size() == 0)
    {
        return none;
    }
    const Polygon* any_polygon = &(polygons[0]);
    unsigned int any_poly_idx;
    for (any_poly_idx = 0; any_poly_idx < polygons.size(); any_poly_idx++)
    { 
        if (polygons[any_poly_idx].size() > 0)
        {
            any_polygon = &(polygons[any_poly_idx]);
            break;
        }
    }
    if (any_polygon->size() == 0)
    {
        return none;
    }
    ClosestPointPolygon best((*any_polygon)[0], 0, any_polygon, any_poly_idx);
    int64_t closestDist2_score = vSize2(from - best.location_) + penalty_function(best.location_);
    for (unsigned int ply = 0; ply < polygons.size(); ply++)
    {
        const Polygon& poly = polygons[ply];
        if (poly.size() == 0)
            continue;
        ClosestPointPolygon closest_here = cura::PolygonUtils::findClosest(from, poly, penalty_function);
        if (! closest_here.isValid())
        {
            continue;
        }
        int64_t dist2_score = vSize2(from - closest_here.location_) + penalty_function(closest_here.location_);
        if (dist2_score < closestDist2_score)
        {
            best = closest_here;
            closestDist2_score = dist2_score;
            best.poly_idx_ = ply;
        }
    }
    return best;
}

//= cura::PolygonUtils::findClosest
ClosestPointPolygon r20(const Point2LL& from, const Polygon& polygon, const std::function<int(Point2LL)>& penalty_function)
{
    if (polygon.size() == 0)
    {
        return ClosestPointPolygon(&polygon);
    }
    Point2LL aPoint = polygon[0];
    Point2LL best = aPoint;
    int64_t closestDist2_score = vSize2(from - best) + penalty_function(best);
    int bestPos = 0;
    for (unsigned int p = 0; p < polygon.size(); p++)
    {
        const Point2LL& p1 = polygon[p];
        unsigned int p2_idx = p + 1;
        if (p2_idx >= polygon.size())
            p2_idx = 0;
        const Point2LL& p2 = polygon[p2_idx];
        Point2LL closest_here = LinearAlg2D::getClosestOnLineSegment(from, p1, p2);
        int64_t dist2_score = vSize2(from - closest_here) + penalty_function(closest_here);
        if (dist2_score < closestDist2_score)
        {
            best = closest_here;
            closestDist2_score = dist2_score;
            bestPos = p;
        }
    }
    return ClosestPointPolygon(best, bestPos, &polygon);
}

//= cura::PolygonUtils::findNearestVert
PolygonsPointIndex r21(const Point2LL& from, const Shape& polys)
{
    coord_t best_dist2 = std::numeric_limits<coord_t>::max();
    PolygonsPointIndex closest_vert;
    for (unsigned int poly_idx = 0; poly_idx < polys.size(); poly_idx++)
    {
        const Polygon& poly = polys[poly_idx];
        for (unsigned int point_idx = 0; point_idx < poly.size(); point_idx++)
        {
            const coord_t dist2 = vSize2(poly[point_idx] - from);
            if (dist2 < best_dist2)
            {
                best_dist2 = dist2;
                closest_vert = PolygonsPointIndex(&polys, poly_idx, point_idx);
            }
        }
    }
    return closest_vert;
}

//= cura::PolygonUtils::findNearestVert
unsigned int r22(const Point2LL& from, const Polygon& poly)
{
    int64_t best_dist2 = std::numeric_limits<int64_t>::max();
    unsigned int closest_vert_idx = -1;
    for (unsigned int point_idx = 0; point_idx < poly.size(); point_idx++)
    {
        int64_t dist2 = vSize2(poly[point_idx] - from);
        if (dist2 < best_dist2)
        {
            best_dist2 = dist2;
            closest_vert_idx = point_idx;
        }
    }
    return closest_vert_idx;
}

//= cura::PolygonUtils::createLocToLineGrid
std::unique_ptr<LocToLineGrid> r23(const Shape& polygons, int square_size)
{
    unsigned int n_points = 0;
    for (const auto& poly : polygons)
    {
        n_points += poly.size();
    }
    auto ret = std::make_unique<LocToLineGrid>(square_size, n_points);
    for (unsigned int poly_idx = 0; poly_idx < polygons.size(); poly_idx++)
    {
        const Polygon& poly = polygons[poly_idx];
        for (unsigned int point_idx = 0; point_idx < poly.size(); point_idx++)
        {
            ret->insert(PolygonsPointIndex(&polygons, poly_idx, point_idx));
        }
    }
    return ret;
}

//= cura::PolygonUtils::getNextPointWithDistance
bool r26(Point2LL from, int64_t dist, const OpenPolyline& poly, int start_idx, int poly_start_idx, GivenDistPoint& result)
{
    Point2LL prev_poly_point = poly[(start_idx + poly_start_idx) % poly.size()];
    for (unsigned int prev_idx = start_idx; prev_idx < poly.size(); prev_idx++)
    {
        int next_idx = (prev_idx + 1 + poly_start_idx) % poly.size(); 
        const Point2LL& next_poly_point = poly[next_idx];
        if (! shorterThen(next_poly_point - from, dist))
        {
            Point2LL pn = next_poly_point - prev_poly_point;
            if (shorterThen(pn, 100)) 
            {
                Point2LL middle = (next_poly_point + prev_poly_point) / 2;
                coord_t dist_to_middle = vSize(from - middle);
                if (dist_to_middle - dist < 100 && dist_to_middle - dist > -100)
                {
                    result.location = middle;
                    result.pos = prev_idx;
                    return true;
                }
                else
                {
                    prev_poly_point = next_poly_point;
                    continue;
                }
            }
            Point2LL pf = from - prev_poly_point;
            Point2LL px = dot(pf, pn) / vSize(pn) * pn / vSize(pn);
            Point2LL xf = pf - px;
            if (! shorterThen(xf, dist)) 
            {
                prev_poly_point = next_poly_point;
                continue;
            }
            int64_t xr_dist = std::sqrt(dist * dist - vSize2(xf)); 
            if (vSize(pn - px) - xr_dist < 1) 
            {
                prev_poly_point = next_poly_point;
                continue;
            }
            Point2LL xr = xr_dist * pn / vSize(pn);
            Point2LL pr = px + xr;
            result.location = prev_poly_point + pr;
            result.pos = prev_idx;
            return true;
        }
        prev_poly_point = next_poly_point;
    }
    return false;
}

//= cura::PolygonUtils::getNextParallelIntersection
std::optional<ClosestPointPolygon> r29(const ClosestPointPolygon& start, const Point2LL& line_to, const coord_t dist, const bool forward)
{
    const Polygon& poly = *start.poly_;
    const Point2LL s = start.p();
    const Point2LL t = line_to;
    const Point2LL st = t - s;
    const Point2LL shift = normal(turn90CCW(st), dist);
    Point2LL prev_vert = s;
    coord_t prev_projected = 0;
    for (unsigned int next_point_nr = 0; next_point_nr < poly.size(); next_point_nr++)
    {
        const unsigned int next_point_idx = forward
                                              ? (start.point_idx_ + 1 + next_point_nr) % poly.size()
                                              : (static_cast<size_t>(start.point_idx_) - next_point_nr + poly.size()) % poly.size(); 
        const Point2LL next_vert = poly[next_point_idx];
        const Point2LL so = next_vert - s;
        const coord_t projected = dot(shift, so) / dist;
        if (std::abs(projected) > dist)
        { 
            const Point2LL segment_vector = next_vert - prev_vert;
            const coord_t segment_length = vSize(segment_vector);
            const coord_t projected_segment_length = std::abs(projected - prev_projected);
            const int16_t sign = (projected > 0) ? 1 : -1;
            const coord_t projected_inter_segment_length
                = dist - sign * prev_projected; 
            const coord_t inter_segment_length = segment_length * projected_inter_segment_length / projected_segment_length;
            const Point2LL intersection = prev_vert + normal(next_vert - prev_vert, inter_segment_length);
            size_t vert_before_idx = next_point_idx;
            if (forward)
            {
                vert_before_idx = (next_point_idx > 0) ? vert_before_idx - 1 : poly.size() - 1;
            }
            return ClosestPointPolygon(intersection, vert_before_idx, &poly);
        }
        prev_vert = next_vert;
        prev_projected = projected;
    }
    return std::optional<ClosestPointPolygon>();
}

//= cura::PolygonUtils::polygonCollidesWithLineSegment
bool r30(const Point2LL from, const Point2LL to, const LocToLineGrid& loc_to_line, PolygonsPointIndex* collision_result)
{
    bool ret = false;
    Point2LL diff = to - from;
    if (vSize2(diff) < 2)
    { 
        return false;
    }
    PointMatrix transformation_matrix = PointMatrix(diff);
    Point2LL transformed_from = transformation_matrix.apply(from);
    Point2LL transformed_to = transformation_matrix.apply(to);
    PolygonsPointIndex result;
    std::function<bool(const PolygonsPointIndex&)> process_elem_func
        = [transformed_from, transformed_to, &transformation_matrix, &result, &ret](const PolygonsPointIndex& line_start)
    {
        Point2LL p0 = transformation_matrix.apply(line_start.p());
        Point2LL p1 = transformation_matrix.apply(line_start.next().p());
        if (LinearAlg2D::lineSegmentsCollide(transformed_from, transformed_to, p0, p1))
        {
            result = line_start;
            ret = true;
            return false;
        }
        return true;
    };
    loc_to_line.processLine(std::make_pair(from, to), process_elem_func);
    if (collision_result)
    {
        *collision_result = result;
    }
    return ret;
}

//= cura::PolygonUtils::polygonCollidesWithLineSegment
bool r31(const Polygon& poly, const Point2LL& transformed_startPoint, const Point2LL& transformed_endPoint, PointMatrix transformation_matrix)
{
    Point2LL p0 = transformation_matrix.apply(poly.back());
    for (Point2LL p1_ : poly)
    {
        Point2LL p1 = transformation_matrix.apply(p1_);
        if (LinearAlg2D::lineSegmentsCollide(transformed_startPoint, transformed_endPoint, p0, p1))
        {
            return true;
        }
        p0 = p1;
    }
    return false;
}

//= cura::PolygonUtils::polygonCollidesWithLineSegment
bool r32(const Polygon& poly, const Point2LL& startPoint, const Point2LL& endPoint)
{
    Point2LL diff = endPoint - startPoint;
    PointMatrix transformation_matrix = PointMatrix(diff);
    Point2LL transformed_startPoint = transformation_matrix.apply(startPoint);
    Point2LL transformed_endPoint = transformation_matrix.apply(endPoint);
    return PolygonUtils::polygonCollidesWithLineSegment(poly, transformed_startPoint, transformed_endPoint, transformation_matrix);
}

//= cura::PolygonUtils::polygonCollidesWithLineSegment
bool r33(const Shape& polys, const Point2LL& transformed_startPoint, const Point2LL& transformed_endPoint, PointMatrix transformation_matrix)
{
    for (const Polygon& poly : polys)
    {
        if (poly.size() == 0)
        {
            continue;
        }
        if (PolygonUtils::polygonCollidesWithLineSegment(poly, transformed_startPoint, transformed_endPoint, transformation_matrix))
        {
            return true;
        }
    }
    return false;
}

//= cura::PolygonUtils::polygonCollidesWithLineSegment
bool r34(const Shape& polys, const Point2LL& startPoint, const Point2LL& endPoint)
{
    if (endPoint == startPoint)
    {
        return false; 
    }
    Point2LL diff = endPoint - startPoint;
    PointMatrix transformation_matrix = PointMatrix(diff);
    Point2LL transformed_startPoint = transformation_matrix.apply(startPoint);
    Point2LL transformed_endPoint = transformation_matrix.apply(endPoint);
    return cura::PolygonUtils::polygonCollidesWithLineSegment(polys, transformed_startPoint, transformed_endPoint, transformation_matrix);
}

//= cura::PolygonUtils::polygonsIntersect
bool r35(const Polygon& poly_a, const Polygon& poly_b)
{
    AABB bba(poly_a);
    AABB bbb(poly_b);
    return bba.hit(bbb) && poly_a.intersection(poly_b).size() > 0;
}

//= cura::PolygonUtils::polygonOutlinesAdjacent
bool r36(const Polygon& inner_poly, const Polygon& outer_poly, const coord_t max_gap)
{
    AABB inner_aabb(inner_poly);
    AABB outer_aabb(outer_poly);
    inner_aabb.max_ += Point2LL(max_gap, max_gap); 
    inner_aabb.min_ -= Point2LL(max_gap, max_gap);
    if (! inner_aabb.hit(outer_aabb))
    {
        return false;
    }
    const coord_t max_gap2 = max_gap * max_gap;
    const unsigned outer_poly_size = outer_poly.size();
    for (unsigned line_index = 0; line_index < outer_poly_size; ++line_index)
    {
        const Point2LL lp0 = outer_poly[line_index];
        const Point2LL lp1 = outer_poly[(line_index + 1) % outer_poly_size];
        for (Point2LL inner_poly_point : inner_poly)
        {
            if (LinearAlg2D::getDist2FromLineSegment(lp0, inner_poly_point, lp1) < max_gap2)
            {
                return true;
            }
        }
    }
    return false;
}

//= cura::PolygonUtils::findAdjacentPolygons
void r37(std::vector<unsigned>& adjacent_poly_indices, const Polygon& poly, const std::vector<const Polygon*>& possible_adjacent_polys, const coord_t max_gap)
{
    for (unsigned poly_idx = 0; poly_idx < possible_adjacent_polys.size(); ++poly_idx)
    {
        if (cura::PolygonUtils::polygonOutlinesAdjacent(poly, *possible_adjacent_polys[poly_idx], max_gap) || cura::PolygonUtils::polygonOutlinesAdjacent(*possible_adjacent_polys[poly_idx], poly, max_gap))
        {
            adjacent_poly_indices.push_back(poly_idx);
        }
    }
}

//= cura::PolygonUtils::relativeHammingDistance
double r38(const Shape& poly_a, const Shape& poly_b)
{
    const double area_a = std::abs(poly_a.area());
    const double area_b = std::abs(poly_b.area());
    const double total_area = area_a + area_b;
    constexpr bool borders_allowed = true;
    if (total_area == 0.0)
    {
        for (const Polygon& polygon_a : poly_a)
        {
            for (Point2LL point : polygon_a)
            {
                if (! poly_b.inside(point, borders_allowed))
                {
                    return 1.0;
                }
            }
        }
        for (const Polygon& polygon_b : poly_b)
        {
            for (Point2LL point : polygon_b)
            {
                if (! poly_a.inside(point, borders_allowed))
                {
                    return 1.0;
                }
            }
        }
        return 0.0; 
    }
    const Shape symmetric_difference = poly_a.xorPolygons(poly_b);
    const double hamming_distance = symmetric_difference.area();
    return hamming_distance / total_area;
}

//= cura::PolygonUtils::makeCirclePoint
Point2LL r40(const Point2LL& mid, const coord_t radius, const AngleRadians& angle)
{
    return mid + Point2LL(std::llrint(static_cast<double>(radius) * cos(angle)), std::llrint(static_cast<double>(radius) * sin(angle)));
}

//= cura::PolygonUtils::makeWheel
ClosedPolyline r41(const Point2LL& mid, const coord_t inner_radius, const coord_t outer_radius, const size_t semi_nb_spokes, const size_t arc_angle_resolution)
{
    ClosedPolyline wheel;
    const size_t nb_spokes = semi_nb_spokes * 2;
    const double spoke_angle_step = TAU / static_cast<double>(nb_spokes);
    const double arc_angle_step = spoke_angle_step / static_cast<double>(arc_angle_resolution);
    for (size_t spoke = 0; spoke < nb_spokes; ++spoke)
    {
        const double spoke_angle = static_cast<double>(spoke) * spoke_angle_step;
        const coord_t radius = spoke % 2 == 0 ? inner_radius : outer_radius;
        for (size_t arc_part = 0; arc_part <= arc_angle_resolution; ++arc_part)
        {
            const double angle = spoke_angle + static_cast<double>(arc_part) * arc_angle_step;
            wheel.push_back(cura::PolygonUtils::makeCirclePoint(mid, radius, angle));
        }
    }
    return wheel;
}

//= cura::PolygonUtils::connect
Shape r42(const Shape& input)
{
    Shape ret;
    std::vector<SingleShape> parts = input.splitIntoParts(true);
    for (SingleShape& part : parts)
    {
        Polygon& outline = part.outerPolygon();
        for (size_t hole_idx = 1; hole_idx < part.size(); hole_idx++)
        {
            Polygon& hole = part[hole_idx];
            Point2LL hole_point = hole[0];
            hole.push_back(hole_point);
            size_t best_segment_to_idx = 0;
            coord_t best_dist = std::numeric_limits<coord_t>::max();
            Point2LL best_intersection_point = outline.back();
            Point2LL prev = outline.back();
            for (size_t point_idx = 0; point_idx < outline.size(); point_idx++)
            {
                Point2LL here = outline[point_idx];
                if (here.Y > hole_point.Y && prev.Y <= hole_point.Y && here.Y != prev.Y)
                {
                    Point2LL intersection_point = prev + (here - prev) * (hole_point.Y - prev.Y) / (here.Y - prev.Y);
                    coord_t dist = hole_point.X - intersection_point.X;
                    if (dist > 0 && dist < best_dist)
                    {
                        best_dist = dist;
                        best_segment_to_idx = point_idx;
                        best_intersection_point = intersection_point;
                    }
                }
                prev = here;
            }
            outline.insert(outline.begin() + best_segment_to_idx, 2, best_intersection_point);
            outline.insert(outline.begin() + best_segment_to_idx + 1, hole.begin(), hole.end());
        }
        ret.push_back(outline);
    }
    return ret;
}

//= cura::PolygonUtils::fixSelfIntersections
void r43(const coord_t epsilon, Shape& polygon)
{
    if (epsilon < 1)
    {
        polygon.simplify();
        return;
    }
    const coord_t half_epsilon = std::max(10LL, (epsilon + 1) / 2);
    constexpr coord_t grid_size = 2000;
    auto query_grid = PolygonUtils::createLocToLineGrid(polygon, grid_size);
    const coord_t move_dist = half_epsilon - 2;
    const coord_t half_epsilon_sqrd = half_epsilon * half_epsilon;
    const size_t n = polygon.size();
    for (size_t poly_idx = 0; poly_idx < n; poly_idx++)
    {
        const size_t pathlen = polygon[poly_idx].size();
        for (size_t point_idx = 0; point_idx < pathlen; ++point_idx)
        {
            Point2LL& pt = polygon[poly_idx][point_idx];
            for (const auto& line : query_grid->getNearby(pt, epsilon * 2))
            {
                const size_t line_next_idx = (line.point_idx_ + 1) % polygon[line.poly_idx_].size();
                if (poly_idx == line.poly_idx_ && (point_idx == line.point_idx_ || point_idx == line_next_idx))
                {
                    continue;
                }
                const Point2LL& a = polygon[line.poly_idx_][line.point_idx_];
                const Point2LL& b = polygon[line.poly_idx_][line_next_idx];
                if (half_epsilon_sqrd >= vSize2(pt - LinearAlg2D::getClosestOnLineSegment(pt, a, b)))
                {
                    const Point2LL& other = polygon[poly_idx][(point_idx + 1) % pathlen];
                    const Point2LL vec = LinearAlg2D::pointIsLeftOfLine(other, a, b) > 0 ? b - a : a - b;
                    const coord_t len = std::max(vSize(vec), 1LL);
                    pt.X += (-vec.Y * move_dist) / len;
                    pt.Y += (vec.X * move_dist) / len;
                }
            }
        }
    }
    polygon.simplify();
}

//= cura::PolygonUtils::unionManySmall
Shape r44(const Shape& polygon)
{
    if (polygon.size() < 8)
    {
        return polygon.unionPolygons();
    }
    Shape a, b;
    a.reserve(polygon.size() / 2);
    b.reserve(a.size() + 1);
    for (const auto& [i, path] : polygon | ranges::views::enumerate)
    {
        (i % 2 == 0 ? b : a).push_back(path);
    }
    return cura::PolygonUtils::unionManySmall(a).unionPolygons(cura::PolygonUtils::unionManySmall(b));
}

//= cura::PolygonUtils::clipPolygonWithAABB
Shape r45(const Shape& src, const AABB& aabb)
{
    Shape out;
    out.reserve(src.size());
    for (const auto path : src)
    {
        Polygon poly;
        const size_t cnt = path.size();
        if (cnt < 3)
        {
            return Shape();
        }
        enum class Side
        {
            Left = 1,
            Right = 2,
            Top = 4,
            Bottom = 8
        };
        auto sides = [aabb](const Point2LL& p)
        {
            return int(p.X < aabb.min_.X) * int(Side::Left) + int(p.X > aabb.max_.X) * int(Side::Right) + int(p.Y < aabb.min_.Y) * int(Side::Bottom)
                 + int(p.Y > aabb.max_.Y) * int(Side::Top);
        };
        int sides_prev = sides(path.back());
        int sides_this = sides(path.front());
        const size_t last = cnt - 1;
        for (size_t i = 0; i < last; ++i)
        {
            int sides_next = sides(path[i + 1]);
            if ( 
                sides_this == 0 ||
                (sides_prev & sides_this & sides_next) == 0)
            {
                poly.push_back(path[i]);
                sides_prev = sides_this;
            }
            else
            {
            }
            sides_this = sides_next;
        }
        if (! poly.empty())
        {
            int sides_next = sides(poly.front());
            if (sides_this == 0 || 
                (sides_prev & sides_this & sides_next) == 0) 
                poly.push_back(path.back());
        }
        if (! poly.empty())
        {
            out.push_back(poly);
        }
    }
    return out;
}

//= cura::PolygonUtils::mergeThinOverlap
void r46(const coord_t max_dist, Shape& source, Shape& destination, const bool allow_thin_areas_grow)
{
    if (source.empty() || destination.empty())
    {
        return;
    }
    const Shape allow_grow_area = cura::PolygonUtils::getThinAreas(destination, max_dist);
    if (allow_grow_area.empty())
    {
        return;
    }
    const Shape source_grow_part = allow_thin_areas_grow ? source : cura::PolygonUtils::getWideAreas(source, max_dist);
    if (source_grow_part.empty())
    {
        return;
    }
    const Shape actual_grow_area = source_grow_part.offset(max_dist).intersection(allow_grow_area).offset(EPSILON);
    if (actual_grow_area.empty())
    {
        return;
    }
    source = source.unionPolygons(actual_grow_area);
    destination = destination.difference(actual_grow_area);
}

//= cura::PolygonUtils::getThinAreas
Shape r47(const Shape& shape, const coord_t max_width)
{
    return shape.difference(cura::PolygonUtils::getRawWideAreas(shape, max_width, EPSILON));
}

//= cura::PolygonUtils::getWideAreas
Shape r48(const Shape& shape, const coord_t min_width)
{
    return shape.intersection(cura::PolygonUtils::getRawWideAreas(shape, min_width, EPSILON));
}

//= cura::PolygonUtils::getRawWideAreas
Shape r49(const Shape& shape, const coord_t min_width, const coord_t extra_widen)
{
    return shape.offset(-min_width / 2).offset(min_width / 2 + extra_widen);
}

//= cura::PolygonUtils::generateInsetOutset
namespace n52
{
using InsetOutset = cura::PolygonUtils::InsetOutset;
PolygonUtils::InsetOutset r52(const Shape& shape, const coord_t width, const coord_t line_width)
{
    InsetOutset result;
    Shape current_outset = shape;
    const coord_t semi_line_width = line_width / 2;
    coord_t offset = semi_line_width;
    const coord_t direction = (width > 0) ? 1 : -1;
    while ((offset + semi_line_width <= width * direction) && ! current_outset.empty())
    {
        current_outset = shape.offset(offset * direction);
        result.walls.push_back(current_outset);
        offset += line_width;
    }
    if (! result.walls.empty())
    {
        result.final_contour_offset = direction * (offset - line_width / 2);
    }
    return result;
}
} // namespace n52

//= cura::ClosestPoint::ClosestPoint | cura::ClosestPoint<cura::OpenPolyline>
namespace n53
{
using LineType = cura::OpenPolyline;
using ClosestPoint = cura::ClosestPoint<cura::OpenPolyline>;
void r53(cura::ClosestPoint<cura::OpenPolyline>& self, Point2LL p, size_t pos, const LineType* poly)
{
    member(self.location_) = p;
    member(self.poly_) = poly;
    member(self.poly_idx_) = NO_INDEX;
    member(self.point_idx_) = pos;
}
} // namespace n53

//= cura::ClosestPoint::ClosestPoint | cura::ClosestPoint<cura::Polygon>
namespace n54
{
using LineType = cura::Polygon;
using ClosestPoint = cura::ClosestPoint<cura::Polygon>;
void r54(cura::ClosestPoint<cura::Polygon>& self, Point2LL p, size_t pos, const LineType* poly)
{
    member(self.location_) = p;
    member(self.poly_) = poly;
    member(self.poly_idx_) = NO_INDEX;
    member(self.point_idx_) = pos;
}
} // namespace n54

//= cura::ClosestPoint::ClosestPoint | cura::ClosestPoint<cura::Polygon>
namespace n55
{
using LineType = cura::Polygon;
using ClosestPoint = cura::ClosestPoint<cura::Polygon>;
void r55(cura::ClosestPoint<cura::Polygon>& self, Point2LL p, size_t pos, const LineType* poly, size_t poly_idx)
{
    member(self.location_) = p;
    member(self.poly_) = poly;
    member(self.poly_idx_) = poly_idx;
    member(self.point_idx_) = pos;
}
} // namespace n55

//= cura::ClosestPoint::ClosestPoint | cura::ClosestPoint<cura::OpenPolyline>
namespace n56
{
using LineType = cura::OpenPolyline;
using ClosestPoint = cura::ClosestPoint<cura::OpenPolyline>;
void r56(cura::ClosestPoint<cura::OpenPolyline>& self, Point2LL p, size_t pos, const LineType* poly, size_t poly_idx)
{
    member(self.location_) = p;
    member(self.poly_) = poly;
    member(self.poly_idx_) = poly_idx;
    member(self.point_idx_) = pos;
}
} // namespace n56

//= cura::ClosestPoint::ClosestPoint | cura::ClosestPoint<cura::Polygon>
namespace n57
{
using LineType = cura::Polygon;
using ClosestPoint = cura::ClosestPoint<cura::Polygon>;
void r57(cura::ClosestPoint<cura::Polygon>& self, const LineType* poly)
{
    member(self.poly_) = poly;
    member(self.poly_idx_) = NO_INDEX;
    member(self.point_idx_) = NO_INDEX;
}
} // namespace n57

//= cura::ClosestPoint::ClosestPoint | cura::ClosestPoint<cura::Polygon>
namespace n58
{
using ClosestPoint = cura::ClosestPoint<cura::Polygon>;
void r58(cura::ClosestPoint<cura::Polygon>& self)
{
    member(self.poly_idx_) = NO_INDEX;
    member(self.point_idx_) = NO_INDEX;
}
} // namespace n58

//= cura::ClosestPoint::p | cura::ClosestPoint<cura::Polygon>
namespace n59
{
using ClosestPoint = cura::ClosestPoint<cura::Polygon>;
Point2LL r59(const cura::ClosestPoint<cura::Polygon>& self)
{ 
    return self.location_;
}
} // namespace n59

//= cura::ClosestPoint::p | cura::ClosestPoint<cura::OpenPolyline>
namespace n60
{
using ClosestPoint = cura::ClosestPoint<cura::OpenPolyline>;
Point2LL r60(const cura::ClosestPoint<cura::OpenPolyline>& self)
{ 
    return self.location_;
}
} // namespace n60

//= cura::ClosestPoint::isValid | cura::ClosestPoint<cura::Polygon>
namespace n61
{
using ClosestPoint = cura::ClosestPoint<cura::Polygon>;
bool r61(const cura::ClosestPoint<cura::Polygon>& self)
{
    return self.point_idx_ != NO_INDEX;
}
} // namespace n61

//= std::hash::operator() | std::hash<cura::ClosestPoint<cura::Polygon>>
namespace n64
{
using hash = std::hash<cura::ClosestPoint<cura::Polygon>>;
size_t r64(const std::hash<cura::ClosestPoint<cura::Polygon>>& self, const cura::ClosestPointPolygon& cpp)
{
    return std::hash<cura::Point2LL>()(cpp.p());
}
} // namespace n64

//= cura::PathsPointIndex::getPolygon | cura::PathsPointIndex<cura::Shape>
namespace n65
{
using PathsPointIndex = cura::PathsPointIndex<cura::Shape>;
const Polygon& r65(const cura::PathsPointIndex<cura::Shape>& self)
{
    return (*self.polygons_)[self.poly_idx_];
}
} // namespace n65

//= cura::PolygonsPointIndexSegmentLocator::operator()
std::pair<Point2LL, Point2LL> r66(const cura::PolygonsPointIndexSegmentLocator& self, const PolygonsPointIndex& val)
{
    const Polygon& poly = (*val.polygons_)[val.poly_idx_];
    Point2LL start = poly[val.point_idx_];
    size_t next_point_idx = (val.point_idx_ + 1ul) % poly.size();
    Point2LL end = poly[next_point_idx];
    return std::pair<Point2LL, Point2LL>(start, end);
}

//= cura::PolygonsSegmentIndex::PolygonsSegmentIndex
void r67(cura::PolygonsSegmentIndex& self)
{
        base<PolygonsPointIndex>(self) = ::cura::PolygonsPointIndex();
}

//= cura::PolygonsSegmentIndex::PolygonsSegmentIndex
void r68(cura::PolygonsSegmentIndex& self, const Shape* polygons, unsigned int poly_idx, unsigned int point_idx)
{
        base<PolygonsPointIndex>(self) = ::cura::PolygonsPointIndex(polygons, poly_idx, point_idx);
}

//= cura::PathsPointIndex::PathsPointIndex | cura::PathsPointIndex<cura::Shape>
namespace n71
{
using PathsPointIndex = cura::PathsPointIndex<cura::Shape>;
void r71(cura::PathsPointIndex<cura::Shape>& self)
{
    member(self.polygons_) = nullptr;
    member(self.poly_idx_) = 0;
    member(self.point_idx_) = 0;
}
} // namespace n71

//= cura::PathsPointIndex::PathsPointIndex | cura::PathsPointIndex<std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>>>
namespace n72
{
using PathsPointIndex = cura::PathsPointIndex<std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>>>;
void r72(cura::PathsPointIndex<std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>>>& self)
{
    member(self.polygons_) = nullptr;
    member(self.poly_idx_) = 0;
    member(self.point_idx_) = 0;
}
} // namespace n72

//= cura::PathsPointIndex::PathsPointIndex | cura::PathsPointIndex<cura::Shape>
namespace n73
{
using Paths = cura::Shape;
using PathsPointIndex = cura::PathsPointIndex<cura::Shape>;
void r73(cura::PathsPointIndex<cura::Shape>& self, const Paths* polygons, size_t poly_idx, size_t point_idx)
{
    member(self.polygons_) = polygons;
    member(self.poly_idx_) = poly_idx;
    member(self.point_idx_) = point_idx;
}
} // namespace n73

//= cura::PathsPointIndex::PathsPointIndex | cura::PathsPointIndex<std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>>>
namespace n74
{
using Paths = std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>>;
using PathsPointIndex = cura::PathsPointIndex<std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>>>;
void r74(cura::PathsPointIndex<std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>>>& self, const Paths* polygons, size_t poly_idx, size_t point_idx)
{
    member(self.polygons_) = polygons;
    member(self.poly_idx_) = poly_idx;
    member(self.point_idx_) = point_idx;
}
} // namespace n74

//= cura::PathsPointIndex::p | cura::PathsPointIndex<cura::Shape>
namespace n75
{
using PathsPointIndex = cura::PathsPointIndex<cura::Shape>;
Point2LL r75(const cura::PathsPointIndex<cura::Shape>& self)
{
    if (! self.polygons_)
    {
        return Point2LL(0, 0);
    }
    return make_point((*self.polygons_)[self.poly_idx_][self.point_idx_]);
}
} // namespace n75

//= cura::PathsPointIndex::p | cura::PathsPointIndex<std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>>>
namespace n76
{
using PathsPointIndex = cura::PathsPointIndex<std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>>>;
Point2LL r76(const cura::PathsPointIndex<std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>>>& self)
{
    if (! self.polygons_)
    {
        return Point2LL(0, 0);
    }
    return make_point((*self.polygons_)[self.poly_idx_][self.point_idx_]);
}
} // namespace n76

//= cura::PathsPointIndex::initialized | cura::PathsPointIndex<cura::Shape>
namespace n77
{
using PathsPointIndex = cura::PathsPointIndex<cura::Shape>;
bool r77(const cura::PathsPointIndex<cura::Shape>& self)
{
    return self.polygons_;
}
} // namespace n77

//= cura::PathsPointIndex::initialized | cura::PathsPointIndex<std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>>>
namespace n78
{
using PathsPointIndex = cura::PathsPointIndex<std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>>>;
bool r78(const cura::PathsPointIndex<std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>>>& self)
{
    return self.polygons_;
}
} // namespace n78

//= cura::PathsPointIndex::operator= | cura::PathsPointIndex<cura::Shape>
namespace n79
{
using PathsPointIndex = cura::PathsPointIndex<cura::Shape>;
PathsPointIndex& r79(cura::PathsPointIndex<cura::Shape>& self, const PathsPointIndex& other)
{
    self.polygons_ = other.polygons_;
    self.poly_idx_ = other.poly_idx_;
    self.point_idx_ = other.point_idx_;
    return self;
}
} // namespace n79

//= cura::PathsPointIndex::operator= | cura::PathsPointIndex<std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>>>
namespace n80
{
using PathsPointIndex = cura::PathsPointIndex<std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>>>;
PathsPointIndex& r80(cura::PathsPointIndex<std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>>>& self, const PathsPointIndex& other)
{
    self.polygons_ = other.polygons_;
    self.poly_idx_ = other.poly_idx_;
    self.point_idx_ = other.point_idx_;
    return self;
}
} // namespace n80

//= cura::PathsPointIndex::operator++ | cura::PathsPointIndex<cura::Shape>
namespace n81
{
using PathsPointIndex = cura::PathsPointIndex<cura::Shape>;
PathsPointIndex& r81(cura::PathsPointIndex<cura::Shape>& self)
{
    self.point_idx_ = (self.point_idx_ + 1) % (*self.polygons_)[self.poly_idx_].size();
    return self;
}
} // namespace n81

//= cura::PathsPointIndex::next | cura::PathsPointIndex<cura::Shape>
namespace n82
{
using PathsPointIndex = cura::PathsPointIndex<cura::Shape>;
PathsPointIndex r82(const cura::PathsPointIndex<cura::Shape>& self)
{
    PathsPointIndex ret(self);
    ++ret;
    return ret;
}
} // namespace n82

//= cura::PathsPointIndexLocator::operator() | cura::PathsPointIndexLocator<cura::OpenLinesSet>
namespace n83
{
using Paths = cura::OpenLinesSet;
using PathsPointIndexLocator = cura::PathsPointIndexLocator<cura::OpenLinesSet>;
Point2LL r83(const cura::PathsPointIndexLocator<cura::OpenLinesSet>& self, const PathsPointIndex<Paths>& val)
{
    return make_point(val.p());
}
} // namespace n83

//= cura::PathsPointIndexLocator::operator() | cura::PathsPointIndexLocator<std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>>>
namespace n84
{
using Paths = std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>>;
using PathsPointIndexLocator = cura::PathsPointIndexLocator<std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>>>;
Point2LL r84(const cura::PathsPointIndexLocator<std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>>>& self, const PathsPointIndex<Paths>& val)
{
    return make_point(val.p());
}
} // namespace n84

//= std::hash::operator() | std::hash<cura::PathsPointIndex<cura::Shape>>
namespace n85
{
using hash = std::hash<cura::PathsPointIndex<cura::Shape>>;
size_t r85(const std::hash<cura::PathsPointIndex<cura::Shape>>& self, const cura::PolygonsPointIndex& lpi)
{
    return std::hash<cura::Point2LL>()(lpi.p());
}
} // namespace n85

//= cura::ListPolyIt::convertPolygonsToLists
void r86(const Shape& shape, ListPolygons& result)
{
    for (const Polygon& poly : shape)
    {
        result.emplace_back();
        cura::ListPolyIt::convertPolygonToList(poly, result.back());
    }
}

//= cura::ListPolyIt::convertPolygonToList
void r87(const Polygon& poly, ListPolygon& result)
{
#ifdef DEBUG
    Point2LL last = poly.back();
#endif 
    for (const Point2LL& p : poly)
    {
        result.push_back(p);
#ifdef DEBUG
        last = p;
#endif 
    }
}

//= cura::ListPolyIt::convertListPolygonsToPolygons
void r88(const ListPolygons& list_polygons, Shape& polygons)
{
    for (unsigned int poly_idx = 0; poly_idx < polygons.size(); poly_idx++)
    {
        polygons[poly_idx].clear();
        cura::ListPolyIt::convertListPolygonToPolygon(list_polygons[poly_idx], polygons[poly_idx]);
    }
}

//= cura::ListPolyIt::convertListPolygonToPolygon
void r89(const ListPolygon& list_polygon, Polygon& polygon)
{
    for (const Point2LL& p : list_polygon)
    {
        polygon.push_back(p);
    }
}

//= cura::ListPolyIt::insertPointNonDuplicate
ListPolyIt r90(const ListPolyIt before, const ListPolyIt after, const Point2LL to_insert)
{
    if (to_insert == before.p())
    {
        return before;
    }
    else if (to_insert == after.p())
    {
        return after;
    }
    else
    {
        ListPolygon& poly = *after.poly_;
        return ListPolyIt(poly, poly.insert(after.it_, to_insert));
    }
}

//= cura::ListPolyIt::ListPolyIt
void r91(cura::ListPolyIt& self, const ListPolyIt& other)
{
    member(self.poly_) = other.poly_;
    member(self.it_) = other.it_;
}

//= cura::ListPolyIt::ListPolyIt
void r92(cura::ListPolyIt& self, ListPolygon& poly, ListPolygon::iterator it)
{
    member(self.poly_) = &poly;
    member(self.it_) = it;
}

//= cura::ListPolyIt::p
Point2LL& r93(const cura::ListPolyIt& self)
{
    return *self.it_;
}

//= cura::ListPolyIt::operator==
bool r94(const cura::ListPolyIt& self, const ListPolyIt& other)
{
    return self.poly_ == other.poly_ && self.it_ == other.it_;
}

//= cura::ListPolyIt::operator!=
bool r95(const cura::ListPolyIt& self, const ListPolyIt& other)
{
    return ! (self == other);
}

//= cura::ListPolyIt::operator=
ListPolyIt& r96(cura::ListPolyIt& self, const ListPolyIt& other)
{
    self.poly_ = other.poly_;
    self.it_ = other.it_;
    return self;
}

//= cura::ListPolyIt::operator++
ListPolyIt& r97(cura::ListPolyIt& self)
{
    ++self.it_;
    if (self.it_ == self.poly_->end())
    {
        self.it_ = self.poly_->begin();
    }
    return self;
}

//= cura::ListPolyIt::operator--
ListPolyIt& r98(cura::ListPolyIt& self)
{
    if (self.it_ == self.poly_->begin())
    {
        self.it_ = self.poly_->end();
    }
    --self.it_;
    return self;
}

//= cura::ListPolyIt::next
ListPolyIt r99(const cura::ListPolyIt& self)
{
    ListPolyIt ret(self);
    ++ret;
    return ret;
}

//= cura::ListPolyIt::prev
ListPolyIt r100(const cura::ListPolyIt& self)
{
    ListPolyIt ret(self);
    --ret;
    return ret;
}

//= cura::ListPolyIt::remove
void r101(const cura::ListPolyIt& self)
{
    self.poly_->erase(self.it_);
}

//= std::hash::operator() | std::hash<cura::ListPolyIt>
namespace n102
{
using hash = std::hash<cura::ListPolyIt>;
size_t r102(const std::hash<cura::ListPolyIt>& self, const cura::ListPolyIt& lpi)
{
    return std::hash<cura::Point2LL>()(lpi.p());
}
} // namespace n102

//= cura::PathsPointIndex::operator< | cura::PathsPointIndex<cura::Shape>
namespace n110
{
using PathsPointIndex = cura::PathsPointIndex<cura::Shape>;
bool r110(const cura::PathsPointIndex<cura::Shape>& self, const PathsPointIndex& other)
{
    return self.p() < other.p();
}
} // namespace n110

//= cura::PathsPointIndex::operator== | cura::PathsPointIndex<cura::Shape>
namespace n111
{
using PathsPointIndex = cura::PathsPointIndex<cura::Shape>;
bool r111(const cura::PathsPointIndex<cura::Shape>& self, const PathsPointIndex& other)
{
    return self.polygons_ == other.polygons_ && self.poly_idx_ == other.poly_idx_ && self.point_idx_ == other.point_idx_;
}
} // namespace n111

//= cura::PathsPointIndex::operator!= | cura::PathsPointIndex<cura::Shape>
namespace n112
{
using PathsPointIndex = cura::PathsPointIndex<cura::Shape>;
bool r112(const cura::PathsPointIndex<cura::Shape>& self, const PathsPointIndex& other)
{
    return ! (self == other);
}
} // namespace n112

//= cura::PathsPointIndex::operator-- | cura::PathsPointIndex<cura::Shape>
namespace n113
{
using PathsPointIndex = cura::PathsPointIndex<cura::Shape>;
PathsPointIndex& r113(cura::PathsPointIndex<cura::Shape>& self)
{
    if (self.point_idx_ == 0)
    {
        self.point_idx_ = (*self.polygons_)[self.poly_idx_].size();
    }
    self.point_idx_--;
    return self;
}
} // namespace n113

//= cura::PathsPointIndex::prev | cura::PathsPointIndex<cura::Shape>
namespace n114
{
using PathsPointIndex = cura::PathsPointIndex<cura::Shape>;
PathsPointIndex r114(const cura::PathsPointIndex<cura::Shape>& self)
{
    PathsPointIndex ret(self);
    --ret;
    return ret;
}
} // namespace n114

//END
}  // namespace ref

