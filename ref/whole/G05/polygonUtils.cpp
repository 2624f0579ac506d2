// What the functions of this unit compute.
#include "utils/polygonUtils.h"
#include <array>
#include <list>
#include <numbers>
#include <sstream>
#include <unordered_set>
#include <range/v3/view/enumerate.hpp>
#include "geometry/ClosedLinesSet.h"
#include "geometry/OpenLinesSet.h"
#include "geometry/PointMatrix.h"
#include "geometry/SingleShape.h"
#include "infill.h"
#include "utils/SparsePointGridInclusive.h"
#include "utils/linearAlg2D.h"
#ifdef DEBUG
#include <spdlog/spdlog.h>
#include "utils/AABB.h"
#endif
namespace cura
{
const std::function<int(Point2LL)> PolygonUtils::no_penalty_function = [](Point2LL)
{
    return 0;
};
std::optional<ClosestPointPolygon>
//= cura::PolygonUtils::findClose
    PolygonUtils::findClose(Point2LL from, const Shape& polygons, const LocToLineGrid& loc_to_line, const std::function<int(Point2LL)>& penalty_function)
{
    std::vector<PolygonsPointIndex> near_lines = loc_to_line.getNearby(from, loc_to_line.getCellSize());
    Point2LL best(0, 0);
    int64_t closest_dist2_score = std::numeric_limits<int64_t>::max();
    PolygonsPointIndex best_point_poly_idx(nullptr, NO_INDEX, NO_INDEX);
    for (PolygonsPointIndex& point_poly_index : near_lines)
    {
        const Polygon& poly = polygons[point_poly_index.poly_idx_];
        const Point2LL& p1 = poly[point_poly_index.point_idx_];
        const Point2LL& p2 = poly[(point_poly_index.point_idx_ + 1) % poly.size()];
        Point2LL closest_here = LinearAlg2D::getClosestOnLineSegment(from, p1, p2);
        int64_t dist2_score = vSize2(from - closest_here) + penalty_function(closest_here);
        if (dist2_score < closest_dist2_score)
        {
            best = closest_here;
            closest_dist2_score = dist2_score;
            best_point_poly_idx = point_poly_index;
        }
    }
    if (best_point_poly_idx.poly_idx_ == NO_INDEX)
    {
        return std::optional<ClosestPointPolygon>();
    }
    else
    {
        return std::optional<ClosestPointPolygon>(std::in_place, best, best_point_poly_idx.point_idx_, &(polygons[best_point_poly_idx.poly_idx_]), best_point_poly_idx.poly_idx_);
    }
}
//END
std::vector<std::pair<ClosestPointPolygon, ClosestPointPolygon>>
//= cura::PolygonUtils::findClose
    PolygonUtils::findClose(const Polygon& from, const Shape& destination, const LocToLineGrid& destination_loc_to_line, const std::function<int(Point2LL)>& penalty_function)
{
    std::vector<std::pair<ClosestPointPolygon, ClosestPointPolygon>> ret;
    int p0_idx = from.size() - 1;
    Point2LL p0(from[p0_idx]);
    int grid_size = destination_loc_to_line.getCellSize();
    for (unsigned int p1_idx = 0; p1_idx < from.size(); p1_idx++)
    {
        const Point2LL& p1 = from[p1_idx];
        std::optional<ClosestPointPolygon> best_here = findClose(p1, destination, destination_loc_to_line, penalty_function);
        if (best_here)
        {
            ret.push_back(std::make_pair(ClosestPointPolygon(p1, p1_idx, &from), *best_here));
        }
        Point2LL p0p1 = p1 - p0;
        int dist_to_p1 = vSize(p0p1);
        for (unsigned int middle_point_nr = 1; dist_to_p1 > grid_size * 2; ++middle_point_nr)
        {
            Point2LL x = p0 + normal(p0p1, middle_point_nr * grid_size);
            dist_to_p1 -= grid_size;
            best_here = findClose(x, destination, destination_loc_to_line, penalty_function);
            if (best_here)
            {
                ret.push_back(std::make_pair(ClosestPointPolygon(x, p0_idx, &from), *best_here));
            }
        }
        p0 = p1;
        p0_idx = p1_idx;
    }
    return ret;
}
//END
//= cura::PolygonUtils::walk
template<class LineType>
ClosestPoint<LineType> PolygonUtils::walk(const ClosestPoint<LineType>& from, coord_t distance)
{
    const LineType& poly = *from.poly_;
    Point2LL last_vertex = from.p();
    Point2LL next_vertex;
    size_t last_point_idx = from.point_idx_;
    for (size_t point_idx = from.point_idx_ + 1;; point_idx++)
    {
        if (point_idx == poly.size())
        {
            point_idx = 0;
        }
        next_vertex = poly[point_idx];
        distance -= vSize(last_vertex - next_vertex);
        if (distance <= 0)
            break;
        last_vertex = next_vertex;
        last_point_idx = point_idx;
    }
    Point2LL result = next_vertex + normal(last_vertex - next_vertex, -distance);
    return ClosestPoint<LineType>(result, last_point_idx, &poly, from.poly_idx_);
}
//END
//= cura::PolygonUtils::makeDisc
Polygon PolygonUtils::makeDisc(const Point2LL& mid, const coord_t radius, const size_t steps)
{
    return makeCircle<Polygon>(mid, radius, steps);
}
//END
std::tuple<ClosedLinesSet, coord_t>
//= cura::PolygonUtils::generateCirculatOutset
    PolygonUtils::generateCirculatOutset(const Point2LL& center, const coord_t inner_radius, const coord_t outer_radius, coord_t line_width, const size_t circle_definition)
{
    ClosedLinesSet outset;
    const coord_t semi_line_width = line_width / 2;
    coord_t radius = inner_radius + semi_line_width;
    while (radius + semi_line_width <= outer_radius)
    {
        outset.push_back(makeCircle(center, radius, circle_definition));
        radius += line_width;
    }
    return { outset, radius - semi_line_width };
}
//END
//= cura::PolygonUtils::generateCircularInset
ClosedLinesSet PolygonUtils::generateCircularInset(const Point2LL& center, const coord_t outer_radius, const coord_t line_width, const size_t circle_definition)
{
    ClosedLinesSet inset;
    const coord_t semi_line_width = line_width / 2;
    coord_t radius = outer_radius - semi_line_width;
    while (radius - semi_line_width >= line_width)
    {
        inset.push_back(makeCircle(center, radius, circle_definition));
        radius -= line_width;
    }
    return inset;
}
//END
template ClosestPoint<Polygon> PolygonUtils::walk(const ClosestPoint<Polygon>& from, coord_t distance);
template ClosestPoint<OpenPolyline> PolygonUtils::walk(const ClosestPoint<OpenPolyline>& from, coord_t distance);
}
