// What the functions of this unit compute.
#include "utils/Simplify.h"
#include <limits>
#include <queue>
#include "geometry/ClosedPolyline.h"
#include "geometry/MixedLinesSet.h"
#include "geometry/OpenPolyline.h"
#include "settings/Settings.h"
#include "utils/ExtrusionLine.h"
#include "utils/linearAlg2D.h"
namespace cura
{
//= cura::Simplify::polygon
Polygon Simplify::polygon(const Polygon& polygon) const
{
    constexpr bool is_closed = true;
    return simplify(polygon, is_closed);
}
//END
//= cura::Simplify::polygon
ExtrusionLine Simplify::polygon(const ExtrusionLine& polygon) const
{
    constexpr bool is_closed = true;
    return simplify(polygon, is_closed);
}
//END
template<class LineType>
LinesSet<LineType> Simplify::polyline(const LinesSet<LineType>& polylines) const
{
    LinesSet<LineType> result;
    for (size_t i = 0; i < polylines.size(); ++i)
    {
        result.push_back(polyline(polylines[i]), CheckNonEmptyParam::OnlyIfNotEmpty);
    }
    return result;
}
//= cura::Simplify::polyline
ClosedPolyline Simplify::polyline(const ClosedPolyline& polyline) const
{
    return simplify(polyline, polyline.isExplicitlyClosed());
}
//END
//= cura::Simplify::polyline
OpenPolyline Simplify::polyline(const OpenPolyline& polyline) const
{
    constexpr bool is_closed = false;
    return simplify(polyline, is_closed);
}
//END
//= cura::Simplify::polyline
ExtrusionLine Simplify::polyline(const ExtrusionLine& polyline) const
{
    constexpr bool is_closed = false;
    return simplify(polyline, is_closed);
}
//END
template<>
ExtrusionLine Simplify::createEmpty(const ExtrusionLine& original)
{
    ExtrusionLine result(original.inset_idx_, original.is_odd_);
    result.is_closed_ = original.is_closed_;
    return result;
}
template<typename Polygonal>
Polygonal Simplify::createEmpty(const Polygonal& )
{
    return Polygonal();
}
template<typename Polygonal>
bool Simplify::detectSmall(const Polygonal& polygon, const coord_t& min_size) const
{
    if (polygon.size() < min_size)
    {
        return true;
    }
    if (polygon.size() == min_size)
    {
        const auto a = getPosition(polygon[0]);
        const auto b = getPosition(polygon[1]);
        const auto c = getPosition(polygon[polygon.size() - 1]);
        if (std::max(std::max(vSize2(b - a), vSize2(c - a)), vSize2(c - b)) < min_resolution * min_resolution)
        {
            return true;
        }
    }
    return false;
}
//= cura::Simplify::simplify
template<typename Polygonal>
Polygonal Simplify::simplify(const Polygonal& polygon, const bool is_closed) const
{
    const size_t min_size = is_closed ? 3 : 2;
    if (detectSmall(polygon, min_size))
    {
        return createEmpty(polygon);
    }
    if (polygon.size() == min_size)
    {
        return polygon;
    }
    std::vector<bool> to_delete(polygon.size(), false);
    auto comparator = [](const std::pair<size_t, coord_t>& vertex_a, const std::pair<size_t, coord_t>& vertex_b)
    {
        return vertex_a.second > vertex_b.second || (vertex_a.second == vertex_b.second && vertex_a.first > vertex_b.first);
    };
    std::priority_queue<std::pair<size_t, coord_t>, std::vector<std::pair<size_t, coord_t>>, decltype(comparator)> by_importance(comparator);
    Polygonal result = polygon;
    for (int64_t current_removed = -1; (polygon.size() - current_removed) > min_size && current_removed != 0;)
    {
        current_removed = 0;
        for (size_t i = 0; i < result.size(); ++i)
        {
            if (to_delete[i])
            {
                continue;
            }
            const coord_t vertex_importance = importance(result, to_delete, i, is_closed);
            by_importance.emplace(i, vertex_importance);
        }
        coord_t vertex_importance = 0;
        while (! by_importance.empty() && (polygon.size() - current_removed) > min_size)
        {
            std::pair<size_t, coord_t> vertex = by_importance.top();
            by_importance.pop();
            vertex_importance = importance(result, to_delete, vertex.first, is_closed);
            if (vertex_importance != vertex.second)
            {
                by_importance.emplace(vertex.first, vertex_importance);
                continue;
            }
            if (vertex_importance <= max_deviation_ * max_deviation_)
            {
                current_removed += remove(result, to_delete, vertex.first, vertex_importance, is_closed) ? 1 : 0;
            }
        }
    }
    Polygonal filtered = createEmpty(polygon);
    for (size_t i = 0; i < result.size(); ++i)
    {
        if (! to_delete[i])
        {
            appendVertex(filtered, result[i]);
        }
    }
    if (detectSmall(filtered, min_size))
    {
        return createEmpty(filtered);
    }
    return filtered;
}
//END
template<typename Polygonal>
coord_t Simplify::importance(const Polygonal& polygon, const std::vector<bool>& to_delete, const size_t index, const bool is_closed) const
{
    const size_t poly_size = polygon.size();
    if (! is_closed && (index == 0 || index == poly_size - 1))
    {
        return std::numeric_limits<coord_t>::max();
    }
    const Point2LL& vertex = getPosition(polygon[index]);
    const size_t before_index = previousNotDeleted(index, to_delete);
    const size_t after_index = nextNotDeleted(index, to_delete);
    const coord_t area_deviation = getAreaDeviation(polygon[before_index], polygon[index], polygon[after_index]);
    if (area_deviation > max_area_deviation_)
    {
        return std::numeric_limits<coord_t>::max();
    }
    const Point2LL& before = getPosition(polygon[before_index]);
    const Point2LL& after = getPosition(polygon[after_index]);
    const coord_t deviation2 = LinearAlg2D::getDist2FromLine(vertex, before, after);
    if (deviation2 <= min_resolution * min_resolution)
    {
        return deviation2;
    }
    if (vSize2(before - vertex) > max_resolution_ * max_resolution_ && vSize2(after - vertex) > max_resolution_ * max_resolution_)
    {
        return std::numeric_limits<coord_t>::max();
    }
    return deviation2;
}
template<typename Polygonal>
bool Simplify::remove(Polygonal& polygon, std::vector<bool>& to_delete, const size_t vertex, const coord_t deviation2, const bool is_closed) const
{
    if (deviation2 <= min_resolution * min_resolution)
    {
        to_delete[vertex] = true;
        return true;
    }
    const size_t before = previousNotDeleted(vertex, to_delete);
    const size_t after = nextNotDeleted(vertex, to_delete);
    const Point2LL& vertex_position = getPosition(polygon[vertex]);
    const Point2LL& before_position = getPosition(polygon[before]);
    const Point2LL& after_position = getPosition(polygon[after]);
    const coord_t length2_before = vSize2(vertex_position - before_position);
    const coord_t length2_after = vSize2(vertex_position - after_position);
    if (length2_before <= max_resolution_ * max_resolution_ && length2_after <= max_resolution_ * max_resolution_)
    {
        to_delete[vertex] = true;
        return true;
    }
    Point2LL before_from, before_to, after_from, after_to;
    if (length2_before <= length2_after)
    {
        if (! is_closed && before == 0)
        {
            return false;
        }
        const size_t before_before = previousNotDeleted(before, to_delete);
        before_from = getPosition(polygon[before_before]);
        before_to = getPosition(polygon[before]);
        after_from = getPosition(polygon[vertex]);
        after_to = getPosition(polygon[after]);
    }
    else
    {
        if (! is_closed && after == polygon.size() - 1)
        {
            return false;
        }
        const size_t after_after = nextNotDeleted(after, to_delete);
        before_from = getPosition(polygon[before]);
        before_to = getPosition(polygon[vertex]);
        after_from = getPosition(polygon[after]);
        after_to = getPosition(polygon[after_after]);
    }
    Point2LL intersection;
    const bool did_intersect = LinearAlg2D::lineLineIntersection(before_from, before_to, after_from, after_to, intersection);
    if (! did_intersect)
    {
        return false;
    }
    const coord_t intersection_deviation = LinearAlg2D::getDist2FromLineSegment(before_to, intersection, after_from);
    if (intersection_deviation <= max_deviation_ * max_deviation_)
    {
        to_delete[vertex] = true;
        polygon[length2_before <= length2_after ? before : after] = createIntersection(polygon[before], intersection, polygon[after]);
        return true;
    }
    return false;
}
template LinesSet<OpenPolyline> Simplify::polyline(const LinesSet<OpenPolyline>& polylines) const;
template LinesSet<ClosedPolyline> Simplify::polyline(const LinesSet<ClosedPolyline>& polylines) const;
}
