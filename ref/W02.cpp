// Simplification.
#include <algorithm>
#include <array>
#include <unordered_set>
#include <unordered_map>
#include <set>
#include <map>
#include <list>
#include <vector>
#include <deque>
#include <memory>
#include <numeric>
#include <optional>
#include <functional>
#include <string>
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "geometry/Polygon.h"
#include "geometry/OpenPolyline.h"
#include "geometry/SingleShape.h"
#include "geometry/MixedLinesSet.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "raft.h"
#include "geometry/ClosedPolyline.h"
#include "geometry/MixedLinesSet.h"
#include "geometry/OpenPolyline.h"
#include "geometry/Point2LL.h"
#include "settings/Settings.h"
#include "utils/Coord_t.h"
#include "utils/ExtrusionLine.h"
#include "utils/Simplify.h"
#include "utils/linearAlg2D.h"
#include <limits>
#include <queue> //Priority queue to prioritise removing unimportant vertices.
#include "utils/Simplify.h"
#include "ref.h"

namespace ref
{
using namespace cura;

//= cura::Simplify::Simplify
void r1(cura::Simplify& self, const coord_t max_resolution, const coord_t max_deviation, const coord_t max_area_deviation)
{
        member(self.max_resolution_) = max_resolution;
        member(self.max_deviation_) = max_deviation;
        member(self.max_area_deviation_) = max_area_deviation;
}

//= cura::Simplify::Simplify
void r2(cura::Simplify& self, const Settings& settings)
{
        member(self.max_resolution_) = settings.get<coord_t>("meshfix_maximum_resolution");
        member(self.max_deviation_) = settings.get<coord_t>("meshfix_maximum_deviation");
        member(self.max_area_deviation_) = settings.get<size_t>("meshfix_maximum_extrusion_area_deviation");
}

//= cura::Simplify::polygon
Shape r3(const cura::Simplify& self, const Shape& polygons)
{
    Shape result;
    for (size_t i = 0; i < polygons.size(); ++i)
    {
        result.push_back(self.polygon(polygons[i]), CheckNonEmptyParam::OnlyIfNotEmpty);
    }
    return result;
}

//= cura::Simplify::polyline | ta=cura::OpenPolyline
namespace n6
{
using LineType = cura::OpenPolyline;
LinesSet<LineType> r6(const cura::Simplify& self, const LinesSet<LineType>& polylines)
{
    LinesSet<LineType> result;
    for (size_t i = 0; i < polylines.size(); ++i)
    {
        result.push_back(self.polyline(polylines[i]), CheckNonEmptyParam::OnlyIfNotEmpty);
    }
    return result;
}
} // namespace n6

//= cura::Simplify::polyline | ta=cura::ClosedPolyline
namespace n7
{
using LineType = cura::ClosedPolyline;
LinesSet<LineType> r7(const cura::Simplify& self, const LinesSet<LineType>& polylines)
{
    LinesSet<LineType> result;
    for (size_t i = 0; i < polylines.size(); ++i)
    {
        result.push_back(self.polyline(polylines[i]), CheckNonEmptyParam::OnlyIfNotEmpty);
    }
    return result;
}
} // namespace n7

//= cura::Simplify::polyline
MixedLinesSet r8(const cura::Simplify& self, const MixedLinesSet& polylines)
{
    MixedLinesSet result;
    for (const PolylinePtr& polyline_ptr : polylines)
    {
        if (std::shared_ptr<const OpenPolyline> open_polyline = std::dynamic_pointer_cast<const OpenPolyline>(polyline_ptr))
        {
            result.push_back(std::make_shared<OpenPolyline>(self.polyline(*open_polyline)));
        }
        if (std::shared_ptr<const ClosedPolyline> closed_polyline = std::dynamic_pointer_cast<const ClosedPolyline>(polyline_ptr))
        {
            result.push_back(std::make_shared<ClosedPolyline>(self.polyline(*closed_polyline)));
        }
    }
    return result;
}

//= cura::Simplify::nextNotDeleted
size_t r12(const cura::Simplify& self, size_t index, const std::vector<bool>& to_delete)
{
    const size_t size = to_delete.size();
    for (index = (index + 1) % size; to_delete[index]; index = (index + 1) % size)
        ; 
    return index;
}

//= cura::Simplify::previousNotDeleted
size_t r13(const cura::Simplify& self, size_t index, const std::vector<bool>& to_delete)
{
    const size_t size = to_delete.size();
    for (index = (index + size - 1) % size; to_delete[index]; index = (index + size - 1) % size)
        ; 
    return index;
}

//= cura::Simplify::createEmpty | ta=cura::ExtrusionLine
ExtrusionLine r14(const ExtrusionLine& original)
{
    ExtrusionLine result(original.inset_idx_, original.is_odd_);
    result.is_closed_ = original.is_closed_;
    return result;
}

//= cura::Simplify::createEmpty | ta=cura::Polygon
namespace n15
{
using Polygonal = cura::Polygon;
Polygonal r15(const Polygonal&)
{
    return Polygonal();
}
} // namespace n15

//= cura::Simplify::createEmpty | ta=cura::ClosedPolyline
namespace n16
{
using Polygonal = cura::ClosedPolyline;
Polygonal r16(const Polygonal&)
{
    return Polygonal();
}
} // namespace n16

//= cura::Simplify::appendVertex
void r17(const cura::Simplify& self, Polyline& polygon, const Point2LL& vertex)
{
    polygon.push_back(vertex);
}

//= cura::Simplify::appendVertex
void r18(const cura::Simplify& self, ExtrusionLine& extrusion_line, const ExtrusionJunction& vertex)
{
    extrusion_line.junctions_.push_back(vertex);
}

//= cura::Simplify::getPosition
const Point2LL& r19(const cura::Simplify& self, const Point2LL& vertex)
{
    return vertex;
}

//= cura::Simplify::getPosition
const Point2LL& r20(const cura::Simplify& self, const ExtrusionJunction& vertex)
{
    return vertex.p_;
}

//= cura::Simplify::createIntersection
Point2LL r21(const cura::Simplify& self, [[maybe_unused]] const Point2LL& before, const Point2LL intersection, [[maybe_unused]] const Point2LL& after)
{
    return intersection;
}

//= cura::Simplify::createIntersection
ExtrusionJunction r22(const cura::Simplify& self, const ExtrusionJunction& before, const Point2LL intersection, const ExtrusionJunction& after)
{
    return ExtrusionJunction(intersection, (before.w_ + after.w_) / 2, before.perimeter_index_);
}

//= cura::Simplify::getAreaDeviation
coord_t r23(const cura::Simplify& self, [[maybe_unused]] const Point2LL& before, [[maybe_unused]] const Point2LL& vertex, [[maybe_unused]] const Point2LL& after)
{
    return 0; 
}

//= cura::Simplify::getAreaDeviation
coord_t r24(const cura::Simplify& self, const ExtrusionJunction& before, const ExtrusionJunction& vertex, const ExtrusionJunction& after)
{
    const coord_t ab_length = vSize(vertex - before);
    const coord_t bc_length = vSize(after - vertex);
    const coord_t ac_length = vSize(after - before);
    if (ab_length == 0 || ac_length == 0 || bc_length == 0)
    {
        return 0; 
    }
    const coord_t width_diff = std::max(std::abs(vertex.w_ - before.w_), std::abs(after.w_ - vertex.w_));
    if (width_diff > 1)
    {
        const coord_t ab_weight = (before.w_ + vertex.w_) / 2;
        const coord_t bc_weight = (vertex.w_ + after.w_) / 2;
        const coord_t weighted_average_width = (ab_length * ab_weight + bc_length * bc_weight) / ac_length;
        return std::abs(ab_weight - weighted_average_width) * ab_length + std::abs(bc_weight - weighted_average_width) * bc_length;
    }
    else
    {
        return ab_length > bc_length ? width_diff * bc_length : width_diff * ab_length;
    }
}

//= cura::Simplify::detectSmall | ta=cura::Polygon
namespace n25
{
using Polygonal = cura::Polygon;
bool r25(const cura::Simplify& self, const Polygonal& polygon, const coord_t& min_size)
{
    if (polygon.size() < min_size) 
    {
        return true;
    }
    if (polygon.size() == min_size)
    {
        const auto a = self.getPosition(polygon[0]);
        const auto b = self.getPosition(polygon[1]);
        const auto c = self.getPosition(polygon[polygon.size() - 1]);
        if (std::max(std::max(vSize2(b - a), vSize2(c - a)), vSize2(c - b)) < self.min_resolution * self.min_resolution)
        {
            return true;
        }
    }
    return false;
}
} // namespace n25

//= cura::Simplify::detectSmall | ta=cura::ExtrusionLine
namespace n26
{
using Polygonal = cura::ExtrusionLine;
bool r26(const cura::Simplify& self, const Polygonal& polygon, const coord_t& min_size)
{
    if (polygon.size() < min_size) 
    {
        return true;
    }
    if (polygon.size() == min_size)
    {
        const auto a = self.getPosition(polygon[0]);
        const auto b = self.getPosition(polygon[1]);
        const auto c = self.getPosition(polygon[polygon.size() - 1]);
        if (std::max(std::max(vSize2(b - a), vSize2(c - a)), vSize2(c - b)) < self.min_resolution * self.min_resolution)
        {
            return true;
        }
    }
    return false;
}
} // namespace n26

//= cura::Simplify::importance | ta=cura::Polygon
namespace n29
{
using Polygonal = cura::Polygon;
coord_t r29(const cura::Simplify& self, const Polygonal& polygon, const std::vector<bool>& to_delete, const size_t index, const bool is_closed)
{
    const size_t poly_size = polygon.size();
    if (! is_closed && (index == 0 || index == poly_size - 1))
    {
        return std::numeric_limits<coord_t>::max(); 
    }
    const Point2LL& vertex = self.getPosition(polygon[index]);
    const size_t before_index = self.previousNotDeleted(index, to_delete);
    const size_t after_index = self.nextNotDeleted(index, to_delete);
    const coord_t area_deviation = self.getAreaDeviation(polygon[before_index], polygon[index], polygon[after_index]);
    if (area_deviation > self.max_area_deviation_) 
    {
        return std::numeric_limits<coord_t>::max();
    }
    const Point2LL& before = self.getPosition(polygon[before_index]);
    const Point2LL& after = self.getPosition(polygon[after_index]);
    const coord_t deviation2 = LinearAlg2D::getDist2FromLine(vertex, before, after);
    if (deviation2 <= self.min_resolution * self.min_resolution) 
    {
        return deviation2;
    }
    if (vSize2(before - vertex) > self.max_resolution_ * self.max_resolution_ && vSize2(after - vertex) > self.max_resolution_ * self.max_resolution_)
    {
        return std::numeric_limits<coord_t>::max(); 
    }
    return deviation2;
}
} // namespace n29

//= cura::Simplify::importance | ta=cura::ExtrusionLine
namespace n30
{
using Polygonal = cura::ExtrusionLine;
coord_t r30(const cura::Simplify& self, const Polygonal& polygon, const std::vector<bool>& to_delete, const size_t index, const bool is_closed)
{
    const size_t poly_size = polygon.size();
    if (! is_closed && (index == 0 || index == poly_size - 1))
    {
        return std::numeric_limits<coord_t>::max(); 
    }
    const Point2LL& vertex = self.getPosition(polygon[index]);
    const size_t before_index = self.previousNotDeleted(index, to_delete);
    const size_t after_index = self.nextNotDeleted(index, to_delete);
    const coord_t area_deviation = self.getAreaDeviation(polygon[before_index], polygon[index], polygon[after_index]);
    if (area_deviation > self.max_area_deviation_) 
    {
        return std::numeric_limits<coord_t>::max();
    }
    const Point2LL& before = self.getPosition(polygon[before_index]);
    const Point2LL& after = self.getPosition(polygon[after_index]);
    const coord_t deviation2 = LinearAlg2D::getDist2FromLine(vertex, before, after);
    if (deviation2 <= self.min_resolution * self.min_resolution) 
    {
        return deviation2;
    }
    if (vSize2(before - vertex) > self.max_resolution_ * self.max_resolution_ && vSize2(after - vertex) > self.max_resolution_ * self.max_resolution_)
    {
        return std::numeric_limits<coord_t>::max(); 
    }
    return deviation2;
}
} // namespace n30

//= cura::Simplify::remove | ta=cura::Polygon
namespace n31
{
using Polygonal = cura::Polygon;
bool r31(const cura::Simplify& self, Polygonal& polygon, std::vector<bool>& to_delete, const size_t vertex, const coord_t deviation2, const bool is_closed)
{
    if (deviation2 <= self.min_resolution * self.min_resolution)
    {
        to_delete[vertex] = true;
        return true;
    }
    const size_t before = self.previousNotDeleted(vertex, to_delete);
    const size_t after = self.nextNotDeleted(vertex, to_delete);
    const Point2LL& vertex_position = self.getPosition(polygon[vertex]);
    const Point2LL& before_position = self.getPosition(polygon[before]);
    const Point2LL& after_position = self.getPosition(polygon[after]);
    const coord_t length2_before = vSize2(vertex_position - before_position);
    const coord_t length2_after = vSize2(vertex_position - after_position);
    if (length2_before <= self.max_resolution_ * self.max_resolution_ && length2_after <= self.max_resolution_ * self.max_resolution_) 
    {
        to_delete[vertex] = true;
        return true;
    }
    Point2LL before_from, before_to, after_from, after_to;
    if (length2_before <= length2_after) 
    {
        if (! is_closed && before == 0) 
        {
            return false; 
        }
        const size_t before_before = self.previousNotDeleted(before, to_delete);
        before_from = self.getPosition(polygon[before_before]);
        before_to = self.getPosition(polygon[before]);
        after_from = self.getPosition(polygon[vertex]);
        after_to = self.getPosition(polygon[after]);
    }
    else
    {
        if (! is_closed && after == polygon.size() - 1) 
        {
            return false; 
        }
        const size_t after_after = self.nextNotDeleted(after, to_delete);
        before_from = self.getPosition(polygon[before]);
        before_to = self.getPosition(polygon[vertex]);
        after_from = self.getPosition(polygon[after]);
        after_to = self.getPosition(polygon[after_after]);
    }
    Point2LL intersection;
    const bool did_intersect = LinearAlg2D::lineLineIntersection(before_from, before_to, after_from, after_to, intersection);
    if (! did_intersect) 
    {
        return false; 
    }
    const coord_t intersection_deviation = LinearAlg2D::getDist2FromLineSegment(before_to, intersection, after_from);
    if (intersection_deviation <= self.max_deviation_ * self.max_deviation_) 
    {
        to_delete[vertex] = true;
        polygon[length2_before <= length2_after ? before : after] = self.createIntersection(polygon[before], intersection, polygon[after]);
        return true;
    }
    return false;
}
} // namespace n31

//= cura::Simplify::remove | ta=cura::ExtrusionLine
namespace n32
{
using Polygonal = cura::ExtrusionLine;
bool r32(const cura::Simplify& self, Polygonal& polygon, std::vector<bool>& to_delete, const size_t vertex, const coord_t deviation2, const bool is_closed)
{
    if (deviation2 <= self.min_resolution * self.min_resolution)
    {
        to_delete[vertex] = true;
        return true;
    }
    const size_t before = self.previousNotDeleted(vertex, to_delete);
    const size_t after = self.nextNotDeleted(vertex, to_delete);
    const Point2LL& vertex_position = self.getPosition(polygon[vertex]);
    const Point2LL& before_position = self.getPosition(polygon[before]);
    const Point2LL& after_position = self.getPosition(polygon[after]);
    const coord_t length2_before = vSize2(vertex_position - before_position);
    const coord_t length2_after = vSize2(vertex_position - after_position);
    if (length2_before <= self.max_resolution_ * self.max_resolution_ && length2_after <= self.max_resolution_ * self.max_resolution_) 
    {
        to_delete[vertex] = true;
        return true;
    }
    Point2LL before_from, before_to, after_from, after_to;
    if (length2_before <= length2_after) 
    {
        if (! is_closed && before == 0) 
        {
            return false; 
        }
        const size_t before_before = self.previousNotDeleted(before, to_delete);
        before_from = self.getPosition(polygon[before_before]);
        before_to = self.getPosition(polygon[before]);
        after_from = self.getPosition(polygon[vertex]);
        after_to = self.getPosition(polygon[after]);
    }
    else
    {
        if (! is_closed && after == polygon.size() - 1) 
        {
            return false; 
        }
        const size_t after_after = self.nextNotDeleted(after, to_delete);
        before_from = self.getPosition(polygon[before]);
        before_to = self.getPosition(polygon[vertex]);
        after_from = self.getPosition(polygon[after]);
        after_to = self.getPosition(polygon[after_after]);
    }
    Point2LL intersection;
    const bool did_intersect = LinearAlg2D::lineLineIntersection(before_from, before_to, after_from, after_to, intersection);
    if (! did_intersect) 
    {
        return false; 
    }
    const coord_t intersection_deviation = LinearAlg2D::getDist2FromLineSegment(before_to, intersection, after_from);
    if (intersection_deviation <= self.max_deviation_ * self.max_deviation_) 
    {
        to_delete[vertex] = true;
        polygon[length2_before <= length2_after ? before : after] = self.createIntersection(polygon[before], intersection, polygon[after]);
        return true;
    }
    return false;
}
} // namespace n32

//END
}  // namespace ref
