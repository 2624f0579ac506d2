// Operations on areas.
#include <algorithm>
#include <array>
#include <unordered_set>
#include <unordered_map>
#include <set>
#include <map>
#include <list>
#include <vector>
#include <deque>
#include <memory>
#include <numeric>
#include <optional>
#include <functional>
#include <string>
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "geometry/Polygon.h"
#include "geometry/OpenPolyline.h"
#include "geometry/SingleShape.h"
#include "geometry/MixedLinesSet.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "raft.h"
#include "geometry/LinesSet.h"
#include "geometry/MixedLinesSet.h"
#include "geometry/OpenLinesSet.h"
#include "geometry/PartsView.h"
#include "geometry/Polygon.h"
#include "geometry/Shape.h"
#include "geometry/SingleShape.h"
#include "settings/types/Angle.h"
#include "settings/types/Ratio.h"
#include "utils/OpenPolylineStitcher.h"
#include "utils/linearAlg2D.h"
#include <algorithm>
#include <boost/geometry/geometries/point_xy.hpp>
#include <boost/geometry/geometries/polygon.hpp>
#include <boost/geometry/io/wkt/read.hpp>
#include <cstddef>
#include <fmt/format.h>
#include <mapbox/geometry/wagyu/wagyu.hpp>
#include <numeric>
#include <range/v3/to_container.hpp>
#include <range/v3/view/c_str.hpp>
#include <range/v3/view/concat.hpp>
#include <range/v3/view/filter.hpp>
#include <range/v3/view/join.hpp>
#include <range/v3/view/sliding.hpp>
#include <range/v3/view/take.hpp>
#include <range/v3/view/transform.hpp>
#include <unordered_set>
#include "geometry/Shape.h"
#include "ref.h"

namespace ref
{
using namespace cura;

//= cura::Shape::Shape
void r1(cura::Shape& self, ClipperLib::Paths&& paths, bool explicitely_closed)
{
    self.emplace_back(std::move(paths), explicitely_closed);
}

//= cura::Shape::Shape
void r2(cura::Shape& self, const std::vector<Polygon>& polygons)
{
        base<LinesSet<Polygon>>(self) = ::cura::LinesSet<Polygon>(polygons);
}

//= cura::Shape::Shape
void r3(cura::Shape& self, const Polygon& polygon)
{
        base<LinesSet<Polygon>>(self) = ::cura::LinesSet<Polygon>(polygon);
}

//= cura::Shape::emplace_back
void r4(cura::Shape& self, ClipperLib::Paths&& paths, bool explicitely_closed)
{
    self.reserve(self.size() + paths.size());
    for (ClipperLib::Path& path : paths)
    {
        self.emplace_back(std::move(path), explicitely_closed);
    }
}

//= cura::Shape::emplace_back
void r5(cura::Shape& self, ClipperLib::Path&& path, bool explicitely_closed)
{
    static_cast<LinesSet<Polygon>*>((&self))->emplace_back(std::move(path), explicitely_closed);
}

//= cura::Shape::makeConvex
void r6(cura::Shape& self)
{
    if (self.empty())
    {
        return;
    }
    std::vector<Point2LL> points;
    for (const Polygon& poly : self.getLines())
    {
        points.insert(points.end(), poly.begin(), poly.end());
    }
    Polygon convexified;
    auto make_sorted_poly_convex = [&convexified](std::vector<Point2LL>& poly)
    {
        convexified.push_back(poly[0]);
        for (const auto window : poly | ranges::views::sliding(2))
        {
            const auto& current = window[0];
            const auto& after = window[1];
            if (LinearAlg2D::pointIsLeftOfLine(current, convexified.back(), after) < 0)
            {
                while (convexified.size() >= 2
                       && (LinearAlg2D::pointIsLeftOfLine(convexified.back(), convexified[convexified.size() - 2], current) >= 0
                           || LinearAlg2D::pointIsLeftOfLine(convexified.back(), convexified[convexified.size() - 2], convexified.front()) > 0))
                {
                    convexified.pop_back();
                }
                convexified.push_back(current);
            }
        }
        while (convexified.size() >= 2 && (LinearAlg2D::pointIsLeftOfLine(convexified.back(), convexified[convexified.size() - 2], poly.back()) >= 0))
        {
            convexified.pop_back();
        }
    };
    std::stable_sort(
        points.begin(),
        points.end(),
        [](const Point2LL& a, const Point2LL& b)
        {
            return a.X == b.X ? a.Y < b.Y : a.X < b.X;
        });
    make_sorted_poly_convex(points);
    std::reverse(points.begin(), points.end());
    make_sorted_poly_convex(points);
    self.setLines({ convexified });
}

//= cura::Shape::difference
Shape r7(const cura::Shape& self, const Shape& other)
{
    if (self.empty())
    {
        return {};
    }
    if (other.empty())
    {
        return self;
    }
    ClipperLib::Paths ret;
    ClipperLib::Clipper clipper(clipper_init);
    self.addPaths(clipper, ClipperLib::ptSubject);
    other.addPaths(clipper, ClipperLib::ptClip);
    clipper.Execute(ClipperLib::ctDifference, ret);
    return Shape(std::move(ret));
}

//= cura::Shape::difference
Shape r8(const cura::Shape& self, const Polygon& other)
{
    if (self.empty())
    {
        return {};
    }
    if (other.empty())
    {
        return self;
    }
    ClipperLib::Paths ret;
    ClipperLib::Clipper clipper(clipper_init);
    self.addPaths(clipper, ClipperLib::ptSubject);
    other.addPath(clipper, ClipperLib::ptClip);
    clipper.Execute(ClipperLib::ctDifference, ret);
    return Shape(std::move(ret));
}

//= cura::Shape::unionPolygons
Shape r9(const cura::Shape& self, const Shape& other, ClipperLib::PolyFillType fill_type)
{
    if (self.empty() && other.empty())
    {
        return {};
    }
    ClipperLib::Paths ret;
    ClipperLib::Clipper clipper(clipper_init);
    self.addPaths(clipper, ClipperLib::ptSubject);
    other.addPaths(clipper, ClipperLib::ptSubject);
    clipper.Execute(ClipperLib::ctUnion, ret, fill_type, fill_type);
    return Shape{ std::move(ret) };
}

//= cura::Shape::unionPolygons
Shape r10(const cura::Shape& self, const Polygon& polygon, ClipperLib::PolyFillType fill_type)
{
    if (self.empty() && polygon.empty())
    {
        return {};
    }
    ClipperLib::Paths ret;
    ClipperLib::Clipper clipper(clipper_init);
    self.addPaths(clipper, ClipperLib::ptSubject);
    polygon.addPath(clipper, ClipperLib::ptSubject);
    clipper.Execute(ClipperLib::ctUnion, ret, fill_type, fill_type);
    return Shape{ std::move(ret) };
}

//= cura::Shape::unionPolygons
Shape r11(const cura::Shape& self)
{
    return self.unionPolygons(Shape());
}

//= cura::Shape::intersection
Shape r12(const cura::Shape& self, const Shape& other)
{
    if (self.empty() || other.empty())
    {
        return {};
    }
    ClipperLib::Paths ret;
    ClipperLib::Clipper clipper(clipper_init);
    self.addPaths(clipper, ClipperLib::ptSubject);
    other.addPaths(clipper, ClipperLib::ptClip);
    clipper.Execute(ClipperLib::ctIntersection, ret);
    return Shape{ std::move(ret) };
}

//= cura::Shape::offset
Shape r13(const cura::Shape& self, coord_t distance, ClipperLib::JoinType join_type, double miter_limit)
{
    if (self.empty())
    {
        return {};
    }
    if (distance == 0)
    {
        return self;
    }
    ClipperLib::Paths ret;
    ClipperLib::ClipperOffset clipper(miter_limit, 10.0);
    self.unionPolygons().addPaths(clipper, join_type, ClipperLib::etClosedPolygon);
    clipper.MiterLimit = miter_limit;
    clipper.Execute(ret, static_cast<double>(distance));
    return Shape{ std::move(ret) };
}

//= cura::Shape::inside
bool r14(const cura::Shape& self, const Point2LL& p, bool border_result)
{
    int poly_count_inside = 0;
    for (const Polygon& poly : self)
    {
        const int is_inside_this_poly = ClipperLib::PointInPolygon(p, poly.getPoints());
        if (is_inside_this_poly == -1)
        {
            return border_result;
        }
        poly_count_inside += is_inside_this_poly;
    }
    return (poly_count_inside % 2) == 1;
}

//= cura::Shape::findInside
size_t r15(const cura::Shape& self, const Point2LL& p, bool border_result)
{
    if (self.empty())
    {
        return NO_INDEX;
    }
    std::vector<int64_t> min_x(self.size(), std::numeric_limits<int64_t>::max());
    std::vector<int64_t> crossings(self.size());
    for (size_t poly_idx = 0; poly_idx < self.size(); poly_idx++)
    {
        const Polygon& poly = (self)[poly_idx];
        Point2LL p0 = poly.back();
        for (const Point2LL& p1 : poly)
        {
            short comp = LinearAlg2D::pointLiesOnTheRightOfLine(p, p0, p1);
            if (comp == 1)
            {
                crossings[poly_idx]++;
                int64_t x;
                if (p1.Y == p0.Y)
                {
                    x = p0.X;
                }
                else
                {
                    x = p0.X + (p1.X - p0.X) * (p.Y - p0.Y) / (p1.Y - p0.Y);
                }
                min_x[poly_idx] = std::min(x, min_x[poly_idx]);
            }
            else if (border_result && comp == 0)
            {
                return poly_idx;
            }
            p0 = p1;
        }
    }
    int64_t min_x_uneven = std::numeric_limits<int64_t>::max();
    size_t ret = NO_INDEX;
    size_t n_unevens = 0;
    for (size_t array_idx = 0; array_idx < self.size(); array_idx++)
    {
        if (crossings[array_idx] % 2 == 1)
        {
            n_unevens++;
            if (min_x[array_idx] < min_x_uneven)
            {
                min_x_uneven = min_x[array_idx];
                ret = array_idx;
            }
        }
    }
    if (n_unevens % 2 == 0)
    {
        ret = NO_INDEX;
    }
    return ret;
}

//= cura::Shape::intersection | ta=cura::OpenPolyline
namespace n16
{
using LineType = cura::OpenPolyline;
OpenLinesSet r16(const cura::Shape& self, const LinesSet<LineType>& polylines, bool restitch, const coord_t max_stitch_distance, const bool split_into_segments)
{
    if (self.empty() || polylines.empty())
    {
        return {};
    }
    ClipperLib::PolyTree result;
    ClipperLib::Clipper clipper(clipper_init);
    if (split_into_segments)
    {
        polylines.splitIntoSegments().addPaths(clipper, ClipperLib::ptSubject);
    }
    else
    {
        polylines.addPaths(clipper, ClipperLib::ptSubject);
    }
    self.addPaths(clipper, ClipperLib::ptClip);
    clipper.Execute(ClipperLib::ctIntersection, result);
    ClipperLib::Paths result_paths;
    ClipperLib::OpenPathsFromPolyTree(result, result_paths);
    OpenLinesSet result_lines(std::move(result_paths));
    if (restitch)
    {
        OpenLinesSet result_open_lines;
        Shape result_closed_lines;
        const coord_t snap_distance = 10_mu;
        OpenPolylineStitcher::stitch(result_lines, result_open_lines, result_closed_lines, max_stitch_distance, snap_distance);
        result_lines = std::move(result_open_lines);
        for (ClosedPolyline& closed_line : result_closed_lines)
        {
            if (! closed_line.empty())
            {
                if (closed_line.size() > 2)
                {
                    closed_line.push_back(closed_line.front());
                }
                result_lines.emplace_back(std::move(closed_line.getPoints()));
            }
        }
    }
    return result_lines;
}
} // namespace n16

//= cura::Shape::intersection | ta=cura::ClosedPolyline
namespace n17
{
using LineType = cura::ClosedPolyline;
OpenLinesSet r17(const cura::Shape& self, const LinesSet<LineType>& polylines, bool restitch, const coord_t max_stitch_distance, const bool split_into_segments)
{
    if (self.empty() || polylines.empty())
    {
        return {};
    }
    ClipperLib::PolyTree result;
    ClipperLib::Clipper clipper(clipper_init);
    if (split_into_segments)
    {
        polylines.splitIntoSegments().addPaths(clipper, ClipperLib::ptSubject);
    }
    else
    {
        polylines.addPaths(clipper, ClipperLib::ptSubject);
    }
    self.addPaths(clipper, ClipperLib::ptClip);
    clipper.Execute(ClipperLib::ctIntersection, result);
    ClipperLib::Paths result_paths;
    ClipperLib::OpenPathsFromPolyTree(result, result_paths);
    OpenLinesSet result_lines(std::move(result_paths));
    if (restitch)
    {
        OpenLinesSet result_open_lines;
        Shape result_closed_lines;
        const coord_t snap_distance = 10_mu;
        OpenPolylineStitcher::stitch(result_lines, result_open_lines, result_closed_lines, max_stitch_distance, snap_distance);
        result_lines = std::move(result_open_lines);
        for (ClosedPolyline& closed_line : result_closed_lines)
        {
            if (! closed_line.empty())
            {
                if (closed_line.size() > 2)
                {
                    closed_line.push_back(closed_line.front());
                }
                result_lines.emplace_back(std::move(closed_line.getPoints()));
            }
        }
    }
    return result_lines;
}
} // namespace n17

//= cura::Shape::xorPolygons
Shape r18(const cura::Shape& self, const Shape& other, ClipperLib::PolyFillType pft)
{
    if (self.empty())
    {
        return other;
    }
    if (other.empty())
    {
        return self;
    }
    ClipperLib::Paths ret;
    ClipperLib::Clipper clipper(clipper_init);
    self.addPaths(clipper, ClipperLib::ptSubject);
    other.addPaths(clipper, ClipperLib::ptClip);
    clipper.Execute(ClipperLib::ctXor, ret, pft);
    return Shape{ std::move(ret) };
}

//= cura::Shape::execute
Shape r19(const cura::Shape& self, ClipperLib::PolyFillType pft)
{
    ClipperLib::Paths ret;
    ClipperLib::Clipper clipper(clipper_init);
    self.addPaths(clipper, ClipperLib::ptSubject);
    clipper.Execute(ClipperLib::ctXor, ret, pft);
    return Shape{ std::move(ret) };
}

//= cura::Shape::offsetMulti
Shape r20(const cura::Shape& self, const std::vector<coord_t>& offset_dists)
{
    ClipperLib::Paths ret;
    size_t i = 0;
    for (const Polygon& poly_line : (self)
                                        | ranges::views::filter(
                                            [](const Polygon& path)
                                            {
                                                return ! path.empty();
                                            }))
    {
        Polygon ret_poly_line;
        auto prev_p = poly_line.back();
        auto prev_dist = offset_dists[i + poly_line.size() - 1];
        for (const Point2LL& p : poly_line)
        {
            auto offset_dist = offset_dists[i];
            auto vec_dir = prev_p - p;
            constexpr coord_t min_vec_len = 10;
            if (vSize2(vec_dir) > min_vec_len * min_vec_len)
            {
                auto offset_p1 = turn90CCW(normal(vec_dir, prev_dist));
                auto offset_p2 = turn90CCW(normal(vec_dir, offset_dist));
                ret_poly_line.push_back(prev_p + offset_p1);
                ret_poly_line.push_back(p + offset_p2);
            }
            prev_p = p;
            prev_dist = offset_dist;
            i++;
        }
        ret.push_back(std::move(ret_poly_line.getPoints()));
    }
    ClipperLib::SimplifyPolygons(ret, ClipperLib::PolyFillType::pftPositive);
    return Shape(std::move(ret));
}

//= cura::Shape::getOutsidePolygons
Shape r21(const cura::Shape& self)
{
    if (self.empty())
    {
        return {};
    }
    if (self.size() == 1)
    {
        return self;
    }
    Shape ret;
    ClipperLib::Clipper clipper(clipper_init);
    ClipperLib::PolyTree poly_tree;
    self.addPaths(clipper, ClipperLib::ptSubject);
    clipper.Execute(ClipperLib::ctUnion, poly_tree);
    for (size_t outer_poly_idx = 0; outer_poly_idx < static_cast<size_t>(poly_tree.ChildCount()); outer_poly_idx++)
    {
        ClipperLib::PolyNode* child = poly_tree.Childs[outer_poly_idx];
        ret.emplace_back(std::move(child->Contour));
    }
    return ret;
}

//= cura::Shape::removeEmptyHolesProcessPolyTreeNode
void r22(const cura::Shape& self, const ClipperLib::PolyNode& node, const bool remove_holes, Shape& ret)
{
    for (size_t outer_poly_idx = 0; outer_poly_idx < static_cast<size_t>(node.ChildCount()); outer_poly_idx++)
    {
        ClipperLib::PolyNode* child = node.Childs[outer_poly_idx];
        if (remove_holes)
        {
            ret.emplace_back(std::move(child->Contour));
        }
        for (size_t hole_node_idx = 0; hole_node_idx < static_cast<size_t>(child->ChildCount()); hole_node_idx++)
        {
            ClipperLib::PolyNode& hole_node = *child->Childs[hole_node_idx];
            if ((hole_node.ChildCount() > 0) == remove_holes)
            {
                ret.emplace_back(std::move(hole_node.Contour));
                self.removeEmptyHolesProcessPolyTreeNode(hole_node, remove_holes, ret);
            }
        }
    }
}

//= cura::Shape::removePolygon
Shape r24(const cura::Shape& self, const Shape& to_be_removed, int same_distance)
{
    Shape result;
    for (size_t poly_keep_idx = 0; poly_keep_idx < self.size(); poly_keep_idx++)
    {
        const Polygon& poly_keep = (self)[poly_keep_idx];
        bool should_be_removed = false;
        if (! poly_keep.empty())
        {
            for (const Polygon& poly_rem : to_be_removed)
            {
                if (poly_rem.size() != poly_keep.size() || poly_rem.empty())
                {
                    continue;
                }
                size_t closest_point_idx = 0;
                coord_t smallest_dist2 = -1;
                for (size_t point_rem_idx = 0; point_rem_idx < poly_rem.size(); point_rem_idx++)
                {
                    coord_t dist2 = vSize2(poly_rem[point_rem_idx] - poly_keep[0]);
                    if (dist2 < smallest_dist2 || smallest_dist2 < 0)
                    {
                        smallest_dist2 = dist2;
                        closest_point_idx = point_rem_idx;
                    }
                }
                bool poly_rem_is_poly_keep = true;
                if (smallest_dist2 > static_cast<cura::coord_t>(same_distance) * same_distance)
                {
                    continue;
                }
                for (size_t point_idx = 0; point_idx < poly_rem.size(); point_idx++)
                {
                    coord_t dist2 = vSize2(poly_rem[(closest_point_idx + point_idx) % poly_rem.size()] - poly_keep[point_idx]);
                    if (dist2 > static_cast<cura::coord_t>(same_distance) * same_distance)
                    {
                        poly_rem_is_poly_keep = false;
                        break;
                    }
                }
                if (poly_rem_is_poly_keep)
                {
                    should_be_removed = true;
                    break;
                }
            }
        }
        if (! should_be_removed)
        {
            result.push_back(poly_keep);
        }
    }
    return result;
}

//= cura::Shape::processEvenOdd
Shape r25(const cura::Shape& self, ClipperLib::PolyFillType poly_fill_type)
{
    ClipperLib::Paths ret;
    ClipperLib::Clipper clipper(clipper_init);
    self.addPaths(clipper, ClipperLib::ptSubject);
    clipper.Execute(ClipperLib::ctUnion, ret, poly_fill_type);
    return Shape{ std::move(ret) };
}

//= cura::Shape::smoothOutward
Shape r26(const cura::Shape& self, const AngleDegrees max_angle, int shortcut_length)
{
    Shape ret;
    for (const Polygon& poly : (self))
    {
        if (poly.size() < 3)
        {
            continue;
        }
        if (poly.size() == 3)
        {
            ret.push_back(poly);
            continue;
        }
        poly.smoothOutward(max_angle, shortcut_length, ret.newLine());
        if (ret.back().size() < 3)
        {
            ret.resize(ret.size() - 1);
        }
    }
    return ret;
}

//= cura::Shape::smooth
Shape r27(const cura::Shape& self, int remove_length)
{
    Shape ret;
    for (const Polygon& poly : (self))
    {
        if (poly.size() < 3)
        {
            continue;
        }
        if (poly.size() == 3)
        {
            ret.push_back(poly);
            continue;
        }
        poly.smooth(remove_length, ret.newLine());
        Polygon& back = ret.back();
        if (back.size() < 3)
        {
            back.resize(back.size() - 1);
        }
    }
    return ret;
}

//= cura::Shape::smooth2
Shape r28(const cura::Shape& self, int remove_length, int min_area)
{
    Shape ret;
    for (const Polygon& poly : (self))
    {
        if (poly.empty())
        {
            continue;
        }
        if (poly.area() < min_area || poly.size() <= 5) 
        {
            ret.push_back(poly);
            continue;
        }
        if (poly.size() < 4)
        {
            ret.push_back(poly);
        }
        else
        {
            poly.smooth2(remove_length, ret.newLine());
        }
    }
    return ret;
}

//= cura::Shape::removeColinearEdges
void r29(cura::Shape& self, const AngleRadians max_deviation_angle)
{
    Shape& thiss = self;
    for (size_t p = 0; p < self.size(); p++)
    {
        thiss[p].removeColinearEdges(max_deviation_angle);
        if (thiss[p].size() < 3)
        {
            self.removeAt(p);
            p--;
        }
    }
}

//= cura::Shape::area
double r30(const cura::Shape& self)
{
    return std::accumulate(
        self.begin(),
        self.end(),
        0.0,
        [](double total, const Polygon& poly)
        {
            return total + poly.area();
        });
}

//= cura::Shape::splitIntoParts
std::vector<SingleShape> r31(const cura::Shape& self, bool union_all)
{
    std::vector<SingleShape> ret;
    ClipperLib::Clipper clipper(clipper_init);
    ClipperLib::PolyTree result_poly_tree;
    self.addPaths(clipper, ClipperLib::ptSubject);
    if (union_all)
    {
        clipper.Execute(ClipperLib::ctUnion, result_poly_tree, ClipperLib::pftNonZero, ClipperLib::pftNonZero);
    }
    else
    {
        clipper.Execute(ClipperLib::ctUnion, result_poly_tree);
    }
    self.splitIntoPartsProcessPolyTreeNode(&result_poly_tree, ret);
    return ret;
}

//= cura::Shape::splitIntoPartsProcessPolyTreeNode
void r32(const cura::Shape& self, ClipperLib::PolyNode* node, std::vector<SingleShape>& ret)
{
    for (size_t n = 0; n < static_cast<size_t>(node->ChildCount()); n++)
    {
        ClipperLib::PolyNode* child = node->Childs[n];
        SingleShape part;
        part.emplace_back(std::move(child->Contour));
        for (size_t i = 0; i < static_cast<size_t>(child->ChildCount()); i++)
        {
            part.emplace_back(std::move(child->Childs[i]->Contour));
            self.splitIntoPartsProcessPolyTreeNode(child->Childs[i], ret);
        }
        ret.push_back(std::move(part));
    }
}

//= cura::Shape::sortByNesting
std::vector<Shape> r33(const cura::Shape& self)
{
    std::vector<Shape> ret;
    ClipperLib::Clipper clipper(clipper_init);
    ClipperLib::PolyTree result_poly_tree;
    self.addPaths(clipper, ClipperLib::ptSubject);
    clipper.Execute(ClipperLib::ctUnion, result_poly_tree);
    self.sortByNestingProcessPolyTreeNode(&result_poly_tree, 0, ret);
    return ret;
}

//= cura::Shape::sortByNestingProcessPolyTreeNode
void r34(const cura::Shape& self, ClipperLib::PolyNode* node, const size_t nesting_idx, std::vector<Shape>& ret)
{
    for (size_t n = 0; n < static_cast<size_t>(node->ChildCount()); n++)
    {
        ClipperLib::PolyNode* child = node->Childs[n];
        if (nesting_idx >= ret.size())
        {
            ret.resize(nesting_idx + 1);
        }
        ret[nesting_idx].emplace_back(std::move(child->Contour));
        self.sortByNestingProcessPolyTreeNode(child, nesting_idx + 1, ret);
    }
}

//= cura::Shape::splitIntoPartsView
PartsView r35(cura::Shape& self, bool union_all)
{
    Shape reordered;
    PartsView parts_view(self);
    ClipperLib::Clipper clipper(clipper_init);
    ClipperLib::PolyTree result_poly_tree;
    self.addPaths(clipper, ClipperLib::ptSubject);
    if (union_all)
    {
        clipper.Execute(ClipperLib::ctUnion, result_poly_tree, ClipperLib::pftNonZero, ClipperLib::pftNonZero);
    }
    else
    {
        clipper.Execute(ClipperLib::ctUnion, result_poly_tree);
    }
    self.splitIntoPartsViewProcessPolyTreeNode(parts_view, reordered, &result_poly_tree);
    (self) = std::move(reordered);
    return parts_view;
}

//= cura::Shape::removeNearSelfIntersections
Shape r37(const cura::Shape& self)
{
    using map_pt = mapbox::geometry::point<coord_t>;
    using map_ring = mapbox::geometry::linear_ring<coord_t>;
    using map_poly = mapbox::geometry::polygon<coord_t>;
    using map_mpoly = mapbox::geometry::multi_polygon<coord_t>;
    map_mpoly mwpoly;
    mapbox::geometry::wagyu::wagyu<coord_t> wagyu;
    for (auto& polygon : self.splitIntoParts())
    {
        mwpoly.emplace_back();
        map_poly& wpoly = mwpoly.back();
        for (auto& path : polygon)
        {
            wpoly.push_back(std::move(*reinterpret_cast<std::vector<mapbox::geometry::point<coord_t>>*>(&path.getPoints())));
            for (auto& point : wpoly.back())
            {
                point.x /= 4;
                point.y /= 4;
            }
            wagyu.add_ring(wpoly.back());
        }
    }
    map_mpoly sln;
    wagyu.execute(mapbox::geometry::wagyu::clip_type_union, sln, mapbox::geometry::wagyu::fill_type_even_odd, mapbox::geometry::wagyu::fill_type_even_odd);
    Shape polys;
    for (auto& poly : sln)
    {
        for (auto& ring : poly)
        {
            ring.pop_back();
            for (auto& point : ring)
            {
                point.x *= 4;
                point.y *= 4;
            }
            polys.emplace_back(std::move(*reinterpret_cast<ClipperLib::Path*>(&ring)));
        }
    }
    polys = polys.unionPolygons();
    polys.removeColinearEdges();
    return polys;
}

//= cura::Shape::simplify
void r38(cura::Shape& self, ClipperLib::PolyFillType fill_type)
{
    if (self.empty())
    {
        return;
    }
    ClipperLib::Clipper clipper;
    ClipperLib::Paths ret;
    clipper.StrictlySimple(true);
    self.addPaths(clipper, ClipperLib::ptSubject);
    clipper.Execute(ClipperLib::ctUnion, ret, fill_type, fill_type);
    self.resize(ret.size());
    for (size_t i = 0; i < ret.size(); i++)
    {
        Polygon& polygon = self.getLines()[i];
        polygon.setExplicitlyClosed(self.clipper_explicitely_closed_); 
        polygon.setPoints(std::move(ret[i]));
    }
}

//= cura::Shape::intersectionsWithSegment
namespace n39
{
using iterator = cura::LinesSet<cura::Polygon>::iterator;
std::vector<float> r39(const cura::Shape& self, const Point2LL& start, const Point2LL& end)
{
    std::vector<float> result;
    for (const Polygon& polygon : self.getLines())
    {
        for (auto iterator = polygon.beginSegments(); iterator != polygon.endSegments(); ++iterator)
        {
            float t, u;
            if (LinearAlg2D::segmentSegmentIntersection(start, end, (*iterator).start, (*iterator).end, t, u))
            {
                result.push_back(t);
            }
        }
    }
    return result;
}
} // namespace n39

//= cura::Shape::createTubeShape
Shape r40(const cura::Shape& self, const coord_t inner_offset, const coord_t outer_offset)
{
    return self.offset(outer_offset).difference(self.offset(-inner_offset));
}

//= cura::Shape::ensureManifold
void r41(cura::Shape& self)
{
    std::vector<Point2LL> duplicate_locations;
    std::unordered_set<Point2LL> poly_locations;
    for (const Polygon& poly : (self))
    {
        for (const Point2LL& p : poly)
        {
            if (poly_locations.find(p) != poly_locations.end())
            {
                duplicate_locations.push_back(p);
            }
            poly_locations.emplace(p);
        }
    }
    Shape removal_dots;
    for (const Point2LL& p : duplicate_locations)
    {
        Polygon& dot = removal_dots.newLine();
        dot.push_back(p + Point2LL(0, 5));
        dot.push_back(p + Point2LL(5, 0));
        dot.push_back(p + Point2LL(0, -5));
        dot.push_back(p + Point2LL(-5, 0));
    }
    if (! removal_dots.empty())
    {
        self = self.difference(removal_dots);
    }
}

//= cura::Shape::fromWkt
Shape r42(const std::string& wkt)
{
    typedef boost::geometry::model::d2::point_xy<double> point_type;
    typedef boost::geometry::model::polygon<point_type> polygon_type;
    polygon_type poly;
    boost::geometry::read_wkt(wkt, poly);
    Shape ret;
    Polygon outer;
    for (const auto& point : poly.outer())
    {
        outer.emplace_back(point.x(), point.y());
    }
    ret.push_back(outer);
    for (const auto& hole : poly.inners())
    {
        Polygon inner;
        for (const auto& point : hole)
        {
            inner.emplace_back(point.x(), point.y());
        }
        ret.push_back(inner);
    }
    return ret;
}

//= cura::Shape::writeWkt
void r43(const cura::Shape& self, std::ostream& stream)
{
    stream << "POLYGON (";
    const auto paths_str = self.getLines()
                         | ranges::views::transform(
                               [](const Polygon& path)
                               {
                                   const auto line_string = ranges::views::concat(path, path | ranges::views::take(1))
                                                          | ranges::views::transform(
                                                                [](const Point2LL& point)
                                                                {
                                                                    return fmt::format("{} {}", point.X, point.Y);
                                                                })
                                                          | ranges::views::join(ranges::views::c_str(", ")) | ranges::to<std::string>();
                                   return "(" + line_string + ")";
                               })
                         | ranges::views::join(ranges::views::c_str(", ")) | ranges::to<std::string>();
    stream << paths_str;
    stream << ")";
}

//END
}  // namespace ref
