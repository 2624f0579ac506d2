// Paths and sets of paths.
#include <algorithm>
#include <array>
#include <unordered_set>
#include <unordered_map>
#include <set>
#include <map>
#include <list>
#include <vector>
#include <deque>
#include <memory>
#include <numeric>
#include <optional>
#include <functional>
#include <string>
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "geometry/Polygon.h"
#include "geometry/OpenPolyline.h"
#include "geometry/SingleShape.h"
#include "geometry/MixedLinesSet.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "raft.h"
#include "geometry/ClosedLinesSet.h"
#include "geometry/ClosedPolyline.h"
#include "geometry/LinesSet.h"
#include "geometry/MendedShape.h"
#include "geometry/MixedLinesSet.h"
#include "geometry/OpenLinesSet.h"
#include "geometry/OpenPolyline.h"
#include "geometry/PartsView.h"
#include "geometry/Point2LL.h"
#include "geometry/Point3Matrix.h"
#include "geometry/PointMatrix.h"
#include "geometry/PointsSet.h"
#include "geometry/Polygon.h"
#include "geometry/Polyline.h"
#include "geometry/SegmentIterator.h"
#include "geometry/Shape.h"
#include "geometry/SingleShape.h"
#include "geometry/conversions/Point2D_Point2LL.h"
#include "settings/types/Angle.h"
#include "utils/Coord_t.h"
#include "utils/ListPolyIt.h"
#include "utils/Simplify.h"
#include "utils/actions/smooth.h"
#include "utils/linearAlg2D.h"
#include "utils/polygonUtils.h"
#include <algorithm>
#include <cassert>
#include <cstddef>
#include <memory>
#include <numbers>
#include <numeric>
#include <range/v3/algorithm/all_of.hpp>
#include <range/v3/algorithm/rotate.hpp>
#include <range/v3/view/drop.hpp>
#include <vector>
#include "geometry/ClosedLinesSet.h"
#include "geometry/ClosedPolyline.h"
#include "geometry/LinesSet.h"
#include "geometry/MixedLinesSet.h"
#include "geometry/OpenLinesSet.h"
#include "geometry/OpenPolyline.h"
#include "geometry/PartsView.h"
#include "geometry/PointsSet.h"
#include "geometry/Polygon.h"
#include "geometry/Polyline.h"
#include "geometry/SegmentIterator.h"
#include "geometry/SingleShape.h"
#include "ref.h"

namespace ref
{
using namespace cura;

//= cura::ClosedLinesSet::intersection
MixedLinesSet r1(const cura::ClosedLinesSet& self, const Shape& shape)
{
    if (self.empty() || shape.empty())
    {
        return {};
    }
    ClipperLib::PolyTree result;
    ClipperLib::Clipper clipper(clipper_init);
    shape.addPaths(clipper, ClipperLib::ptSubject);
    self.addPaths(clipper, ClipperLib::ptClip);
    clipper.Execute(ClipperLib::ctIntersection, result);
    ClipperLib::Paths result_paths;
    ClipperLib::OpenPathsFromPolyTree(result, result_paths);
    return MixedLinesSet(std::move(result));
}

//= cura::ClosedLinesSet::difference
MixedLinesSet r2(const cura::ClosedLinesSet& self, const Shape& shape)
{
    if (self.empty())
    {
        return {};
    }
    if (shape.empty())
    {
        return MixedLinesSet(self);
    }
    ClipperLib::PolyTree ret;
    ClipperLib::Clipper clipper(clipper_init);
    self.addPaths(clipper, ClipperLib::ptSubject);
    shape.addPaths(clipper, ClipperLib::ptClip);
    clipper.Execute(ClipperLib::ctDifference, ret);
    return MixedLinesSet(std::move(ret));
}

//= cura::ClosedPolyline::segmentsCount
size_t r3(const cura::ClosedPolyline& self)
{
    if (self.explicitly_closed_)
    {
        return self.size() >= 3 ? self.size() - 1 : 0;
    }
    return self.size() >= 2 ? self.size() : 0;
}

//= cura::ClosedPolyline::isValid
bool r4(const cura::ClosedPolyline& self)
{
    return self.size() >= (self.explicitly_closed_ ? 4 : 3);
}

//= cura::ClosedPolyline::addPath
void r5(const cura::ClosedPolyline& self, ClipperLib::Clipper& clipper, ClipperLib::PolyType poly_typ)
{
    if (! self.isExplicitlyClosed())
    {
        ClipperLib::Path closed_path = self.getPoints();
        closed_path.push_back(self.getPoints().front());
        clipper.AddPath(closed_path, poly_typ, false);
    }
    else
    {
        clipper.AddPath(self.getPoints(), poly_typ, false);
    }
}

//= cura::ClosedPolyline::inside
bool r6(const cura::ClosedPolyline& self, const Point2LL& p, bool border_result)
{
    int res = ClipperLib::PointInPolygon(p, self.getPoints());
    if (res == -1)
    {
        return border_result;
    }
    return res == 1;
}

//= cura::ClosedPolyline::inside
bool r7(const cura::ClosedPolyline& self, const ClipperLib::Path& polygon)
{
    return ranges::all_of(
        self,
        [&polygon](const auto& point)
        {
            return ClipperLib::PointInPolygon(point, polygon);
        });
}

//= cura::ClosedPolyline::toPseudoOpenPolyline
OpenPolyline r8(const cura::ClosedPolyline& self)
{
    OpenPolyline open_polyline(self.getPoints());
    if (self.hasClosingSegment())
    {
        open_polyline.push_back(open_polyline.getPoints().front());
    }
    return open_polyline;
}

//= cura::LinesSet::removeAt | cura::LinesSet<cura::ClosedPolyline>
namespace n20
{
using LinesSet = cura::LinesSet<cura::ClosedPolyline>;
void r20(cura::LinesSet<cura::ClosedPolyline>& self, size_t index)
{
    if (self.lines_.size() == 1)
    {
        self.lines_.clear();
    }
    else if (self.lines_.size() > 1)
    {
        if (index < self.lines_.size() - 1)
        {
            self.lines_[index] = std::move(self.lines_.back());
        }
        self.lines_.resize(self.lines_.size() - 1);
    }
}
} // namespace n20

//= cura::LinesSet::removeAt | cura::LinesSet<cura::OpenPolyline>
namespace n21
{
using LinesSet = cura::LinesSet<cura::OpenPolyline>;
void r21(cura::LinesSet<cura::OpenPolyline>& self, size_t index)
{
    if (self.lines_.size() == 1)
    {
        self.lines_.clear();
    }
    else if (self.lines_.size() > 1)
    {
        if (index < self.lines_.size() - 1)
        {
            self.lines_[index] = std::move(self.lines_.back());
        }
        self.lines_.resize(self.lines_.size() - 1);
    }
}
} // namespace n21

//= cura::LinesSet::offset | cura::LinesSet<cura::ClosedPolyline>
namespace n34
{
using LinesSet = cura::LinesSet<cura::ClosedPolyline>;
Shape r34(const cura::LinesSet<cura::ClosedPolyline>& self, coord_t distance, ClipperLib::JoinType join_type, double miter_limit)
{
    if (self.empty())
    {
        return {};
    }
    if (distance == 0)
    {
        Shape result;
        for (const ClosedPolyline& line : self.getLines())
        {
            result.emplace_back(line.getPoints(), line.isExplicitlyClosed());
        }
        return result;
    }
    ClipperLib::Paths ret;
    ClipperLib::ClipperOffset clipper(miter_limit, 10.0);
    self.addPaths(clipper, join_type, ClipperLib::etClosedLine);
    clipper.MiterLimit = miter_limit;
    clipper.Execute(ret, static_cast<double>(distance));
    return Shape{ std::move(ret) };
}
} // namespace n34

//= cura::LinesSet::offset | cura::LinesSet<cura::Polygon>
namespace n35
{
using LinesSet = cura::LinesSet<cura::Polygon>;
Shape r35(const cura::LinesSet<cura::Polygon>& self, coord_t distance, ClipperLib::JoinType join_type, double miter_limit)
{
    if (self.empty())
    {
        return {};
    }
    if (distance == 0)
    {
        return { self.getLines() };
    }
    ClipperLib::Paths ret;
    ClipperLib::ClipperOffset clipper(miter_limit, 10.0);
    Shape(self.getLines()).unionPolygons().addPaths(clipper, join_type, ClipperLib::etClosedPolygon);
    clipper.MiterLimit = miter_limit;
    clipper.Execute(ret, static_cast<double>(distance));
    return Shape{ std::move(ret) };
}
} // namespace n35

//= cura::LinesSet::offset | cura::LinesSet<cura::OpenPolyline>
namespace n36
{
using LinesSet = cura::LinesSet<cura::OpenPolyline>;
Shape r36(const cura::LinesSet<cura::OpenPolyline>& self, coord_t distance, ClipperLib::JoinType join_type, double miter_limit)
{
    if (self.empty() || distance == 0)
    {
        return {};
    }
    ClipperLib::ClipperOffset clipper(miter_limit, 10.0);
    const ClipperLib::EndType end_type{ join_type == ClipperLib::jtMiter ? ClipperLib::etOpenSquare : ClipperLib::etOpenRound };
    self.addPaths(clipper, join_type, end_type);
    clipper.MiterLimit = miter_limit;
    ClipperLib::Paths result_paths;
    clipper.Execute(result_paths, static_cast<double>(distance));
    return Shape{ std::move(result_paths) };
}
} // namespace n36

//= cura::MendedShape::MendedShape
void r43(cura::MendedShape& self, const Settings* settings, const SectionType section_type, const Shape* shape)
{
        member(self.settings_) = settings;
        member(self.section_type_) = section_type;
        member(self.shape_) = shape;
}

//= cura::MixedLinesSet::MixedLinesSet
void r45(cura::MixedLinesSet& self, const ClosedLinesSet& lines)
{
    self.push_back(lines);
}

//= cura::MixedLinesSet::MixedLinesSet
void r46(cura::MixedLinesSet& self, ClipperLib::PolyTree&& tree)
{
    ClipperLib::Paths polylines;
    ClipperLib::OpenPathsFromPolyTree(tree, polylines); 
    constexpr bool polyline_explicitely_closed = true;
    for (ClipperLib::Path& path : polylines)
    {
        if (path.empty())
        {
            continue;
        }
        if (path.front() == path.back())
        {
            self.push_back(ClosedPolyline(std::move(path), polyline_explicitely_closed));
        }
        else
        {
            self.push_back(OpenPolyline(std::move(path)));
        }
    }
    ClipperLib::Paths polygons;
    ClipperLib::ClosedPathsFromPolyTree(tree, polygons); 
    constexpr bool polygon_explicitely_closed = false;
    for (ClipperLib::Path& path : polygons)
    {
        if (path.empty())
        {
            continue;
        }
        self.push_back(Polygon(std::move(path), polygon_explicitely_closed));
    }
}

//= cura::MixedLinesSet::offset
Shape r47(const cura::MixedLinesSet& self, coord_t distance, ClipperLib::JoinType join_type, double miter_limit)
{
    if (distance == 0)
    {
        Shape result;
        for (const PolylinePtr& line : (self))
        {
            if (const std::shared_ptr<const Polygon> polygon = dynamic_pointer_cast<const Polygon>(line))
            {
                result.push_back(*polygon);
            }
        }
        return result;
    }
    Shape polygons;
    ClipperLib::ClipperOffset clipper(miter_limit, 10.0);
    for (const PolylinePtr& line : (self))
    {
        if (const std::shared_ptr<const Polygon> polygon = dynamic_pointer_cast<const Polygon>(line))
        {
            polygons.push_back(*polygon);
        }
        else
        {
            ClipperLib::EndType end_type;
            if (line->hasClosingSegment())
            {
                end_type = ClipperLib::etClosedLine;
            }
            else
            {
                end_type = (join_type == ClipperLib::jtMiter) ? ClipperLib::etOpenSquare : ClipperLib::etOpenRound;
            }
            clipper.AddPath(line->getPoints(), join_type, end_type);
        }
    }
    if (! polygons.empty())
    {
        polygons = polygons.unionPolygons();
        for (const Polygon& polygon : polygons)
        {
            clipper.AddPath(polygon.getPoints(), join_type, ClipperLib::etClosedPolygon);
        }
    }
    clipper.MiterLimit = miter_limit;
    ClipperLib::Paths result;
    clipper.Execute(result, static_cast<double>(distance));
    return Shape{ std::move(result) };
}

//= cura::OpenLinesSet::split
void r68(cura::OpenLinesSet& self, const size_t line_index, const size_t point_index)
{
    if (line_index >= self.size())
    {
        return;
    }
    OpenPolyline& line = self.at(line_index);
    if (! line.isValid() || point_index == 0 || point_index >= line.size() - 1) 
    {
        return;
    }
    OpenPolyline tail(ClipperLib::Path(std::make_move_iterator(line.begin() + point_index), std::make_move_iterator(line.end())));
    line.resize(point_index + 1);
    line[point_index] = tail.front(); 
    self.insert(self.begin() + line_index + 1, std::move(tail));
}

//= cura::OpenLinesSet::difference
OpenLinesSet r69(const cura::OpenLinesSet& self, const Shape& other)
{
    if (self.empty())
    {
        return {};
    }
    if (other.empty())
    {
        return self;
    }
    ClipperLib::PolyTree ret;
    ClipperLib::Clipper clipper(clipper_init);
    self.addPaths(clipper, ClipperLib::ptSubject);
    other.addPaths(clipper, ClipperLib::ptClip);
    clipper.Execute(ClipperLib::ctDifference, ret);
    ClipperLib::Paths result_paths;
    ClipperLib::OpenPathsFromPolyTree(ret, result_paths);
    return OpenLinesSet(std::move(result_paths));
}

//= cura::PartsView::getPartContaining
size_t r70(const cura::PartsView& self, size_t poly_idx, size_t* boundary_poly_idx)
{
    const PartsView& partsView = self;
    for (size_t part_idx_now = 0; part_idx_now < partsView.size(); part_idx_now++)
    {
        const std::vector<size_t>& partView = partsView[part_idx_now];
        if (partView.size() == 0)
        {
            continue;
        }
        std::vector<size_t>::const_iterator result = std::find(partView.begin(), partView.end(), poly_idx);
        if (result != partView.end())
        {
            if (boundary_poly_idx)
            {
                *boundary_poly_idx = partView[0];
            }
            return part_idx_now;
        }
    }
    return NO_INDEX;
}

//= cura::PartsView::assemblePart
SingleShape r71(const cura::PartsView& self, size_t part_idx)
{
    const PartsView& partsView = self;
    SingleShape ret;
    if (part_idx != NO_INDEX)
    {
        for (size_t poly_idx_ff : partsView[part_idx])
        {
            ret.push_back(self.polygons_[poly_idx_ff]);
        }
    }
    return ret;
}

//= cura::PartsView::assemblePartContaining
SingleShape r72(const cura::PartsView& self, size_t poly_idx, size_t* boundary_poly_idx)
{
    SingleShape ret;
    size_t part_idx = self.getPartContaining(poly_idx, boundary_poly_idx);
    if (part_idx != NO_INDEX)
    {
        return self.assemblePart(part_idx);
    }
    return ret;
}

//= cura::PointsSet::PointsSet
void r73(cura::PointsSet& self, const std::initializer_list<Point2LL>& initializer)
{
        member(self.points_) = initializer;
}

//= cura::PointsSet::PointsSet
void r74(cura::PointsSet& self, const ClipperLib::Path& points)
{
        member(self.points_) = points;
}

//= cura::PointsSet::PointsSet
void r75(cura::PointsSet& self, ClipperLib::Path&& points)
{
        member(self.points_) = std::move(points);
}

//= cura::PointsSet::applyMatrix
void r76(cura::PointsSet& self, const PointMatrix& matrix)
{
    for (Point2LL& point : self.points_)
    {
        point = matrix.apply(point);
    }
}

//= cura::PointsSet::applyMatrix
void r77(cura::PointsSet& self, const Point3Matrix& matrix)
{
    for (Point2LL& point : self.points_)
    {
        point = matrix.apply(point);
    }
}

//= cura::PointsSet::translate
void r78(cura::PointsSet& self, const Point2LL& translation)
{
    for (Point2LL& point : self.points_)
    {
        point += translation;
    }
}

//= cura::Polygon::addPath
void r79(const cura::Polygon& self, ClipperLib::Clipper& clipper, ClipperLib::PolyType poly_typ)
{
    clipper.AddPath(self.getPoints(), poly_typ, true);
}

//= cura::Polygon::intersection
Shape r80(const cura::Polygon& self, const Polygon& other)
{
    ClipperLib::Paths ret_paths;
    ClipperLib::Clipper clipper(clipper_init);
    clipper.AddPath(self.getPoints(), ClipperLib::ptSubject, true);
    clipper.AddPath(other.getPoints(), ClipperLib::ptClip, true);
    clipper.Execute(ClipperLib::ctIntersection, ret_paths);
    return Shape{ std::move(ret_paths) };
}

//= cura::Polygon::smooth2
void r81(const cura::Polygon& self, int remove_length, Polygon& result)
{
    if (! self.empty())
    {
        result.push_back(self.front());
    }
    for (unsigned int poly_idx = 1; poly_idx < self.size(); poly_idx++)
    {
        const Point2LL& last = self.getPoints()[poly_idx - 1];
        const Point2LL& now = self.getPoints()[poly_idx];
        const Point2LL& next = self.getPoints()[(poly_idx + 1) % self.size()];
        if (shorterThen(last - now, remove_length) && shorterThen(now - next, remove_length))
        {
            poly_idx++; 
            if (poly_idx < self.size())
            {
                result.push_back(self.getPoints()[poly_idx]);
            }
        }
        else
        {
            result.push_back(self.getPoints()[poly_idx]);
        }
    }
}

//= cura::Polygon::smooth
void r82(const cura::Polygon& self, int remove_length, Polygon& result)
{
    if (! self.empty())
    {
        result.push_back(self.front());
    }
    auto is_zigzag = [remove_length](const int64_t v02_size, const int64_t v12_size, const int64_t v13_size, const int64_t dot1, const int64_t dot2)
    {
        if (v12_size > remove_length)
        { 
            return false;
        }
        const bool p1_is_left_of_v02 = dot1 < 0;
        if (! p1_is_left_of_v02)
        { 
            return false;
        }
        const bool p2_is_left_of_v13 = dot2 > 0;
        if (p2_is_left_of_v13)
        { 
            return false;
        }
        if (-dot1 <= v02_size * v12_size / 2)
        { 
            return false;
        }
        if (-dot2 <= v13_size * v12_size / 2)
        { 
            return false;
        }
        return true;
    };
    Point2LL v02 = self.getPoints()[2] - self.getPoints()[0];
    Point2LL v02_t = turn90CCW(v02);
    int64_t v02_size = vSize(v02);
    bool force_push = false;
    for (unsigned int poly_idx = 1; poly_idx < self.size(); poly_idx++)
    {
        const Point2LL& p1 = self.getPoints().at(poly_idx);
        const Point2LL& p2 = self.getPoints().at((poly_idx + 1) % self.size());
        const Point2LL& p3 = self.getPoints().at((poly_idx + 2) % self.size());
        const Point2LL v12 = p2 - p1;
        const int64_t v12_size = vSize(v12);
        const Point2LL v13 = p3 - p1;
        const int64_t v13_size = vSize(v13);
        const int64_t dot1 = dot(v02_t, v12);
        const Point2LL v13_t = turn90CCW(v13);
        const int64_t dot2 = dot(v13_t, v12);
        bool push_point = force_push || ! is_zigzag(v02_size, v12_size, v13_size, dot1, dot2);
        force_push = false;
        if (push_point)
        {
            result.push_back(p1);
        }
        else
        {
            force_push = true; 
        }
        v02_t = v13_t;
        v02 = v13;
        v02_size = v13_size;
    }
}

//= cura::Polygon::smoothCornerSimple
void r84(const Point2LL& p0, const Point2LL& p1, const Point2LL& p2, const ListPolyIt& p0_it, const ListPolyIt& p1_it, const ListPolyIt& p2_it, const Point2LL& v10, const Point2LL& v12, const Point2LL& v02, const int64_t shortcut_length, double cos_angle)
{
    if (vSize2(v02) <= shortcut_length * (shortcut_length + 10) 
        || (cos_angle > 0.9999 && LinearAlg2D::getDist2FromLine(p2, p0, p1) < 20 * 20)) 
    {
        p1_it.remove();
    }
    else
    {
        double a1m_angle = acos(cos_angle) / 2;
        const int64_t a1_size = shortcut_length / 2 / std::sin(a1m_angle);
        if (a1_size * a1_size < vSize2(v10) && a1_size * a1_size < vSize2(v12))
        {
            Point2LL a = p1 + normal(v10, a1_size);
            Point2LL b = p1 + normal(v12, a1_size);
#ifdef ASSERT_INSANE_OUTPUT
#endif 
            ListPolyIt::insertPointNonDuplicate(p0_it, p1_it, a);
            ListPolyIt::insertPointNonDuplicate(p1_it, p2_it, b);
            p1_it.remove();
        }
        else if (vSize2(v12) < vSize2(v10))
        {
            const Point2LL& b = p2_it.p();
            Point2LL a;
            bool success = LinearAlg2D::getPointOnLineWithDist(b, p1, p0, shortcut_length, a);
            if (success)
            { 
#ifdef ASSERT_INSANE_OUTPUT
#endif 
                ListPolyIt::insertPointNonDuplicate(p0_it, p1_it, a);
            }
            p1_it.remove();
        }
        else
        {
            const Point2LL& a = p0_it.p();
            Point2LL b;
            bool success = LinearAlg2D::getPointOnLineWithDist(a, p1, p2, shortcut_length, b);
            if (success)
            { 
#ifdef ASSERT_INSANE_OUTPUT
#endif 
                ListPolyIt::insertPointNonDuplicate(p1_it, p2_it, b);
            }
            p1_it.remove();
        }
    }
}

//= cura::Polygon::smoothOutwardStep
void r85(const Point2LL& p1, const int64_t shortcut_length2, ListPolyIt& p0_it, ListPolyIt& p2_it, bool& forward_is_blocked, bool& backward_is_blocked, bool& forward_is_too_far, bool& backward_is_too_far)
{
    const bool forward_has_converged = forward_is_blocked || forward_is_too_far;
    const bool backward_has_converged = backward_is_blocked || backward_is_too_far;
    const Point2LL p0 = p0_it.p();
    const Point2LL p2 = p2_it.p();
    bool walk_forward
        = ! forward_has_converged && (backward_has_converged || (vSize2(p2 - p1) < vSize2(p0 - p1))); 
    if (walk_forward)
    {
        const ListPolyIt p2_2_it = p2_it.next();
        const Point2LL p2_2 = p2_2_it.p();
        bool p2_is_left = LinearAlg2D::pointIsLeftOfLine(p2, p0, p2_2) >= 0;
        if (! p2_is_left)
        {
            forward_is_blocked = true;
            return;
        }
        const Point2LL v02_2 = p2_2 - p0_it.p();
        if (vSize2(v02_2) > shortcut_length2)
        {
            forward_is_too_far = true;
            return;
        }
        p2_it = p2_2_it; 
        backward_is_blocked = false; 
        backward_is_too_far = false;
        return;
    }
    const ListPolyIt p0_2_it = p0_it.prev();
    const Point2LL p0_2 = p0_2_it.p();
    bool p0_is_left = LinearAlg2D::pointIsLeftOfLine(p0, p0_2, p2) >= 0;
    if (! p0_is_left)
    {
        backward_is_blocked = true;
        return;
    }
    const Point2LL v02_2 = p2_it.p() - p0_2;
    if (vSize2(v02_2) > shortcut_length2)
    {
        backward_is_too_far = true;
        return;
    }
    p0_it = p0_2_it; 
    forward_is_blocked = false; 
    forward_is_too_far = false;
}

//= cura::Polygon::centerOfMass
Point2LL r87(const cura::Polygon& self)
{
    if (! self.empty())
    {
        Point2LL p0 = self.getPoints()[0];
        if (self.size() > 1)
        {
            double x{ 0 };
            double y{ 0 };
            for (size_t n = 1; n <= self.size(); n++)
            {
                Point2LL p1 = self.getPoints()[n % self.size()];
                auto second_factor = static_cast<double>((p0.X * p1.Y) - (p1.X * p0.Y));
                x += static_cast<double>(p0.X + p1.X) * second_factor;
                y += static_cast<double>(p0.Y + p1.Y) * second_factor;
                p0 = p1;
            }
            double current_area = self.area();
            x = x / 6 / current_area;
            y = y / 6 / current_area;
            return { std::llrint(x), std::llrint(y) };
        }
        return p0;
    }
    return {};
}

//= cura::Polygon::offset
Shape r88(const cura::Polygon& self, int distance, ClipperLib::JoinType join_type, double miter_limit)
{
    if (distance == 0)
    {
        return Shape({ self });
    }
    ClipperLib::Paths ret;
    ClipperLib::ClipperOffset clipper(miter_limit, 10.0);
    clipper.AddPath(self.getPoints(), join_type, ClipperLib::etClosedPolygon);
    clipper.MiterLimit = miter_limit;
    clipper.Execute(ret, distance);
    return Shape{ std::move(ret) };
}

//= cura::Polyline::beginSegments
namespace n90
{
using const_segments_iterator = cura::Polyline::const_segments_iterator;
Polyline::const_segments_iterator r90(const cura::Polyline& self)
{
    return const_segments_iterator(self.begin(), self.begin(), self.end());
}
} // namespace n90

//= cura::Polyline::endSegments
namespace n91
{
using const_segments_iterator = cura::Polyline::const_segments_iterator;
Polyline::const_segments_iterator r91(const cura::Polyline& self)
{
    if (self.hasClosingSegment())
    {
        return const_segments_iterator(self.end(), self.begin(), self.end());
    }
    return const_segments_iterator(self.size() > 1 ? std::prev(self.end()) : self.end(), self.begin(), self.end());
}
} // namespace n91

//= cura::Polyline::cbeginSegments
namespace n92
{
using const_segments_iterator = cura::Polyline::const_segments_iterator;
Polyline::const_segments_iterator r92(const cura::Polyline& self)
{
    return self.beginSegments();
}
} // namespace n92

//= cura::Polyline::cendSegments
namespace n93
{
using const_segments_iterator = cura::Polyline::const_segments_iterator;
Polyline::const_segments_iterator r93(const cura::Polyline& self)
{
    return self.endSegments();
}
} // namespace n93

//= cura::Polyline::beginSegments
namespace n94
{
using segments_iterator = cura::Polyline::segments_iterator;
Polyline::segments_iterator r94(cura::Polyline& self)
{
    return segments_iterator(self.begin(), self.begin(), self.end());
}
} // namespace n94

//= cura::Polyline::endSegments
namespace n95
{
using segments_iterator = cura::Polyline::segments_iterator;
Polyline::segments_iterator r95(cura::Polyline& self)
{
    if (self.hasClosingSegment())
    {
        return segments_iterator(self.end(), self.begin(), self.end());
    }
    return segments_iterator(self.size() > 1 ? std::prev(self.end()) : self.end(), self.begin(), self.end());
}
} // namespace n95

//= cura::Polyline::length
namespace n96
{
using const_segments_iterator = cura::Polyline::const_segments_iterator;
using value_type = cura::PointsSet::value_type;
coord_t r96(const cura::Polyline& self)
{
    return std::accumulate(
        self.beginSegments(),
        self.endSegments(),
        coord_t(0),
        [](coord_t total, const const_segments_iterator::value_type& segment)
        {
            return total + vSize(segment.end - segment.start);
        });
}
} // namespace n96

//= cura::Polyline::shorterThan
namespace n97
{
using const_segments_iterator = cura::Polyline::const_segments_iterator;
using value_type = cura::PointsSet::value_type;
bool r97(const cura::Polyline& self, const coord_t check_length)
{
    coord_t length = 0;
    auto iterator_segment = std::find_if(
        self.beginSegments(),
        self.endSegments(),
        [&length, &check_length](const const_segments_iterator::value_type& segment)
        {
            length += vSize(segment.end - segment.start);
            return length >= check_length;
        });
    return iterator_segment == self.endSegments();
}
} // namespace n97

//= cura::Polyline::splitIntoSegments
void r98(const cura::Polyline& self, OpenLinesSet& result)
{
    result.reserve(result.size() + self.segmentsCount());
    for (auto it = self.beginSegments(); it != self.endSegments(); ++it)
    {
        result.emplace_back(OpenPolyline({ (*it).start, (*it).end }));
    }
}

//= cura::Polyline::splitIntoSegments
OpenLinesSet r99(const cura::Polyline& self)
{
    OpenLinesSet result;
    self.splitIntoSegments(result);
    return result;
}

//= cura::SingleShape::inside
bool r100(const cura::SingleShape& self, const Point2LL& p, bool border_result)
{
    if (self.size() < 1)
    {
        return false;
    }
    if (! (self)[0].inside(p, border_result))
    {
        return false;
    }
    for (unsigned int n = 1; n < self.size(); n++)
    {
        if ((self)[n].inside(p, border_result))
        {
            return false;
        }
    }
    return true;
}

//= cura::SingleShape::outerPolygon
Polygon& r101(cura::SingleShape& self)
{
    return self.front();
}

//= cura::SingleShape::outerPolygon
const Polygon& r102(const cura::SingleShape& self)
{
    return self.front();
}

//= cura::ClosedPolyline::ClosedPolyline
void r106(cura::ClosedPolyline& self, const bool explicitly_closed)
{
    member(self.explicitly_closed_) = {explicitly_closed};
}

//= cura::ClosedPolyline::hasClosingSegment
bool r111(const cura::ClosedPolyline& self)
{
    return ! self.explicitly_closed_;
}

//= cura::ClosedPolyline::isExplicitlyClosed
bool r112(const cura::ClosedPolyline& self)
{
    return self.explicitly_closed_;
}

//= cura::ClosedPolyline::setExplicitlyClosed
void r113(cura::ClosedPolyline& self, bool explicitly_closed)
{
    self.explicitly_closed_ = explicitly_closed;
}

//= cura::LinesSet::LinesSet | cura::LinesSet<cura::Polygon>
namespace n114
{
using LineType = cura::Polygon;
using LinesSet = cura::LinesSet<cura::Polygon>;
void r114(cura::LinesSet<cura::Polygon>& self, const std::vector<LineType>& lines)
{
    member(self.lines_) = lines;
}
} // namespace n114

//= cura::LinesSet::LinesSet | cura::LinesSet<cura::OpenPolyline>
namespace n115
{
using LineType = cura::OpenPolyline;
using LinesSet = cura::LinesSet<cura::OpenPolyline>;
void r115(cura::LinesSet<cura::OpenPolyline>& self, const LineType& line)
{
    member(self.lines_) = { line };
}
} // namespace n115

//= cura::LinesSet::LinesSet | cura::LinesSet<cura::ClosedPolyline>
namespace n116
{
using LineType = cura::ClosedPolyline;
using LinesSet = cura::LinesSet<cura::ClosedPolyline>;
void r116(cura::LinesSet<cura::ClosedPolyline>& self, const LineType& line)
{
    member(self.lines_) = { line };
}
} // namespace n116

//= cura::LinesSet::LinesSet | cura::LinesSet<cura::OpenPolyline>
namespace n117
{
using LineType = cura::OpenPolyline;
using LinesSet = cura::LinesSet<cura::OpenPolyline>;
void r117(cura::LinesSet<cura::OpenPolyline>& self, const std::initializer_list<LineType>& initializer)
{
    member(self.lines_) = {initializer};
}
} // namespace n117

//= cura::LinesSet::LinesSet | cura::LinesSet<cura::ClosedPolyline>
namespace n118
{
using LineType = cura::ClosedPolyline;
using LinesSet = cura::LinesSet<cura::ClosedPolyline>;
void r118(cura::LinesSet<cura::ClosedPolyline>& self, const std::initializer_list<LineType>& initializer)
{
    member(self.lines_) = {initializer};
}
} // namespace n118

//= cura::LinesSet::getLines | cura::LinesSet<cura::Polygon>
namespace n119
{
using LineType = cura::Polygon;
using LinesSet = cura::LinesSet<cura::Polygon>;
const std::vector<LineType>& r119(const cura::LinesSet<cura::Polygon>& self)
{
    return self.lines_;
}
} // namespace n119

//= cura::LinesSet::getLines | cura::LinesSet<cura::ClosedPolyline>
namespace n120
{
using LineType = cura::ClosedPolyline;
using LinesSet = cura::LinesSet<cura::ClosedPolyline>;
const std::vector<LineType>& r120(const cura::LinesSet<cura::ClosedPolyline>& self)
{
    return self.lines_;
}
} // namespace n120

//= cura::LinesSet::getLines | cura::LinesSet<cura::Polygon>
namespace n121
{
using LineType = cura::Polygon;
using LinesSet = cura::LinesSet<cura::Polygon>;
std::vector<LineType>& r121(cura::LinesSet<cura::Polygon>& self)
{
    return self.lines_;
}
} // namespace n121

//= cura::LinesSet::getLines | cura::LinesSet<cura::ClosedPolyline>
namespace n122
{
using LineType = cura::ClosedPolyline;
using LinesSet = cura::LinesSet<cura::ClosedPolyline>;
std::vector<LineType>& r122(cura::LinesSet<cura::ClosedPolyline>& self)
{
    return self.lines_;
}
} // namespace n122

//= cura::LinesSet::setLines | cura::LinesSet<cura::Polygon>
namespace n123
{
using LineType = cura::Polygon;
using LinesSet = cura::LinesSet<cura::Polygon>;
void r123(cura::LinesSet<cura::Polygon>& self, std::vector<LineType>&& lines)
{
    self.lines_ = lines;
}
} // namespace n123

//= cura::LinesSet::begin | cura::LinesSet<cura::Polygon>
namespace n124
{
using LinesSet = cura::LinesSet<cura::Polygon>;
using const_iterator = cura::LinesSet<cura::Polygon>::const_iterator;
const_iterator r124(const cura::LinesSet<cura::Polygon>& self)
{
    return self.lines_.begin();
}
} // namespace n124

//= cura::LinesSet::begin | cura::LinesSet<cura::OpenPolyline>
namespace n125
{
using LinesSet = cura::LinesSet<cura::OpenPolyline>;
using const_iterator = cura::LinesSet<cura::OpenPolyline>::const_iterator;
const_iterator r125(const cura::LinesSet<cura::OpenPolyline>& self)
{
    return self.lines_.begin();
}
} // namespace n125

//= cura::LinesSet::begin | cura::LinesSet<cura::Polygon>
namespace n126
{
using LinesSet = cura::LinesSet<cura::Polygon>;
using iterator = cura::LinesSet<cura::Polygon>::iterator;
iterator r126(cura::LinesSet<cura::Polygon>& self)
{
    return self.lines_.begin();
}
} // namespace n126

//= cura::LinesSet::begin | cura::LinesSet<cura::OpenPolyline>
namespace n127
{
using LinesSet = cura::LinesSet<cura::OpenPolyline>;
using iterator = cura::LinesSet<cura::OpenPolyline>::iterator;
iterator r127(cura::LinesSet<cura::OpenPolyline>& self)
{
    return self.lines_.begin();
}
} // namespace n127

//= cura::LinesSet::end | cura::LinesSet<cura::Polygon>
namespace n128
{
using LinesSet = cura::LinesSet<cura::Polygon>;
using const_iterator = cura::LinesSet<cura::Polygon>::const_iterator;
const_iterator r128(const cura::LinesSet<cura::Polygon>& self)
{
    return self.lines_.end();
}
} // namespace n128

//= cura::LinesSet::end | cura::LinesSet<cura::OpenPolyline>
namespace n129
{
using LinesSet = cura::LinesSet<cura::OpenPolyline>;
using const_iterator = cura::LinesSet<cura::OpenPolyline>::const_iterator;
const_iterator r129(const cura::LinesSet<cura::OpenPolyline>& self)
{
    return self.lines_.end();
}
} // namespace n129

//= cura::LinesSet::end | cura::LinesSet<cura::Polygon>
namespace n130
{
using LinesSet = cura::LinesSet<cura::Polygon>;
using iterator = cura::LinesSet<cura::Polygon>::iterator;
iterator r130(cura::LinesSet<cura::Polygon>& self)
{
    return self.lines_.end();
}
} // namespace n130

//= cura::LinesSet::end | cura::LinesSet<cura::OpenPolyline>
namespace n131
{
using LinesSet = cura::LinesSet<cura::OpenPolyline>;
using iterator = cura::LinesSet<cura::OpenPolyline>::iterator;
iterator r131(cura::LinesSet<cura::OpenPolyline>& self)
{
    return self.lines_.end();
}
} // namespace n131

//= cura::LinesSet::back | cura::LinesSet<cura::Polygon>
namespace n132
{
using LineType = cura::Polygon;
using LinesSet = cura::LinesSet<cura::Polygon>;
LineType& r132(cura::LinesSet<cura::Polygon>& self)
{
    return self.lines_.back();
}
} // namespace n132

//= cura::LinesSet::back | cura::LinesSet<cura::OpenPolyline>
namespace n133
{
using LineType = cura::OpenPolyline;
using LinesSet = cura::LinesSet<cura::OpenPolyline>;
LineType& r133(cura::LinesSet<cura::OpenPolyline>& self)
{
    return self.lines_.back();
}
} // namespace n133

//= cura::LinesSet::front | cura::LinesSet<cura::Polygon>
namespace n134
{
using LineType = cura::Polygon;
using LinesSet = cura::LinesSet<cura::Polygon>;
const LineType& r134(const cura::LinesSet<cura::Polygon>& self)
{
    return self.lines_.front();
}
} // namespace n134

//= cura::LinesSet::front | cura::LinesSet<cura::Polygon>
namespace n135
{
using LineType = cura::Polygon;
using LinesSet = cura::LinesSet<cura::Polygon>;
LineType& r135(cura::LinesSet<cura::Polygon>& self)
{
    return self.lines_.front();
}
} // namespace n135

//= cura::LinesSet::push_back | cura::LinesSet<cura::Polygon>
namespace n136
{
using LinesSet = cura::LinesSet<cura::Polygon>;
void r136(cura::LinesSet<cura::Polygon>& self, const LinesSet& other)
{
    self.lines_.insert(self.lines_.end(), other.lines_.begin(), other.lines_.end());
}
} // namespace n136

//= cura::LinesSet::push_back | cura::LinesSet<cura::OpenPolyline>
namespace n137
{
using LinesSet = cura::LinesSet<cura::OpenPolyline>;
void r137(cura::LinesSet<cura::OpenPolyline>& self, const LinesSet& other)
{
    self.lines_.insert(self.lines_.end(), other.lines_.begin(), other.lines_.end());
}
} // namespace n137

//= cura::LinesSet::pop_back | cura::LinesSet<cura::OpenPolyline>
namespace n138
{
using LinesSet = cura::LinesSet<cura::OpenPolyline>;
void r138(cura::LinesSet<cura::OpenPolyline>& self)
{
    self.lines_.pop_back();
}
} // namespace n138

//= cura::LinesSet::size | cura::LinesSet<cura::Polygon>
namespace n139
{
using LinesSet = cura::LinesSet<cura::Polygon>;
size_t r139(const cura::LinesSet<cura::Polygon>& self)
{
    return self.lines_.size();
}
} // namespace n139

//= cura::LinesSet::size | cura::LinesSet<cura::OpenPolyline>
namespace n140
{
using LinesSet = cura::LinesSet<cura::OpenPolyline>;
size_t r140(const cura::LinesSet<cura::OpenPolyline>& self)
{
    return self.lines_.size();
}
} // namespace n140

//= cura::LinesSet::empty | cura::LinesSet<cura::Polygon>
namespace n141
{
using LinesSet = cura::LinesSet<cura::Polygon>;
bool r141(const cura::LinesSet<cura::Polygon>& self)
{
    return self.lines_.empty();
}
} // namespace n141

//= cura::LinesSet::empty | cura::LinesSet<cura::OpenPolyline>
namespace n142
{
using LinesSet = cura::LinesSet<cura::OpenPolyline>;
bool r142(const cura::LinesSet<cura::OpenPolyline>& self)
{
    return self.lines_.empty();
}
} // namespace n142

//= cura::LinesSet::reserve | cura::LinesSet<cura::ClosedPolyline>
namespace n143
{
using LinesSet = cura::LinesSet<cura::ClosedPolyline>;
void r143(cura::LinesSet<cura::ClosedPolyline>& self, size_t size)
{
    self.lines_.reserve(size);
}
} // namespace n143

//= cura::LinesSet::reserve | cura::LinesSet<cura::Polygon>
namespace n144
{
using LinesSet = cura::LinesSet<cura::Polygon>;
void r144(cura::LinesSet<cura::Polygon>& self, size_t size)
{
    self.lines_.reserve(size);
}
} // namespace n144

//= cura::LinesSet::resize | cura::LinesSet<cura::Polygon>
namespace n145
{
using LinesSet = cura::LinesSet<cura::Polygon>;
void r145(cura::LinesSet<cura::Polygon>& self, size_t size)
{
    self.lines_.resize(size);
}
} // namespace n145

//= cura::LinesSet::clear | cura::LinesSet<cura::Polygon>
namespace n146
{
using LinesSet = cura::LinesSet<cura::Polygon>;
void r146(cura::LinesSet<cura::Polygon>& self)
{
    self.lines_.clear();
}
} // namespace n146

//= cura::LinesSet::clear | cura::LinesSet<cura::OpenPolyline>
namespace n147
{
using LinesSet = cura::LinesSet<cura::OpenPolyline>;
void r147(cura::LinesSet<cura::OpenPolyline>& self)
{
    self.lines_.clear();
}
} // namespace n147

//= cura::LinesSet::insert | cura::LinesSet<cura::OpenPolyline>
namespace n150
{
using LineType = cura::OpenPolyline;
using LinesSet = cura::LinesSet<cura::OpenPolyline>;
using const_iterator = cura::LinesSet<cura::OpenPolyline>::const_iterator;
using iterator = cura::LinesSet<cura::OpenPolyline>::iterator;
void r150(cura::LinesSet<cura::OpenPolyline>& self, const_iterator iterator, LineType&& line)
{
    self.lines_.insert(iterator, std::move(line));
}
} // namespace n150

//= cura::LinesSet::erase | cura::LinesSet<cura::Polygon>
namespace n151
{
using LinesSet = cura::LinesSet<cura::Polygon>;
using const_iterator = cura::LinesSet<cura::Polygon>::const_iterator;
using iterator = cura::LinesSet<cura::Polygon>::iterator;
iterator r151(cura::LinesSet<cura::Polygon>& self, const_iterator first, const_iterator last)
{
    return self.lines_.erase(first, last);
}
} // namespace n151

//= cura::LinesSet::erase | cura::LinesSet<cura::OpenPolyline>
namespace n152
{
using LinesSet = cura::LinesSet<cura::OpenPolyline>;
using const_iterator = cura::LinesSet<cura::OpenPolyline>::const_iterator;
using iterator = cura::LinesSet<cura::OpenPolyline>::iterator;
iterator r152(cura::LinesSet<cura::OpenPolyline>& self, const_iterator first, const_iterator last)
{
    return self.lines_.erase(first, last);
}
} // namespace n152

//= cura::LinesSet::operator[] | cura::LinesSet<cura::Polygon>
namespace n153
{
using LineType = cura::Polygon;
using LinesSet = cura::LinesSet<cura::Polygon>;
LineType& r153(cura::LinesSet<cura::Polygon>& self, size_t index)
{
    return self.lines_[index];
}
} // namespace n153

//= cura::LinesSet::operator[] | cura::LinesSet<cura::OpenPolyline>
namespace n154
{
using LineType = cura::OpenPolyline;
using LinesSet = cura::LinesSet<cura::OpenPolyline>;
LineType& r154(cura::LinesSet<cura::OpenPolyline>& self, size_t index)
{
    return self.lines_[index];
}
} // namespace n154

//= cura::LinesSet::operator[] | cura::LinesSet<cura::Polygon>
namespace n155
{
using LineType = cura::Polygon;
using LinesSet = cura::LinesSet<cura::Polygon>;
const LineType& r155(const cura::LinesSet<cura::Polygon>& self, size_t index)
{
    return self.lines_[index];
}
} // namespace n155

//= cura::LinesSet::operator[] | cura::LinesSet<cura::OpenPolyline>
namespace n156
{
using LineType = cura::OpenPolyline;
using LinesSet = cura::LinesSet<cura::OpenPolyline>;
const LineType& r156(const cura::LinesSet<cura::OpenPolyline>& self, size_t index)
{
    return self.lines_[index];
}
} // namespace n156

//= cura::LinesSet::at | cura::LinesSet<cura::Polygon>
namespace n157
{
using LineType = cura::Polygon;
using LinesSet = cura::LinesSet<cura::Polygon>;
const LineType& r157(const cura::LinesSet<cura::Polygon>& self, size_t index)
{
    return self.lines_.at(index);
}
} // namespace n157

//= cura::LinesSet::at | cura::LinesSet<cura::OpenPolyline>
namespace n158
{
using LineType = cura::OpenPolyline;
using LinesSet = cura::LinesSet<cura::OpenPolyline>;
LineType& r158(cura::LinesSet<cura::OpenPolyline>& self, size_t index)
{
    return self.lines_.at(index);
}
} // namespace n158

//= cura::LinesSet::newLine | cura::LinesSet<cura::OpenPolyline>
namespace n159
{
using LineType = cura::OpenPolyline;
using LinesSet = cura::LinesSet<cura::OpenPolyline>;
LineType& r159(cura::LinesSet<cura::OpenPolyline>& self)
{
    self.lines_.emplace_back();
    return self.lines_.back();
}
} // namespace n159

//= cura::LinesSet::newLine | cura::LinesSet<cura::Polygon>
namespace n160
{
using LineType = cura::Polygon;
using LinesSet = cura::LinesSet<cura::Polygon>;
LineType& r160(cura::LinesSet<cura::Polygon>& self)
{
    self.lines_.emplace_back();
    return self.lines_.back();
}
} // namespace n160

//= cura::OpenPolyline::hasClosingSegment
bool r167(const cura::OpenPolyline& self)
{
    return false; 
}

//= cura::OpenPolyline::segmentsCount
size_t r168(const cura::OpenPolyline& self)
{
    return self.size() > 1 ? self.size() - 1 : 0;
}

//= cura::OpenPolyline::isValid
bool r169(const cura::OpenPolyline& self)
{
    return self.size() >= 2;
}

//= cura::OpenPolyline::addPath
void r170(const cura::OpenPolyline& self, ClipperLib::Clipper& clipper, ClipperLib::PolyType poly_typ)
{
    clipper.AddPath(self.getPoints(), poly_typ, false);
}

//= cura::PointsSet::getPoints
const ClipperLib::Path& r172(const cura::PointsSet& self)
{
    return self.points_;
}

//= cura::PointsSet::getPoints
ClipperLib::Path& r173(cura::PointsSet& self)
{
    return self.points_;
}

//= cura::PointsSet::setPoints
void r174(cura::PointsSet& self, ClipperLib::Path&& points)
{
    self.points_ = points;
}

//= cura::PointsSet::size
size_t r175(const cura::PointsSet& self)
{
    return self.points_.size();
}

//= cura::PointsSet::push_back
void r176(cura::PointsSet& self, const Point2LL& point)
{
    self.points_.push_back(point);
}

//= cura::PointsSet::push_back
void r177(cura::PointsSet& self, const PointsSet& other)
{
    self.push_back(other.points_.begin(), other.points_.end());
}

//= cura::PointsSet::push_back
void r178(cura::PointsSet& self, PointsSet&& other)
{
    self.points_.insert(self.points_.end(), std::make_move_iterator(other.points_.begin()), std::make_move_iterator(other.points_.end()));
}

//= cura::PointsSet::push_back
namespace n179
{
using const_iterator = cura::PointsSet::const_iterator;
void r179(cura::PointsSet& self, const const_iterator& begin, const const_iterator& end)
{
    self.points_.insert(self.points_.end(), begin, end);
}
} // namespace n179

//= cura::PointsSet::pop_back
void r182(cura::PointsSet& self)
{
    self.points_.pop_back();
}

//= cura::PointsSet::begin
namespace n185
{
using const_iterator = cura::PointsSet::const_iterator;
const_iterator r185(const cura::PointsSet& self)
{
    return self.points_.begin();
}
} // namespace n185

//= cura::PointsSet::begin
namespace n186
{
using iterator = cura::PointsSet::iterator;
iterator r186(cura::PointsSet& self)
{
    return self.points_.begin();
}
} // namespace n186

//= cura::PointsSet::end
namespace n187
{
using const_iterator = cura::PointsSet::const_iterator;
const_iterator r187(const cura::PointsSet& self)
{
    return self.points_.end();
}
} // namespace n187

//= cura::PointsSet::end
namespace n188
{
using iterator = cura::PointsSet::iterator;
iterator r188(cura::PointsSet& self)
{
    return self.points_.end();
}
} // namespace n188

//= cura::PointsSet::rbegin
namespace n189
{
using const_reverse_iterator = cura::PointsSet::const_reverse_iterator;
const_reverse_iterator r189(const cura::PointsSet& self)
{
    return self.points_.rbegin();
}
} // namespace n189

//= cura::PointsSet::rbegin
namespace n190
{
using reverse_iterator = cura::PointsSet::reverse_iterator;
reverse_iterator r190(cura::PointsSet& self)
{
    return self.points_.rbegin();
}
} // namespace n190

//= cura::PointsSet::rend
namespace n191
{
using const_reverse_iterator = cura::PointsSet::const_reverse_iterator;
const_reverse_iterator r191(const cura::PointsSet& self)
{
    return self.points_.rend();
}
} // namespace n191

//= cura::PointsSet::rend
namespace n192
{
using reverse_iterator = cura::PointsSet::reverse_iterator;
reverse_iterator r192(cura::PointsSet& self)
{
    return self.points_.rend();
}
} // namespace n192

//= cura::PointsSet::front
const Point2LL& r193(const cura::PointsSet& self)
{
    return self.points_.front();
}

//= cura::PointsSet::front
Point2LL& r194(cura::PointsSet& self)
{
    return self.points_.front();
}

//= cura::PointsSet::back
const Point2LL& r195(const cura::PointsSet& self)
{
    return self.points_.back();
}

//= cura::PointsSet::back
Point2LL& r196(cura::PointsSet& self)
{
    return self.points_.back();
}

//= cura::PointsSet::at
const Point2LL& r197(const cura::PointsSet& self, const size_t pos)
{
    return self.points_.at(pos);
}

//= cura::PointsSet::at
Point2LL& r198(cura::PointsSet& self, const size_t pos)
{
    return self.points_.at(pos);
}

//= cura::PointsSet::empty
bool r199(const cura::PointsSet& self)
{
    return self.points_.empty();
}

//= cura::PointsSet::resize
void r200(cura::PointsSet& self, const size_t size)
{
    self.points_.resize(size);
}

//= cura::PointsSet::reserve
void r201(cura::PointsSet& self, const size_t size)
{
    self.points_.reserve(size);
}

//= cura::PointsSet::clear
void r202(cura::PointsSet& self)
{
    self.points_.clear();
}

//= cura::PointsSet::operator[]
Point2LL& r203(cura::PointsSet& self, size_t index)
{
    return self.points_[index];
}

//= cura::PointsSet::operator[]
const Point2LL& r204(const cura::PointsSet& self, size_t index)
{
    return self.points_[index];
}

//= cura::Polygon::Polygon
void r205(cura::Polygon& self, const bool explicitely_closed)
{
    base<ClosedPolyline>(self) = ::cura::ClosedPolyline(explicitely_closed);
}

//= cura::Polygon::Polygon
void r206(cura::Polygon& self, const std::initializer_list<Point2LL>& initializer, const bool explicitely_closed)
{
    base<ClosedPolyline>(self) = ::cura::ClosedPolyline(initializer, explicitely_closed);
}

//= cura::Polygon::Polygon
void r207(cura::Polygon& self, const ClipperLib::Path& points, const bool explicitely_closed)
{
    base<ClosedPolyline>(self) = ::cura::ClosedPolyline(points, explicitely_closed);
}

//= cura::Polygon::Polygon
void r208(cura::Polygon& self, ClipperLib::Path&& points, const bool explicitely_closed)
{
    base<ClosedPolyline>(self) = ::cura::ClosedPolyline(std::move(points), explicitely_closed);
}

//= cura::Polygon::area
double r209(const cura::Polygon& self)
{
    return ClipperLib::Area(self.getPoints());
}

//= cura::Polyline::Polyline
void r210(cura::Polyline& self, const std::initializer_list<Point2LL>& initializer)
{
    base<PointsSet>(self) = ::cura::PointsSet(initializer);
}

//= cura::Polyline::Polyline
void r211(cura::Polyline& self, const ClipperLib::Path& points)
{
    base<PointsSet>(self) = ::cura::PointsSet(points);
}

//= cura::Polyline::Polyline
void r212(cura::Polyline& self, ClipperLib::Path&& points)
{
    base<PointsSet>(self) = ::cura::PointsSet(std::move(points));
}

//= cura::Polyline::orientation
bool r213(const cura::Polyline& self)
{
    return ClipperLib::Orientation(self.getPoints());
}

//= cura::Polyline::pushBackIfFormingSegment
bool r214(cura::Polyline& self, const Point2LL& point)
{
    if (self.getPoints().empty() || ! fuzzy_equal(point, self.getPoints().back()))
    {
        self.push_back(point);
        return true;
    }
    return false;
}

//= cura::Polyline::reverse
void r215(cura::Polyline& self)
{
    ClipperLib::ReversePath(self.getPoints());
}

//= cura::SegmentIterator::SegmentIterator | cura::SegmentIterator<cura::ConstnessType::Modifiable>
namespace n216
{
using SegmentIterator = cura::SegmentIterator<cura::ConstnessType::Modifiable>;
using source_iterator_type = cura::SegmentIterator<cura::ConstnessType::Modifiable>::source_iterator_type;
void r216(cura::SegmentIterator<cura::ConstnessType::Modifiable>& self, source_iterator_type pos, source_iterator_type begin, source_iterator_type end)
{
    member(self.current_pos_) = pos;
    member(self.begin_) = begin;
    member(self.before_end_) = end != begin ? std::prev(end) : end;
}
} // namespace n216

//= cura::SegmentIterator::SegmentIterator | cura::SegmentIterator<cura::ConstnessType::Const>
namespace n217
{
using SegmentIterator = cura::SegmentIterator<cura::ConstnessType::Const>;
using source_iterator_type = cura::SegmentIterator<cura::ConstnessType::Const>::source_iterator_type;
void r217(cura::SegmentIterator<cura::ConstnessType::Const>& self, source_iterator_type pos, source_iterator_type begin, source_iterator_type end)
{
    member(self.current_pos_) = pos;
    member(self.begin_) = begin;
    member(self.before_end_) = end != begin ? std::prev(end) : end;
}
} // namespace n217

//= cura::SegmentIterator::operator* | cura::SegmentIterator<cura::ConstnessType::Const>
namespace n218
{
using SegmentIterator = cura::SegmentIterator<cura::ConstnessType::Const>;
using Segment = cura::SegmentIterator<cura::ConstnessType::Const>::Segment;
Segment r218(const cura::SegmentIterator<cura::ConstnessType::Const>& self)
{
    if (self.current_pos_ == self.before_end_)
    {
        return Segment{ *self.current_pos_, *self.begin_ };
    }
    return Segment{ *self.current_pos_, *std::next(self.current_pos_) };
}
} // namespace n218

//= cura::SegmentIterator::operator++ | cura::SegmentIterator<cura::ConstnessType::Const>
namespace n219
{
using SegmentIterator = cura::SegmentIterator<cura::ConstnessType::Const>;
SegmentIterator& r219(cura::SegmentIterator<cura::ConstnessType::Const>& self)
{
    self.current_pos_++;
    return self;
}
} // namespace n219

//= cura::SegmentIterator::operator-- | cura::SegmentIterator<cura::ConstnessType::Const>
namespace n220
{
using SegmentIterator = cura::SegmentIterator<cura::ConstnessType::Const>;
SegmentIterator& r220(cura::SegmentIterator<cura::ConstnessType::Const>& self)
{
    self.current_pos_--;
    return self;
}
} // namespace n220

//= cura::SegmentIterator::operator== | cura::SegmentIterator<cura::ConstnessType::Const>
namespace n222
{
using SegmentIterator = cura::SegmentIterator<cura::ConstnessType::Const>;
bool r222(const cura::SegmentIterator<cura::ConstnessType::Const>& self, const SegmentIterator& other)
{
    return self.current_pos_ == other.current_pos_;
}
} // namespace n222

//= cura::SegmentIterator::operator!= | cura::SegmentIterator<cura::ConstnessType::Const>
namespace n223
{
using SegmentIterator = cura::SegmentIterator<cura::ConstnessType::Const>;
bool r223(const cura::SegmentIterator<cura::ConstnessType::Const>& self, const SegmentIterator& other)
{
    return ! (self == other);
}
} // namespace n223

//= cura::SingleShape::SingleShape
void r225(cura::SingleShape& self, Shape&& shape)
{
base<Shape>(self) = ::cura::Shape(std::move(shape));};

//= cura::toPoint2LL
Point2LL r226(const Point2D& point)
{
    return Point2LL(std::llrint(point.x()), std::llrint(point.y()));
}

//= cura::toPoint2D
Point2D r227(const Point2LL& point)
{
    return Point2D(point.X, point.Y);
}

//END
}  // namespace ref
