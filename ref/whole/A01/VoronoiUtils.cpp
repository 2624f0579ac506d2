// What the functions of this unit compute.
#include "utils/VoronoiUtils.h"
#include <optional>
#include <stack>
#include <spdlog/spdlog.h>
#include "geometry/PointMatrix.h"
#include "geometry/conversions/Point2D_Point2LL.h"
#include "utils/linearAlg2D.h"
#include "utils/macros.h"
namespace cura
{
//= cura::VoronoiUtils::p
Point2LL VoronoiUtils::p(const vd_t::vertex_type* node)
{
    return Point2LL(node->x(), node->y());
}
//END
//= cura::VoronoiUtils::isSourcePoint
bool VoronoiUtils::isSourcePoint(const Point2LL& p, const vd_t::cell_type& cell, const std::vector<Point2LL>& points, const std::vector<Segment>& segments, coord_t snap_dist)
{
    if (cell.contains_point())
    {
        return shorterThen(p - getSourcePoint(cell, points, segments), snap_dist);
    }
    else
    {
        const Segment& segment = getSourceSegment(cell, points, segments);
        return shorterThen(p - segment.from(), snap_dist) || shorterThen(p - segment.to(), snap_dist);
    }
}
//END
//= cura::VoronoiUtils::getDistance
coord_t VoronoiUtils::getDistance(const Point2LL& p, const vd_t::cell_type& cell, const std::vector<Point2LL>& points, const std::vector<Segment>& segments)
{
    if (cell.contains_point())
    {
        return vSize(p - getSourcePoint(cell, points, segments));
    }
    else
    {
        const Segment& segment = getSourceSegment(cell, points, segments);
        return sqrt(LinearAlg2D::getDist2FromLineSegment(segment.from(), p, segment.to()));
    }
}
//END
//= cura::VoronoiUtils::getSourcePoint
Point2LL VoronoiUtils::getSourcePoint(const vd_t::cell_type& cell, const std::vector<Point2LL>& points, const std::vector<Segment>& segments)
{
    assert(cell.contains_point());
    if (! cell.contains_point())
    {
        spdlog::warn("Voronoi cell doesn't contain a source point!");
    }
    switch (cell.source_category())
    {
    case boost::polygon::SOURCE_CATEGORY_SINGLE_POINT:
        return points[cell.source_index()];
        break;
    case boost::polygon::SOURCE_CATEGORY_SEGMENT_START_POINT:
        assert(cell.source_index() - points.size() < segments.size());
        return segments[cell.source_index() - points.size()].to();
        break;
    case boost::polygon::SOURCE_CATEGORY_SEGMENT_END_POINT:
        assert(cell.source_index() - points.size() < segments.size());
        return segments[cell.source_index() - points.size()].from();
        break;
    default:
        assert(false && "getSourcePoint should only be called on point cells!\n");
        break;
    }
    return points[cell.source_index()];
}
//END
//= cura::VoronoiUtils::getSourcePointIndex
PolygonsPointIndex VoronoiUtils::getSourcePointIndex(const vd_t::cell_type& cell, const std::vector<Point2LL>& points, const std::vector<Segment>& segments)
{
    assert(cell.contains_point());
    if (! cell.contains_point())
    {
        spdlog::warn("Voronoi cell doesn't contain a source point!");
    }
    assert(cell.source_category() != boost::polygon::SOURCE_CATEGORY_SINGLE_POINT);
    switch (cell.source_category())
    {
    case boost::polygon::SOURCE_CATEGORY_SEGMENT_START_POINT:
    {
        assert(cell.source_index() - points.size() < segments.size());
        PolygonsPointIndex ret = segments[cell.source_index() - points.size()];
        ++ret;
        return ret;
        break;
    }
    case boost::polygon::SOURCE_CATEGORY_SEGMENT_END_POINT:
    {
        assert(cell.source_index() - points.size() < segments.size());
        return segments[cell.source_index() - points.size()];
        break;
    }
    default:
        assert(false && "getSourcePoint should only be called on point cells!\n");
        break;
    }
    PolygonsPointIndex ret = segments[cell.source_index() - points.size()];
    return ++ret;
}
//END
//= cura::VoronoiUtils::getSourceSegment
const VoronoiUtils::Segment& VoronoiUtils::getSourceSegment(const vd_t::cell_type& cell, const std::vector<Point2LL>& points, const std::vector<Segment>& segments)
{
    assert(cell.contains_segment());
    if (! cell.contains_segment())
    {
        spdlog::warn("Voronoi cell doesn't contain a source segment!");
    }
    return segments[cell.source_index() - points.size()];
}
//END
//= cura::VoronoiUtils::discretizeParabola
std::vector<Point2LL> VoronoiUtils::discretizeParabola(const Point2LL& p, const Segment& segment, Point2LL s, Point2LL e, coord_t approximate_step_size, double transitioning_angle)
{
    std::vector<Point2LL> discretized;
    const Point2LL a = segment.from();
    const Point2LL b = segment.to();
    const Point2LL ab = b - a;
    const Point2LL as = s - a;
    const Point2LL ae = e - a;
    const coord_t ab_size = vSize(ab);
    const coord_t sx = dot(as, ab) / ab_size;
    const coord_t ex = dot(ae, ab) / ab_size;
    const coord_t sxex = ex - sx;
    const Point2LL ap = p - a;
    const coord_t px = dot(ap, ab) / ab_size;
    const Point2LL pxx = LinearAlg2D::getClosestOnLine(p, a, b);
    const Point2LL ppxx = pxx - p;
    const coord_t d = vSize(ppxx);
    const PointMatrix rot = PointMatrix(turn90CCW(ppxx));
    if (d == 0)
    {
        discretized.emplace_back(s);
        discretized.emplace_back(e);
        return discretized;
    }
    const double marking_bound = atan(transitioning_angle * 0.5);
    coord_t msx = -marking_bound * d;
    coord_t mex = marking_bound * d;
    const coord_t marking_start_end_h = msx * msx / (2 * d) + d / 2;
    Point2LL marking_start = rot.unapply(Point2LL(msx, marking_start_end_h)) + pxx;
    Point2LL marking_end = rot.unapply(Point2LL(mex, marking_start_end_h)) + pxx;
    const int dir = (sx > ex) ? -1 : 1;
    if (dir < 0)
    {
        std::swap(marking_start, marking_end);
        std::swap(msx, mex);
    }
    bool add_marking_start = msx * dir > (sx - px) * dir && msx * dir < (ex - px) * dir;
    bool add_marking_end = mex * dir > (sx - px) * dir && mex * dir < (ex - px) * dir;
    const Point2LL apex = rot.unapply(Point2LL(0, d / 2)) + pxx;
    bool add_apex = (sx - px) * dir < -10 && (ex - px) * dir > 10;
    if (add_marking_start && add_marking_end && ! add_apex)
    {
        RUN_ONCE(spdlog::warn("Failing to discretize parabola! Must add an apex or one of the endpoints."));
    }
    const coord_t step_count = static_cast<coord_t>(static_cast<double>(std::abs(ex - sx)) / approximate_step_size + 0.5);
    discretized.emplace_back(s);
    for (coord_t step = 1; step < step_count; step++)
    {
        const coord_t x = sx + sxex * step / step_count - px;
        const coord_t y = x * x / (2 * d) + d / 2;
        if (add_marking_start && msx * dir < x * dir)
        {
            discretized.emplace_back(marking_start);
            add_marking_start = false;
        }
        if (add_apex && x * dir > 0)
        {
            discretized.emplace_back(apex);
            add_apex = false;
        }
        if (add_marking_end && mex * dir < x * dir)
        {
            discretized.emplace_back(marking_end);
            add_marking_end = false;
        }
        const Point2LL result = rot.unapply(Point2LL(x, y)) + pxx;
        discretized.emplace_back(result);
    }
    if (add_apex)
    {
        discretized.emplace_back(apex);
    }
    if (add_marking_end)
    {
        discretized.emplace_back(marking_end);
    }
    discretized.emplace_back(e);
    return discretized;
}
//END
//= cura::VoronoiUtils::discretize
void VoronoiUtils::discretize(const Point2LL& point, const Segment& segment, const coord_t max_dist, std::vector<Point2LL>* discretization)
{
    const Point2LL segm_vec = segment.to() - segment.from();
    const coord_t segment_length2 = vSize2(segm_vec);
    const coord_t projection_start = segment_length2 * getPointProjection((*discretization)[0], segment);
    const coord_t projection_end = segment_length2 * getPointProjection((*discretization)[1], segment);
    const Point2LL point_vec = point - segment.from();
    const coord_t rot_x = dot(segm_vec, point_vec);
    const coord_t rot_y = cross(segm_vec, point_vec);
    const Point2LL last_point = (*discretization)[1];
    discretization->pop_back();
    std::stack<coord_t> point_stack;
    point_stack.push(projection_end);
    Point2LL cur(projection_start, parabolaY(projection_start, rot_x, rot_y));
    const coord_t max_dist_transformed = max_dist * max_dist * segment_length2;
    while (! point_stack.empty())
    {
        const Point2LL new_(point_stack.top(), parabolaY(point_stack.top(), rot_x, rot_y));
        const Point2LL new_vec = new_ - cur;
        const coord_t mid_x = new_vec.Y * rot_y / new_vec.X + rot_x;
        const coord_t mid_y = parabolaY(mid_x, rot_x, rot_y);
        Point2LL mid_vec = Point2LL(mid_x, mid_y) - cur;
        coord_t dist = cross(mid_vec, new_vec);
        dist = dist * dist / vSize2(new_vec);
        if (dist <= max_dist_transformed)
        {
            point_stack.pop();
            const coord_t inter_x = (segm_vec.X * new_.X - segm_vec.Y * new_.Y) / segment_length2 + segment.from().X;
            const coord_t inter_y = (segm_vec.X * new_.Y + segm_vec.Y * new_.X) / segment_length2 + segment.from().Y;
            discretization->push_back(Point2LL(inter_x, inter_y));
            cur = new_;
        }
        else
        {
            point_stack.push(mid_x);
        }
    }
    discretization->back() = last_point;
}
//END
//= cura::VoronoiUtils::parabolaY
coord_t VoronoiUtils::parabolaY(coord_t x, coord_t a, coord_t b)
{
    return ((x - a) * (x - a) + b * b) / (b + b);
}
//END
//= cura::VoronoiUtils::getPointProjection
double VoronoiUtils::getPointProjection(const Point2LL& point, const Segment& segment)
{
    Point2LL segment_vec = segment.to() - segment.from();
    Point2LL point_vec = point - segment.from();
    coord_t sqr_segment_length = vSize2(segment_vec);
    coord_t vec_dot = dot(segment_vec, point_vec);
    return static_cast<double>(vec_dot) / sqr_segment_length;
}
//END
}
