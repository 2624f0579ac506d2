// What the functions of this unit compute.
#ifndef PATHORDERMONOTONIC_H
#define PATHORDERMONOTONIC_H
#include <cmath>
#include <deque>
#include "PathOrder.h"
#include "geometry/Point2D.h"
#include "path_ordering.h"
namespace cura
{
template<typename PathType>
class PathOrderMonotonic : public PathOrder<PathType>
{
public:
    using Path = PathOrdering<PathType>;
    using PathOrder<PathType>::coincident_point_distance_;
//= skip cura::PathOrderMonotonic::PathOrderMonotonic
    PathOrderMonotonic(const AngleRadians& monotonic_direction, const coord_t max_adjacent_distance, const Point2LL& start_point, const bool interlaced = false)
        : PathOrder<PathType>(start_point)
        , monotonic_vector_(-std::cos(monotonic_direction), std::sin(monotonic_direction))
        , max_adjacent_distance_(max_adjacent_distance)
        , interlaced_(interlaced)
    {
    }
//END
    void optimize();
protected:
    Point2D monotonic_vector_;
    coord_t max_adjacent_distance_;
    bool interlaced_{ false };
    static constexpr double precision_factor{ 10.0 };
    static void setStartVertex(Path* path, const bool backwards)
    {
        if (backwards)
        {
            path->start_vertex_ = path->converted_->size() - 1;
            path->backwards_ = true;
        }
        else
        {
            path->start_vertex_ = 0;
            path->backwards_ = false;
        }
    }
//= cura::PathOrderMonotonic::optimizeClosestStartPoint
    static void optimizeClosestStartPoint(Path* path, Point2LL& current_pos)
    {
        if (path->start_vertex_ == path->converted_->size())
        {
            const coord_t dist_start = vSize2(current_pos - path->converted_->front());
            const coord_t dist_end = vSize2(current_pos - path->converted_->back());
            setStartVertex(path, dist_start >= dist_end);
        }
        current_pos = (*path->converted_)[path->converted_->size() - 1 - path->start_vertex_];
    }
//END
    static double projectToVector(const Point2LL& point, const Point2D& direction)
    {
        return Point2D::dot(Point2D(point.X, point.Y), direction);
    }
    double projectToMonotonicVector(const Point2LL& point) const
    {
        return projectToVector(point, monotonic_vector_);
    }
    std::deque<Path*> findPolylineString(Path* polyline, const SparsePointGridInclusive<Path*>& line_bucket_grid);
    static size_t getFarthestEndpoint(Path* polyline, const Point2LL& point)
    {
        const coord_t front_dist = vSize2(polyline->converted_->front() - point);
        const coord_t back_dist = vSize2(polyline->converted_->back() - point);
        if (front_dist < back_dist)
        {
            return polyline->converted_->size() - 1;
        }
        else
        {
            return 0;
        }
    }
    std::vector<Path*> getOverlappingLines(
        const typename std::vector<Path*>::const_iterator& polyline_it,
        const Point2D& perpendicular,
        const std::vector<Path*>& polylines,
        const coord_t max_adjacent_distance);
private:
//= cura::PathOrderMonotonic::canConnectToPolyline
    static bool canConnectToPolyline(const Point2LL& nearby_endpoint, SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<Path*> found_path)
    {
        return found_path.val->start_vertex_ == found_path.val->converted_->size()
            && vSize2(found_path.point - nearby_endpoint) < coincident_point_distance_ * coincident_point_distance_;
    }
//END
    std::vector<Path> makeOrderedPath(const std::vector<Path*>& lines, const coord_t max_adjacent_distance);
};
}
#endif
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "slicer.h"
#include "infill.h"
#include "infill/LightningTreeNode.h"
#include "utils/PolygonsSegmentIndex.h"
#include "PathOrderOptimizer.h"
//= instance
template struct cura::PathOrderMonotonic<const cura::OpenPolyline *>;
//END
//= instance
template struct cura::PathOrderMonotonic<const cura::Polyline *>;
//END
