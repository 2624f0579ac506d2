// Ordering.
#include <algorithm>
#include <array>
#include <unordered_set>
#include <unordered_map>
#include <set>
#include <map>
#include <list>
#include <vector>
#include <deque>
#include <memory>
#include <numeric>
#include <optional>
#include <functional>
#include <string>
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "geometry/Polygon.h"
#include "geometry/OpenPolyline.h"
#include "geometry/SingleShape.h"
#include "geometry/MixedLinesSet.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "raft.h"
#include "PathAdapter.h"
#include "PathOrder.h"
#include "PathOrderMonotonic.h"
#include "TextureDataProvider.h"
#include "WallToolPaths.h"
#include "geometry/OpenPolyline.h"
#include "geometry/Point2D.h"
#include "geometry/Point2LL.h"
#include "geometry/PointsSet.h"
#include "geometry/Shape.h"
#include "pathPlanning/CombPath.h"
#include "pathPlanning/LinePolygonsCrossings.h"
#include "path_ordering.h"
#include "settings/EnumSettings.h"
#include "settings/ZSeamConfig.h"
#include "sliceDataStorage.h"
#include "utils/Coord_t.h"
#include "utils/ExtrusionLine.h"
#include "utils/linearAlg2D.h"
#include "utils/math.h"
#include "utils/polygonUtils.h"
#include "utils/scoring/BestElementFinder.h"
#include "utils/scoring/CornerScoringCriterion.h"
#include "utils/scoring/DistanceScoringCriterion.h"
#include "utils/scoring/ExclusionAreaScoringCriterion.h"
#include "utils/scoring/PositionBasedScoringCriterion.h"
#include "utils/scoring/RandomScoringCriterion.h"
#include "utils/scoring/ScoringCriterion.h"
#include "utils/scoring/TextureScoringCriterion.h"
#include "utils/views/dfs.h"
#include <algorithm>
#include <cmath> //For std::sin() and std::cos().
#include <deque>
#include <limits>
#include <memory>
#include <numbers>
#include <optional>
#include <range/v3/algorithm/max_element.hpp>
#include <range/v3/algorithm/partition_copy.hpp>
#include <range/v3/iterator/insert_iterators.hpp>
#include <range/v3/view/addressof.hpp>
#include <range/v3/view/drop_last.hpp>
#include <range/v3/view/enumerate.hpp>
#include <range/v3/view/filter.hpp>
#include <range/v3/view/reverse.hpp>
#include <spdlog/spdlog.h>
#include <stddef.h>
#include <unordered_map> //To track monotonic sequences.
#include <unordered_set>
#include <unordered_set> //To track starting points of monotonic sequences.
#include <vector>
#include "PathAdapter.h"
#include "PathOrder.h"
#include "PathOrderMonotonic.h"
#include "PathOrderOptimizer.h"
#include "path_ordering.h"
#include "utils/scoring/BestElementFinder.h"
#include "utils/scoring/CornerScoringCriterion.h"
#include "utils/scoring/DistanceScoringCriterion.h"
#include "utils/scoring/ExclusionAreaScoringCriterion.h"
#include "utils/scoring/PositionBasedScoringCriterion.h"
#include "utils/scoring/RandomScoringCriterion.h"
#include "utils/scoring/ScoringCriterion.h"
#include "utils/scoring/TextureScoringCriterion.h"
#include "ref.h"

namespace ref
{
using namespace cura;

//= cura::PathAdapter::pointAt | cura::PathAdapter<cura::ExtrusionLine>
namespace n1
{
using PathAdapter = cura::PathAdapter<cura::ExtrusionLine>;
const Point2LL& r1(const cura::PathAdapter<cura::ExtrusionLine>& self, size_t index)
{
    return self.path_.junctions_.at(index).p_;
}
} // namespace n1

//= cura::PathAdapter::lineWidthAt | cura::PathAdapter<cura::ExtrusionLine>
namespace n2
{
using PathAdapter = cura::PathAdapter<cura::ExtrusionLine>;
coord_t r2(const cura::PathAdapter<cura::ExtrusionLine>& self, size_t index)
{
    return self.path_.junctions_.at(index).w_;
}
} // namespace n2

//= cura::PathAdapter::pointAt | cura::PathAdapter<cura::Polygon>
namespace n3
{
using PathAdapter = cura::PathAdapter<cura::Polygon>;
const Point2LL& r3(const cura::PathAdapter<cura::Polygon>& self, size_t index)
{
    return self.path_.at(index);
}
} // namespace n3

//= cura::PathAdapter::lineWidthAt | cura::PathAdapter<cura::Polygon>
namespace n4
{
using PathAdapter = cura::PathAdapter<cura::Polygon>;
coord_t r4(const cura::PathAdapter<cura::Polygon>& self, size_t)
{
    return self.fixed_line_width_;
}
} // namespace n4

//= cura::PathOrdering::getVertexData | cura::PathOrdering<cura::Polygon *>
namespace n17
{
using PathOrdering = cura::PathOrdering<cura::Polygon *>;
const Polyline& r17(cura::PathOrdering<cura::Polygon *>& self)
{
    return *self.vertices_;
}
} // namespace n17

//= cura::PathOrdering::getVertexData | cura::PathOrdering<const cura::Polygon *>
namespace n18
{
using PathOrdering = cura::PathOrdering<const cura::Polygon *>;
const Polyline& r18(cura::PathOrdering<const cura::Polygon *>& self)
{
    return *self.vertices_;
}
} // namespace n18

//= cura::PathOrdering::getVertexData | cura::PathOrdering<const cura::SkinPart *>
namespace n19
{
using PathOrdering = cura::PathOrdering<const cura::SkinPart *>;
const Polyline& r19(cura::PathOrdering<const cura::SkinPart *>& self)
{
    return self.vertices_->outline.outerPolygon();
}
} // namespace n19

//= cura::PathOrdering::getVertexData | cura::PathOrdering<const cura::SliceLayerPart *>
namespace n20
{
using PathOrdering = cura::PathOrdering<const cura::SliceLayerPart *>;
const Polyline& r20(cura::PathOrdering<const cura::SliceLayerPart *>& self)
{
    return self.vertices_->outline.outerPolygon();
}
} // namespace n20

//= cura::PathOrdering::getVertexData | cura::PathOrdering<cura::SliceLayerPart *>
namespace n21
{
using PathOrdering = cura::PathOrdering<cura::SliceLayerPart *>;
const Polyline& r21(cura::PathOrdering<cura::SliceLayerPart *>& self)
{
    return self.vertices_->outline.outerPolygon();
}
} // namespace n21

//= cura::PathOrdering::getVertexData | cura::PathOrdering<const cura::SupportInfillPart *>
namespace n22
{
using PathOrdering = cura::PathOrdering<const cura::SupportInfillPart *>;
const Polyline& r22(cura::PathOrdering<const cura::SupportInfillPart *>& self)
{
    return self.vertices_->outline_.outerPolygon();
}
} // namespace n22

//= cura::PathOrdering::getVertexData | cura::PathOrdering<const cura::ExtrusionLine *>
namespace n23
{
using PathOrdering = cura::PathOrdering<const cura::ExtrusionLine *>;
const Polyline& r23(cura::PathOrdering<const cura::ExtrusionLine *>& self)
{
    if (! self.cached_vertices_.has_value())
    {
        self.cached_vertices_ = self.vertices_->toPolygon();
    }
    return *self.cached_vertices_;
}
} // namespace n23

//= cura::PathAdapter::empty | cura::PathAdapter<cura::ExtrusionLine>
namespace n26
{
using PathAdapter = cura::PathAdapter<cura::ExtrusionLine>;
bool r26(const cura::PathAdapter<cura::ExtrusionLine>& self)
{
    return self.path_.empty();
}
} // namespace n26

//= cura::PathAdapter::empty | cura::PathAdapter<cura::Polygon>
namespace n27
{
using PathAdapter = cura::PathAdapter<cura::Polygon>;
bool r27(const cura::PathAdapter<cura::Polygon>& self)
{
    return self.path_.empty();
}
} // namespace n27

//= cura::PathAdapter::size | cura::PathAdapter<cura::ExtrusionLine>
namespace n28
{
using PathAdapter = cura::PathAdapter<cura::ExtrusionLine>;
size_t r28(const cura::PathAdapter<cura::ExtrusionLine>& self)
{
    return self.path_.size();
}
} // namespace n28

//= cura::PathAdapter::size | cura::PathAdapter<cura::Polygon>
namespace n29
{
using PathAdapter = cura::PathAdapter<cura::Polygon>;
size_t r29(const cura::PathAdapter<cura::Polygon>& self)
{
    return self.path_.size();
}
} // namespace n29

//= cura::PathAdapter::length | cura::PathAdapter<cura::ExtrusionLine>
namespace n30
{
using PathAdapter = cura::PathAdapter<cura::ExtrusionLine>;
coord_t r30(const cura::PathAdapter<cura::ExtrusionLine>& self)
{
    return self.path_.length();
}
} // namespace n30

//= cura::PathAdapter::length | cura::PathAdapter<cura::Polygon>
namespace n31
{
using PathAdapter = cura::PathAdapter<cura::Polygon>;
coord_t r31(const cura::PathAdapter<cura::Polygon>& self)
{
    return self.path_.length();
}
} // namespace n31

//= cura::PathAdapter::getPath | cura::PathAdapter<cura::ExtrusionLine>
namespace n32
{
using PathType = cura::ExtrusionLine;
using PathAdapter = cura::PathAdapter<cura::ExtrusionLine>;
const PathType& r32(const cura::PathAdapter<cura::ExtrusionLine>& self)
{
    return self.path_;
}
} // namespace n32

//= cura::PathOrder::addPolyline | cura::PathOrder<const cura::Polyline *>
namespace n33
{
using PathType = const cura::Polyline *;
using PathOrder = cura::PathOrder<const cura::Polyline *>;
void r33(cura::PathOrder<const cura::Polyline *>& self, const PathType& polyline)
{
    constexpr bool is_closed = false;
    self.paths_.emplace_back(polyline, is_closed);
}
} // namespace n33

//= cura::PathOrder::PathOrder | cura::PathOrder<const cura::Polyline *>
namespace n34
{
using PathOrder = cura::PathOrder<const cura::Polyline *>;
void r34(cura::PathOrder<const cura::Polyline *>& self, const Point2LL& start_point)
{
    member(self.start_point_) = start_point;
}
} // namespace n34

//= cura::PathOrder::detectLoops | cura::PathOrder<const cura::Polyline *>
namespace n35
{
using PathType = const cura::Polyline *;
using PathOrder = cura::PathOrder<const cura::Polyline *>;
void r35(cura::PathOrder<const cura::Polyline *>& self)
{
    for (PathOrdering<PathType>& path : self.paths_)
    {
        if (path.is_closed_) 
        {
            continue;
        }
        if (path.converted_->size() < 3) 
        {
            continue;
        }
        if (vSize2(path.converted_->back() - path.converted_->front()) < self.coincident_point_distance_ * self.coincident_point_distance_)
        {
            path.is_closed_ = true;
        }
    }
}
} // namespace n35

//= cura::PathOrder::detectLoops | cura::PathOrder<const cura::OpenPolyline *>
namespace n36
{
using PathType = const cura::OpenPolyline *;
using PathOrder = cura::PathOrder<const cura::OpenPolyline *>;
void r36(cura::PathOrder<const cura::OpenPolyline *>& self)
{
    for (PathOrdering<PathType>& path : self.paths_)
    {
        if (path.is_closed_) 
        {
            continue;
        }
        if (path.converted_->size() < 3) 
        {
            continue;
        }
        if (vSize2(path.converted_->back() - path.converted_->front()) < self.coincident_point_distance_ * self.coincident_point_distance_)
        {
            path.is_closed_ = true;
        }
    }
}
} // namespace n36

//= cura::PathOrderMonotonic::setStartVertex | cura::PathOrderMonotonic<const cura::Polyline *>
namespace n38
{
using PathOrderMonotonic = cura::PathOrderMonotonic<const cura::Polyline *>;
using Path = cura::PathOrderMonotonic<const cura::Polyline *>::Path;
void r38(Path* path, const bool backwards)
{
    if (backwards)
    {
        path->start_vertex_ = path->converted_->size() - 1;
        path->backwards_ = true;
    }
    else
    {
        path->start_vertex_ = 0;
        path->backwards_ = false;
    }
}
} // namespace n38

//= cura::PathOrderMonotonic::setStartVertex | cura::PathOrderMonotonic<const cura::OpenPolyline *>
namespace n39
{
using PathOrderMonotonic = cura::PathOrderMonotonic<const cura::OpenPolyline *>;
using Path = cura::PathOrderMonotonic<const cura::OpenPolyline *>::Path;
void r39(Path* path, const bool backwards)
{
    if (backwards)
    {
        path->start_vertex_ = path->converted_->size() - 1;
        path->backwards_ = true;
    }
    else
    {
        path->start_vertex_ = 0;
        path->backwards_ = false;
    }
}
} // namespace n39

//= cura::PathOrderMonotonic::projectToVector | cura::PathOrderMonotonic<const cura::Polyline *>
namespace n42
{
using PathOrderMonotonic = cura::PathOrderMonotonic<const cura::Polyline *>;
double r42(const Point2LL& point, const Point2D& direction)
{
    return Point2D::dot(Point2D(point.X, point.Y), direction);
}
} // namespace n42

//= cura::PathOrderMonotonic::projectToVector | cura::PathOrderMonotonic<const cura::OpenPolyline *>
namespace n43
{
using PathOrderMonotonic = cura::PathOrderMonotonic<const cura::OpenPolyline *>;
double r43(const Point2LL& point, const Point2D& direction)
{
    return Point2D::dot(Point2D(point.X, point.Y), direction);
}
} // namespace n43

//= cura::PathOrderMonotonic::projectToMonotonicVector | cura::PathOrderMonotonic<const cura::Polyline *>
namespace n44
{
using PathOrderMonotonic = cura::PathOrderMonotonic<const cura::Polyline *>;
double r44(const cura::PathOrderMonotonic<const cura::Polyline *>& self, const Point2LL& point)
{
    return self.projectToVector(point, self.monotonic_vector_);
}
} // namespace n44

//= cura::PathOrderMonotonic::projectToMonotonicVector | cura::PathOrderMonotonic<const cura::OpenPolyline *>
namespace n45
{
using PathOrderMonotonic = cura::PathOrderMonotonic<const cura::OpenPolyline *>;
double r45(const cura::PathOrderMonotonic<const cura::OpenPolyline *>& self, const Point2LL& point)
{
    return self.projectToVector(point, self.monotonic_vector_);
}
} // namespace n45

//= cura::PathOrderMonotonic::getFarthestEndpoint | cura::PathOrderMonotonic<const cura::Polyline *>
namespace n46
{
using PathOrderMonotonic = cura::PathOrderMonotonic<const cura::Polyline *>;
using Path = cura::PathOrderMonotonic<const cura::Polyline *>::Path;
size_t r46(Path* polyline, const Point2LL& point)
{
    const coord_t front_dist = vSize2(polyline->converted_->front() - point);
    const coord_t back_dist = vSize2(polyline->converted_->back() - point);
    if (front_dist < back_dist)
    {
        return polyline->converted_->size() - 1;
    }
    else
    {
        return 0;
    }
}
} // namespace n46

//= cura::PathOrderMonotonic::getFarthestEndpoint | cura::PathOrderMonotonic<const cura::OpenPolyline *>
namespace n47
{
using PathOrderMonotonic = cura::PathOrderMonotonic<const cura::OpenPolyline *>;
using Path = cura::PathOrderMonotonic<const cura::OpenPolyline *>::Path;
size_t r47(Path* polyline, const Point2LL& point)
{
    const coord_t front_dist = vSize2(polyline->converted_->front() - point);
    const coord_t back_dist = vSize2(polyline->converted_->back() - point);
    if (front_dist < back_dist)
    {
        return polyline->converted_->size() - 1;
    }
    else
    {
        return 0;
    }
}
} // namespace n47

//= cura::PathOrderOptimizer::PathOrderOptimizer | cura::PathOrderOptimizer<cura::SliceLayerPart *>
namespace n50
{
using Path = cura::SliceLayerPart *;
using PathOrderOptimizer = cura::PathOrderOptimizer<cura::SliceLayerPart *>;
void r50(cura::PathOrderOptimizer<cura::SliceLayerPart *>& self, const Point2LL& start_point, const ZSeamConfig seam_config, const bool detect_loops, const Shape* combing_boundary, const bool reverse_direction, const std::unordered_multimap<Path, Path>& order_requirements, const bool group_outer_walls, const Shape& disallowed_areas_for_seams, const bool use_shortest_for_inner_walls, const Shape& overhang_areas, const std::shared_ptr<TextureDataProvider>& texture_data_provider, const bool prefer_longest_path_first)
{
    member(self.start_point_) = start_point;
    member(self.seam_config_) = seam_config;
    member(self.combing_boundary_) = (combing_boundary != nullptr && ! combing_boundary->empty()) ? combing_boundary : nullptr;
    member(self.detect_loops_) = detect_loops;
    member(self.reverse_direction_) = reverse_direction;
    member(self._group_outer_walls) = group_outer_walls;
    member(self.order_requirements_) = &order_requirements;
    member(self.disallowed_area_for_seams) = {disallowed_areas_for_seams};
    member(self.use_shortest_for_inner_walls_) = use_shortest_for_inner_walls;
    member(self.overhang_areas_) = overhang_areas;
    member(self.texture_data_provider_) = texture_data_provider;
    member(self.prefer_longest_path_) = prefer_longest_path_first;
}
} // namespace n50

//= cura::PathOrderOptimizer::PathOrderOptimizer | cura::PathOrderOptimizer<const cura::SkinPart *>
namespace n51
{
using Path = const cura::SkinPart *;
using PathOrderOptimizer = cura::PathOrderOptimizer<const cura::SkinPart *>;
void r51(cura::PathOrderOptimizer<const cura::SkinPart *>& self, const Point2LL& start_point, const ZSeamConfig seam_config, const bool detect_loops, const Shape* combing_boundary, const bool reverse_direction, const std::unordered_multimap<Path, Path>& order_requirements, const bool group_outer_walls, const Shape& disallowed_areas_for_seams, const bool use_shortest_for_inner_walls, const Shape& overhang_areas, const std::shared_ptr<TextureDataProvider>& texture_data_provider, const bool prefer_longest_path_first)
{
    member(self.start_point_) = start_point;
    member(self.seam_config_) = seam_config;
    member(self.combing_boundary_) = (combing_boundary != nullptr && ! combing_boundary->empty()) ? combing_boundary : nullptr;
    member(self.detect_loops_) = detect_loops;
    member(self.reverse_direction_) = reverse_direction;
    member(self._group_outer_walls) = group_outer_walls;
    member(self.order_requirements_) = &order_requirements;
    member(self.disallowed_area_for_seams) = {disallowed_areas_for_seams};
    member(self.use_shortest_for_inner_walls_) = use_shortest_for_inner_walls;
    member(self.overhang_areas_) = overhang_areas;
    member(self.texture_data_provider_) = texture_data_provider;
    member(self.prefer_longest_path_) = prefer_longest_path_first;
}
} // namespace n51

//= cura::PathOrderOptimizer::addPolygon | cura::PathOrderOptimizer<cura::SliceLayerPart *>
namespace n52
{
using Path = cura::SliceLayerPart *;
using PathOrderOptimizer = cura::PathOrderOptimizer<cura::SliceLayerPart *>;
void r52(cura::PathOrderOptimizer<cura::SliceLayerPart *>& self, const Path& polygon, std::optional<size_t> force_start_index, const bool is_outer_wall)
{
    constexpr bool is_closed = true;
    self.paths_.emplace_back(polygon, is_closed);
    self.paths_.back().force_start_index_ = force_start_index;
    self.paths_.back().is_outer_wall = is_outer_wall;
}
} // namespace n52

//= cura::PathOrderOptimizer::addPolygon | cura::PathOrderOptimizer<const cura::SkinPart *>
namespace n53
{
using Path = const cura::SkinPart *;
using PathOrderOptimizer = cura::PathOrderOptimizer<const cura::SkinPart *>;
void r53(cura::PathOrderOptimizer<const cura::SkinPart *>& self, const Path& polygon, std::optional<size_t> force_start_index, const bool is_outer_wall)
{
    constexpr bool is_closed = true;
    self.paths_.emplace_back(polygon, is_closed);
    self.paths_.back().force_start_index_ = force_start_index;
    self.paths_.back().is_outer_wall = is_outer_wall;
}
} // namespace n53

//= cura::PathOrderOptimizer::addPolyline | cura::PathOrderOptimizer<const cura::ExtrusionLine *>
namespace n54
{
using Path = const cura::ExtrusionLine *;
using PathOrderOptimizer = cura::PathOrderOptimizer<const cura::ExtrusionLine *>;
void r54(cura::PathOrderOptimizer<const cura::ExtrusionLine *>& self, const Path& polyline)
{
    constexpr bool is_closed = false;
    self.paths_.emplace_back(polyline, is_closed);
}
} // namespace n54

//= cura::PathOrderOptimizer::addPolyline | cura::PathOrderOptimizer<const cura::Polyline *>
namespace n55
{
using Path = const cura::Polyline *;
using PathOrderOptimizer = cura::PathOrderOptimizer<const cura::Polyline *>;
void r55(cura::PathOrderOptimizer<const cura::Polyline *>& self, const Path& polyline)
{
    constexpr bool is_closed = false;
    self.paths_.emplace_back(polyline, is_closed);
}
} // namespace n55

//= cura::PathOrderOptimizer::optimize | cura::PathOrderOptimizer<cura::SliceLayerPart *>
namespace n56
{
using PathOrderOptimizer = cura::PathOrderOptimizer<cura::SliceLayerPart *>;
using OrderablePath = cura::PathOrderOptimizer<cura::SliceLayerPart *>::OrderablePath;
void r56(cura::PathOrderOptimizer<cura::SliceLayerPart *>& self, bool precompute_start)
{
    if (self.paths_.empty())
    {
        return;
    }
    for (auto& path : self.paths_)
    {
        path.converted_ = &path.getVertexData();
        self.vertices_to_paths_.emplace(path.vertices_, &path);
    }
    if (self.detect_loops_)
    {
        for (auto& path : self.paths_)
        {
            if (! path.is_closed_)
            {
                path.is_closed_ = self.isLoopingPolyline(path); 
            }
        }
    }
    for (auto& path : self.paths_)
    {
        if (self.use_shortest_for_inner_walls_ && ! path.is_outer_wall)
        {
            path.seam_config_ = ZSeamConfig(EZSeamType::SHORTEST);
            path.force_start_index_ = std::nullopt;
        }
        else
        {
            path.seam_config_ = self.seam_config_;
        }
    }
    const coord_t snap_radius = 10_mu; 
    SparsePointGridInclusive<size_t> line_bucket_grid(snap_radius);
    for (const auto& [i, path] : self.paths_ | ranges::views::enumerate)
    {
        if (path.converted_->empty())
        {
            continue;
        }
        if (path.is_closed_)
        {
            for (const Point2LL& point : *path.converted_)
            {
                line_bucket_grid.insert(point, i); 
            }
        }
        else 
        {
            line_bucket_grid.insert(path.converted_->front(), i);
            line_bucket_grid.insert(path.converted_->back(), i);
        }
    }
    if (precompute_start)
    {
        for (auto& path : self.paths_)
        {
            if (path.seam_config_.type_ == EZSeamType::RANDOM || path.seam_config_.type_ == EZSeamType::USER_SPECIFIED
                || path.seam_config_.type_ == EZSeamType::SHARPEST_CORNER)
            {
                if (! path.is_closed_ || path.converted_->empty())
                {
                    continue; 
                }
                path.start_vertex_ = self.findStartLocation(path, path.seam_config_.pos_);
            }
        }
    }
    std::vector<OrderablePath> optimized_order; 
    if (self.order_requirements_->empty())
    {
        optimized_order = self.getOptimizedOrder(line_bucket_grid, snap_radius);
    }
    else
    {
        optimized_order = self.getOptimizerOrderWithConstraints(*self.order_requirements_);
    }
    if (self.reverse_direction_ && self.order_requirements_->empty())
    {
        std::vector<OrderablePath> reversed = self.reverseOrderPaths(optimized_order); 
        std::swap(reversed, self.paths_);
    }
    else
    {
        std::swap(optimized_order, self.paths_);
    }
    self.combing_grid_.reset();
}
} // namespace n56

//= cura::PathOrderOptimizer::optimize | cura::PathOrderOptimizer<const cura::SkinPart *>
namespace n57
{
using PathOrderOptimizer = cura::PathOrderOptimizer<const cura::SkinPart *>;
using OrderablePath = cura::PathOrderOptimizer<const cura::SkinPart *>::OrderablePath;
void r57(cura::PathOrderOptimizer<const cura::SkinPart *>& self, bool precompute_start)
{
    if (self.paths_.empty())
    {
        return;
    }
    for (auto& path : self.paths_)
    {
        path.converted_ = &path.getVertexData();
        self.vertices_to_paths_.emplace(path.vertices_, &path);
    }
    if (self.detect_loops_)
    {
        for (auto& path : self.paths_)
        {
            if (! path.is_closed_)
            {
                path.is_closed_ = self.isLoopingPolyline(path); 
            }
        }
    }
    for (auto& path : self.paths_)
    {
        if (self.use_shortest_for_inner_walls_ && ! path.is_outer_wall)
        {
            path.seam_config_ = ZSeamConfig(EZSeamType::SHORTEST);
            path.force_start_index_ = std::nullopt;
        }
        else
        {
            path.seam_config_ = self.seam_config_;
        }
    }
    const coord_t snap_radius = 10_mu; 
    SparsePointGridInclusive<size_t> line_bucket_grid(snap_radius);
    for (const auto& [i, path] : self.paths_ | ranges::views::enumerate)
    {
        if (path.converted_->empty())
        {
            continue;
        }
        if (path.is_closed_)
        {
            for (const Point2LL& point : *path.converted_)
            {
                line_bucket_grid.insert(point, i); 
            }
        }
        else 
        {
            line_bucket_grid.insert(path.converted_->front(), i);
            line_bucket_grid.insert(path.converted_->back(), i);
        }
    }
    if (precompute_start)
    {
        for (auto& path : self.paths_)
        {
            if (path.seam_config_.type_ == EZSeamType::RANDOM || path.seam_config_.type_ == EZSeamType::USER_SPECIFIED
                || path.seam_config_.type_ == EZSeamType::SHARPEST_CORNER)
            {
                if (! path.is_closed_ || path.converted_->empty())
                {
                    continue; 
                }
                path.start_vertex_ = self.findStartLocation(path, path.seam_config_.pos_);
            }
        }
    }
    std::vector<OrderablePath> optimized_order; 
    if (self.order_requirements_->empty())
    {
        optimized_order = self.getOptimizedOrder(line_bucket_grid, snap_radius);
    }
    else
    {
        optimized_order = self.getOptimizerOrderWithConstraints(*self.order_requirements_);
    }
    if (self.reverse_direction_ && self.order_requirements_->empty())
    {
        std::vector<OrderablePath> reversed = self.reverseOrderPaths(optimized_order); 
        std::swap(reversed, self.paths_);
    }
    else
    {
        std::swap(optimized_order, self.paths_);
    }
    self.combing_grid_.reset();
}
} // namespace n57

//= cura::PathOrderOptimizer::getOptimizedOrder | cura::PathOrderOptimizer<cura::SliceLayerPart *>
namespace n58
{
using PathOrderOptimizer = cura::PathOrderOptimizer<cura::SliceLayerPart *>;
using OrderablePath = cura::PathOrderOptimizer<cura::SliceLayerPart *>::OrderablePath;
std::vector<OrderablePath> r58(cura::PathOrderOptimizer<cura::SliceLayerPart *>& self, SparsePointGridInclusive<size_t> line_bucket_grid, size_t snap_radius)
{
    std::vector<OrderablePath> optimized_order; 
    Point2LL current_position = self.start_point_;
    std::unordered_map<OrderablePath*, bool> picked(self.paths_.size()); 
    auto notPicked = [&picked](OrderablePath* c)
    {
        return ! picked[c];
    };
    while (optimized_order.size() < self.paths_.size())
    {
        std::vector<OrderablePath*> nearby_candidates;
        for (const auto i : line_bucket_grid.getNearbyVals(current_position, snap_radius))
        {
            nearby_candidates.push_back(&self.paths_[i]); 
        }
        std::vector<OrderablePath*> available_candidates;
        available_candidates.reserve(nearby_candidates.size());
        for (auto candidate : nearby_candidates | ranges::views::filter(notPicked))
        {
            available_candidates.push_back(candidate);
        }
        if (available_candidates.empty()) 
        {
            for (auto path : self.paths_ | ranges::views::addressof | ranges::views::filter(notPicked))
            {
                available_candidates.push_back(path);
            }
        }
        auto best_candidate = self.findBestPath(current_position, available_candidates);
        auto best_path = best_candidate;
        optimized_order.push_back(*best_path);
        picked[best_path] = true;
        if (! best_path->converted_->empty()) 
        {
            if (best_path->is_closed_)
            {
                current_position = (*best_path->converted_)[best_path->start_vertex_]; 
            }
            else
            {
                current_position = best_path->start_vertex_ == 0 ? best_path->converted_->back() : best_path->converted_->front();
            }
        }
    }
    return optimized_order;
}
} // namespace n58

//= cura::PathOrderOptimizer::getOptimizedOrder | cura::PathOrderOptimizer<const cura::SkinPart *>
namespace n59
{
using PathOrderOptimizer = cura::PathOrderOptimizer<const cura::SkinPart *>;
using OrderablePath = cura::PathOrderOptimizer<const cura::SkinPart *>::OrderablePath;
std::vector<OrderablePath> r59(cura::PathOrderOptimizer<const cura::SkinPart *>& self, SparsePointGridInclusive<size_t> line_bucket_grid, size_t snap_radius)
{
    std::vector<OrderablePath> optimized_order; 
    Point2LL current_position = self.start_point_;
    std::unordered_map<OrderablePath*, bool> picked(self.paths_.size()); 
    auto notPicked = [&picked](OrderablePath* c)
    {
        return ! picked[c];
    };
    while (optimized_order.size() < self.paths_.size())
    {
        std::vector<OrderablePath*> nearby_candidates;
        for (const auto i : line_bucket_grid.getNearbyVals(current_position, snap_radius))
        {
            nearby_candidates.push_back(&self.paths_[i]); 
        }
        std::vector<OrderablePath*> available_candidates;
        available_candidates.reserve(nearby_candidates.size());
        for (auto candidate : nearby_candidates | ranges::views::filter(notPicked))
        {
            available_candidates.push_back(candidate);
        }
        if (available_candidates.empty()) 
        {
            for (auto path : self.paths_ | ranges::views::addressof | ranges::views::filter(notPicked))
            {
                available_candidates.push_back(path);
            }
        }
        auto best_candidate = self.findBestPath(current_position, available_candidates);
        auto best_path = best_candidate;
        optimized_order.push_back(*best_path);
        picked[best_path] = true;
        if (! best_path->converted_->empty()) 
        {
            if (best_path->is_closed_)
            {
                current_position = (*best_path->converted_)[best_path->start_vertex_]; 
            }
            else
            {
                current_position = best_path->start_vertex_ == 0 ? best_path->converted_->back() : best_path->converted_->front();
            }
        }
    }
    return optimized_order;
}
} // namespace n59

//= cura::PathOrderOptimizer::getOptimizerOrderWithConstraints | cura::PathOrderOptimizer<cura::SliceLayerPart *>
namespace n60
{
using Path = cura::SliceLayerPart *;
using PathOrderOptimizer = cura::PathOrderOptimizer<cura::SliceLayerPart *>;
using OrderablePath = cura::PathOrderOptimizer<cura::SliceLayerPart *>::OrderablePath;
std::vector<OrderablePath> r60(cura::PathOrderOptimizer<cura::SliceLayerPart *>& self, const std::unordered_multimap<Path, Path>& order_requirements)
{
    std::vector<OrderablePath> optimized_order; 
    std::unordered_set<Path> roots;
    std::unordered_set<Path> leaves;
    std::unordered_map<Path, size_t> num_incoming_edges;
    for (const auto& path : self.paths_)
    {
        roots.insert(path.vertices_);
        leaves.insert(path.vertices_);
        num_incoming_edges.emplace(path.vertices_, 0);
    }
    for (const auto& [u, v] : order_requirements)
    {
        roots.erase(v);
        leaves.erase(u);
        num_incoming_edges.find(v)->second++;
    }
    std::unordered_set<Path> visited;
    Point2LL current_position = self.start_point_;
    std::function<std::vector<Path>(const Path, const std::unordered_multimap<Path, Path>&)> get_neighbours
        = [&current_position, &num_incoming_edges, &self](const Path current_node, const std::unordered_multimap<Path, Path>& graph)
    {
        std::vector<Path> order; 
        const auto& [neighbour_begin, neighbour_end] = graph.equal_range(current_node);
        std::unordered_set<Path> candidates;
        for (const auto& [_, neighbour] : ranges::make_subrange(neighbour_begin, neighbour_end))
        {
            if (num_incoming_edges.at(neighbour) == 0)
            {
                candidates.insert(neighbour);
            }
        }
        auto local_current_position = current_position;
        while (! candidates.empty())
        {
            Path best_candidate = self.findBestPathVertices(local_current_position, candidates);
            candidates.erase(best_candidate);
            order.push_back(best_candidate);
            auto path = self.vertices_to_paths_[best_candidate];
            if (path->is_closed_)
            {
                local_current_position = (*path->converted_)[path->start_vertex_]; 
            }
            else
            {
                local_current_position = path->start_vertex_ == 0 ? path->converted_->back() : path->converted_->front();
            }
        }
        return order;
    };
    const std::function<std::nullptr_t(const Path, const std::nullptr_t)> handle_node
        = [&current_position, &optimized_order, &order_requirements, &num_incoming_edges, &self](const Path current_node, [[maybe_unused]] const std::nullptr_t state)
    {
        for (const auto& path : self.paths_)
        {
            if (path.vertices_ == current_node)
            {
                if (path.is_closed_)
                {
                    current_position = (*path.converted_)[path.start_vertex_]; 
                }
                else
                {
                    current_position = path.start_vertex_ == 0 ? path.converted_->back() : path.converted_->front();
                }
                optimized_order.push_back(path);
                const auto& [neighbour_begin, neighbour_end] = order_requirements.equal_range(path.vertices_);
                for (const auto& [_, neighbour] : ranges::make_subrange(neighbour_begin, neighbour_end))
                {
                    num_incoming_edges.find(neighbour)->second--;
                }
                break;
            }
        }
        return nullptr;
    };
    if (self._group_outer_walls)
    {
        if (self.reverse_direction_)
        {
            std::unordered_set<Path> outer_walls = leaves;
            visited.insert(outer_walls.begin(), outer_walls.end());
            while (! roots.empty())
            {
                Path root = self.findBestPathVertices(current_position, roots);
                roots.erase(root);
                actions::dfs(root, order_requirements, handle_node, visited, nullptr, get_neighbours);
            }
            while (! outer_walls.empty())
            {
                Path wall = self.findBestPathVertices(current_position, outer_walls);
                outer_walls.erase(wall);
                handle_node(wall, nullptr);
            }
        }
        else
        {
            std::unordered_set<Path> outer_walls = roots;
            std::unordered_set<Path> root_neighbours;
            while (! outer_walls.empty())
            {
                Path outer_wall = self.findBestPathVertices(current_position, outer_walls);
                outer_walls.erase(outer_wall);
                handle_node(outer_wall, nullptr);
                visited.insert(outer_wall);
                for (auto path : get_neighbours(outer_wall, order_requirements))
                {
                    root_neighbours.emplace(path);
                }
            }
            while (! root_neighbours.empty())
            {
                Path root_neighbour = self.findBestPathVertices(current_position, root_neighbours);
                root_neighbours.erase(root_neighbour);
                actions::dfs(root_neighbour, order_requirements, handle_node, visited, nullptr, get_neighbours);
            }
        }
    }
    else
    {
        while (! roots.empty())
        {
            Path root = self.findBestPathVertices(current_position, roots);
            roots.erase(root);
            actions::dfs(root, order_requirements, handle_node, visited, nullptr, get_neighbours);
        }
    }
    return optimized_order;
}
} // namespace n60

//= cura::PathOrderOptimizer::getOptimizerOrderWithConstraints | cura::PathOrderOptimizer<const cura::SkinPart *>
namespace n61
{
using Path = const cura::SkinPart *;
using PathOrderOptimizer = cura::PathOrderOptimizer<const cura::SkinPart *>;
using OrderablePath = cura::PathOrderOptimizer<const cura::SkinPart *>::OrderablePath;
std::vector<OrderablePath> r61(cura::PathOrderOptimizer<const cura::SkinPart *>& self, const std::unordered_multimap<Path, Path>& order_requirements)
{
    std::vector<OrderablePath> optimized_order; 
    std::unordered_set<Path> roots;
    std::unordered_set<Path> leaves;
    std::unordered_map<Path, size_t> num_incoming_edges;
    for (const auto& path : self.paths_)
    {
        roots.insert(path.vertices_);
        leaves.insert(path.vertices_);
        num_incoming_edges.emplace(path.vertices_, 0);
    }
    for (const auto& [u, v] : order_requirements)
    {
        roots.erase(v);
        leaves.erase(u);
        num_incoming_edges.find(v)->second++;
    }
    std::unordered_set<Path> visited;
    Point2LL current_position = self.start_point_;
    std::function<std::vector<Path>(const Path, const std::unordered_multimap<Path, Path>&)> get_neighbours
        = [&current_position, &num_incoming_edges, &self](const Path current_node, const std::unordered_multimap<Path, Path>& graph)
    {
        std::vector<Path> order; 
        const auto& [neighbour_begin, neighbour_end] = graph.equal_range(current_node);
        std::unordered_set<Path> candidates;
        for (const auto& [_, neighbour] : ranges::make_subrange(neighbour_begin, neighbour_end))
        {
            if (num_incoming_edges.at(neighbour) == 0)
            {
                candidates.insert(neighbour);
            }
        }
        auto local_current_position = current_position;
        while (! candidates.empty())
        {
            Path best_candidate = self.findBestPathVertices(local_current_position, candidates);
            candidates.erase(best_candidate);
            order.push_back(best_candidate);
            auto path = self.vertices_to_paths_[best_candidate];
            if (path->is_closed_)
            {
                local_current_position = (*path->converted_)[path->start_vertex_]; 
            }
            else
            {
                local_current_position = path->start_vertex_ == 0 ? path->converted_->back() : path->converted_->front();
            }
        }
        return order;
    };
    const std::function<std::nullptr_t(const Path, const std::nullptr_t)> handle_node
        = [&current_position, &optimized_order, &order_requirements, &num_incoming_edges, &self](const Path current_node, [[maybe_unused]] const std::nullptr_t state)
    {
        for (const auto& path : self.paths_)
        {
            if (path.vertices_ == current_node)
            {
                if (path.is_closed_)
                {
                    current_position = (*path.converted_)[path.start_vertex_]; 
                }
                else
                {
                    current_position = path.start_vertex_ == 0 ? path.converted_->back() : path.converted_->front();
                }
                optimized_order.push_back(path);
                const auto& [neighbour_begin, neighbour_end] = order_requirements.equal_range(path.vertices_);
                for (const auto& [_, neighbour] : ranges::make_subrange(neighbour_begin, neighbour_end))
                {
                    num_incoming_edges.find(neighbour)->second--;
                }
                break;
            }
        }
        return nullptr;
    };
    if (self._group_outer_walls)
    {
        if (self.reverse_direction_)
        {
            std::unordered_set<Path> outer_walls = leaves;
            visited.insert(outer_walls.begin(), outer_walls.end());
            while (! roots.empty())
            {
                Path root = self.findBestPathVertices(current_position, roots);
                roots.erase(root);
                actions::dfs(root, order_requirements, handle_node, visited, nullptr, get_neighbours);
            }
            while (! outer_walls.empty())
            {
                Path wall = self.findBestPathVertices(current_position, outer_walls);
                outer_walls.erase(wall);
                handle_node(wall, nullptr);
            }
        }
        else
        {
            std::unordered_set<Path> outer_walls = roots;
            std::unordered_set<Path> root_neighbours;
            while (! outer_walls.empty())
            {
                Path outer_wall = self.findBestPathVertices(current_position, outer_walls);
                outer_walls.erase(outer_wall);
                handle_node(outer_wall, nullptr);
                visited.insert(outer_wall);
                for (auto path : get_neighbours(outer_wall, order_requirements))
                {
                    root_neighbours.emplace(path);
                }
            }
            while (! root_neighbours.empty())
            {
                Path root_neighbour = self.findBestPathVertices(current_position, root_neighbours);
                root_neighbours.erase(root_neighbour);
                actions::dfs(root_neighbour, order_requirements, handle_node, visited, nullptr, get_neighbours);
            }
        }
    }
    else
    {
        while (! roots.empty())
        {
            Path root = self.findBestPathVertices(current_position, roots);
            roots.erase(root);
            actions::dfs(root, order_requirements, handle_node, visited, nullptr, get_neighbours);
        }
    }
    return optimized_order;
}
} // namespace n61

//= cura::PathOrderOptimizer::reverseOrderPaths | cura::PathOrderOptimizer<cura::SliceLayerPart *>
namespace n62
{
using PathOrderOptimizer = cura::PathOrderOptimizer<cura::SliceLayerPart *>;
using OrderablePath = cura::PathOrderOptimizer<cura::SliceLayerPart *>::OrderablePath;
std::vector<OrderablePath> r62(cura::PathOrderOptimizer<cura::SliceLayerPart *>& self, std::vector<OrderablePath> pathsOrderPaths)
{
    std::vector<OrderablePath> reversed;
    reversed.reserve(pathsOrderPaths.size());
    for (auto& path : pathsOrderPaths | ranges::views::reverse)
    {
        reversed.push_back(path);
        reversed.back().backwards_ = ! reversed.back().backwards_;
        if (! reversed.back().is_closed_)
        {
            reversed.back().start_vertex_ = reversed.back().converted_->size() - 1 - reversed.back().start_vertex_;
        }
    }
    return reversed;
}
} // namespace n62

//= cura::PathOrderOptimizer::reverseOrderPaths | cura::PathOrderOptimizer<const cura::SkinPart *>
namespace n63
{
using PathOrderOptimizer = cura::PathOrderOptimizer<const cura::SkinPart *>;
using OrderablePath = cura::PathOrderOptimizer<const cura::SkinPart *>::OrderablePath;
std::vector<OrderablePath> r63(cura::PathOrderOptimizer<const cura::SkinPart *>& self, std::vector<OrderablePath> pathsOrderPaths)
{
    std::vector<OrderablePath> reversed;
    reversed.reserve(pathsOrderPaths.size());
    for (auto& path : pathsOrderPaths | ranges::views::reverse)
    {
        reversed.push_back(path);
        reversed.back().backwards_ = ! reversed.back().backwards_;
        if (! reversed.back().is_closed_)
        {
            reversed.back().start_vertex_ = reversed.back().converted_->size() - 1 - reversed.back().start_vertex_;
        }
    }
    return reversed;
}
} // namespace n63

//= cura::PathOrderOptimizer::findBestPathVertices | cura::PathOrderOptimizer<cura::SliceLayerPart *>
namespace n64
{
using Path = cura::SliceLayerPart *;
using PathOrderOptimizer = cura::PathOrderOptimizer<cura::SliceLayerPart *>;
using OrderablePath = cura::PathOrderOptimizer<cura::SliceLayerPart *>::OrderablePath;
Path r64(cura::PathOrderOptimizer<cura::SliceLayerPart *>& self, const Point2LL& start_position, const std::unordered_set<Path>& candidate_paths)
{
    std::vector<OrderablePath*> orderable_paths;
    orderable_paths.reserve(candidate_paths.size());
    for (auto& path : candidate_paths)
    {
        orderable_paths.push_back(self.vertices_to_paths_.at(path));
    }
    OrderablePath* best_candidate = self.findBestPath(start_position, orderable_paths);
    return best_candidate->vertices_;
}
} // namespace n64

//= cura::PathOrderOptimizer::findBestPathVertices | cura::PathOrderOptimizer<const cura::SkinPart *>
namespace n65
{
using Path = const cura::SkinPart *;
using PathOrderOptimizer = cura::PathOrderOptimizer<const cura::SkinPart *>;
using OrderablePath = cura::PathOrderOptimizer<const cura::SkinPart *>::OrderablePath;
Path r65(cura::PathOrderOptimizer<const cura::SkinPart *>& self, const Point2LL& start_position, const std::unordered_set<Path>& candidate_paths)
{
    std::vector<OrderablePath*> orderable_paths;
    orderable_paths.reserve(candidate_paths.size());
    for (auto& path : candidate_paths)
    {
        orderable_paths.push_back(self.vertices_to_paths_.at(path));
    }
    OrderablePath* best_candidate = self.findBestPath(start_position, orderable_paths);
    return best_candidate->vertices_;
}
} // namespace n65

//= cura::PathOrderOptimizer::findBestPath | cura::PathOrderOptimizer<cura::SliceLayerPart *>
namespace n66
{
using PathOrderOptimizer = cura::PathOrderOptimizer<cura::SliceLayerPart *>;
using OrderablePath = cura::PathOrderOptimizer<cura::SliceLayerPart *>::OrderablePath;
OrderablePath* r66(cura::PathOrderOptimizer<cura::SliceLayerPart *>& self, const Point2LL& start_position, const std::vector<OrderablePath*>& candidate_paths)
{
    OrderablePath* best_candidate = self.prefer_longest_path_ ? self.findLongestPath(candidate_paths) : self.findClosestPath(start_position, candidate_paths);
    self.prefer_longest_path_ = false;
    return best_candidate;
}
} // namespace n66

//= cura::PathOrderOptimizer::findBestPath | cura::PathOrderOptimizer<const cura::SkinPart *>
namespace n67
{
using PathOrderOptimizer = cura::PathOrderOptimizer<const cura::SkinPart *>;
using OrderablePath = cura::PathOrderOptimizer<const cura::SkinPart *>::OrderablePath;
OrderablePath* r67(cura::PathOrderOptimizer<const cura::SkinPart *>& self, const Point2LL& start_position, const std::vector<OrderablePath*>& candidate_paths)
{
    OrderablePath* best_candidate = self.prefer_longest_path_ ? self.findLongestPath(candidate_paths) : self.findClosestPath(start_position, candidate_paths);
    self.prefer_longest_path_ = false;
    return best_candidate;
}
} // namespace n67

//= cura::PathOrderOptimizer::findLongestPath | cura::PathOrderOptimizer<cura::SliceLayerPart *>
namespace n68
{
using PathOrderOptimizer = cura::PathOrderOptimizer<cura::SliceLayerPart *>;
using OrderablePath = cura::PathOrderOptimizer<cura::SliceLayerPart *>::OrderablePath;
OrderablePath* r68(cura::PathOrderOptimizer<cura::SliceLayerPart *>& self, const std::vector<OrderablePath*>& candidate_paths)
{
    auto iterator = ranges::max_element(
        candidate_paths,
        {},
        [](const OrderablePath* path)
        {
            return path->converted_->length();
        });
    return iterator == candidate_paths.end() ? nullptr : *iterator;
}
} // namespace n68

//= cura::PathOrderOptimizer::findLongestPath | cura::PathOrderOptimizer<const cura::SkinPart *>
namespace n69
{
using PathOrderOptimizer = cura::PathOrderOptimizer<const cura::SkinPart *>;
using OrderablePath = cura::PathOrderOptimizer<const cura::SkinPart *>::OrderablePath;
OrderablePath* r69(cura::PathOrderOptimizer<const cura::SkinPart *>& self, const std::vector<OrderablePath*>& candidate_paths)
{
    auto iterator = ranges::max_element(
        candidate_paths,
        {},
        [](const OrderablePath* path)
        {
            return path->converted_->length();
        });
    return iterator == candidate_paths.end() ? nullptr : *iterator;
}
} // namespace n69

//= cura::PathOrderOptimizer::pathIfZseamIsInDisallowedArea | cura::PathOrderOptimizer<cura::SliceLayerPart *>
namespace n72
{
using PathOrderOptimizer = cura::PathOrderOptimizer<cura::SliceLayerPart *>;
using OrderablePath = cura::PathOrderOptimizer<cura::SliceLayerPart *>::OrderablePath;
size_t r72(cura::PathOrderOptimizer<cura::SliceLayerPart *>& self, size_t best_pos, const OrderablePath& path, size_t number_of_paths_analysed)
{
    size_t path_size = path.converted_->size();
    if (path_size > number_of_paths_analysed)
    {
        if (! self.disallowed_area_for_seams.empty())
        {
            Point2LL current_candidate = (path.converted_)->at(best_pos);
            if (self.disallowed_area_for_seams.inside(current_candidate, true))
            {
                size_t next_best_position = (path_size > best_pos + 1) ? best_pos + 1 : 0;
                number_of_paths_analysed += 1;
                best_pos = self.pathIfZseamIsInDisallowedArea(next_best_position, path, number_of_paths_analysed);
            }
        }
    }
    else
    {
    }
    return best_pos;
}
} // namespace n72

//= cura::PathOrderOptimizer::pathIfZseamIsInDisallowedArea | cura::PathOrderOptimizer<const cura::SkinPart *>
namespace n73
{
using PathOrderOptimizer = cura::PathOrderOptimizer<const cura::SkinPart *>;
using OrderablePath = cura::PathOrderOptimizer<const cura::SkinPart *>::OrderablePath;
size_t r73(cura::PathOrderOptimizer<const cura::SkinPart *>& self, size_t best_pos, const OrderablePath& path, size_t number_of_paths_analysed)
{
    size_t path_size = path.converted_->size();
    if (path_size > number_of_paths_analysed)
    {
        if (! self.disallowed_area_for_seams.empty())
        {
            Point2LL current_candidate = (path.converted_)->at(best_pos);
            if (self.disallowed_area_for_seams.inside(current_candidate, true))
            {
                size_t next_best_position = (path_size > best_pos + 1) ? best_pos + 1 : 0;
                number_of_paths_analysed += 1;
                best_pos = self.pathIfZseamIsInDisallowedArea(next_best_position, path, number_of_paths_analysed);
            }
        }
    }
    else
    {
    }
    return best_pos;
}
} // namespace n73

//= cura::PathOrderOptimizer::findStartLocation | cura::PathOrderOptimizer<cura::SliceLayerPart *>
namespace n74
{
using PathOrderOptimizer = cura::PathOrderOptimizer<cura::SliceLayerPart *>;
using OrderablePath = cura::PathOrderOptimizer<cura::SliceLayerPart *>::OrderablePath;
size_t r74(cura::PathOrderOptimizer<cura::SliceLayerPart *>& self, const OrderablePath& path, const Point2LL& target_pos)
{
    if (! path.is_closed_)
    {
        const coord_t back_distance
            = (self.combing_boundary_ == nullptr) ? self.getDirectDistance(path.converted_->back(), target_pos) : self.getCombingDistance(path.converted_->back(), target_pos);
        if (back_distance < self.getDirectDistance(path.converted_->front(), target_pos)
            || (self.combing_boundary_
                && back_distance < self.getCombingDistance(path.converted_->front(), target_pos))) 
        {
            return path.converted_->size() - 1; 
        }
        return 0; 
    }
    const PointsSet& points = *path.converted_;
    BestElementFinder best_candidate_finder;
    BestElementFinder::CriteriaPass main_criteria_pass;
    main_criteria_pass.outsider_delta_threshold = 0.05;
    if (self.texture_data_provider_)
    {
        BestElementFinder::WeighedCriterion texture_criterion;
        texture_criterion.criterion = std::make_shared<TextureScoringCriterion>(points, self.texture_data_provider_, "seam");
        texture_criterion.weight = 5.0;
        main_criteria_pass.criteria.push_back(texture_criterion);
    }
    BestElementFinder::WeighedCriterion main_criterion;
    if (path.force_start_index_.has_value()) 
    {
        constexpr double distance_divider = 1.0;
        constexpr auto distance_type = DistanceScoringCriterion::DistanceType::Euclidian;
        main_criterion.criterion = std::make_shared<DistanceScoringCriterion>(points, points.at(path.force_start_index_.value()), distance_type, distance_divider);
    }
    else if (path.seam_config_.type_ == EZSeamType::SHORTEST || path.seam_config_.type_ == EZSeamType::USER_SPECIFIED)
    {
        main_criterion.criterion = std::make_shared<DistanceScoringCriterion>(points, target_pos);
    }
    else if (path.seam_config_.type_ == EZSeamType::SHARPEST_CORNER && path.seam_config_.corner_pref_ != EZSeamCornerPrefType::PLUGIN)
    {
        main_criterion.criterion = std::make_shared<CornerScoringCriterion>(points, path.seam_config_.corner_pref_);
    }
    else if (path.seam_config_.type_ == EZSeamType::RANDOM)
    {
        main_criterion.criterion = std::make_shared<RandomScoringCriterion>();
    }
    if (main_criterion.criterion)
    {
        main_criteria_pass.criteria.push_back(main_criterion);
    }
    else
    {
    }
    if (! self.overhang_areas_.empty())
    {
        BestElementFinder::WeighedCriterion overhang_criterion;
        overhang_criterion.weight = 2.0;
        overhang_criterion.criterion = std::make_shared<ExclusionAreaScoringCriterion>(points, self.overhang_areas_);
        main_criteria_pass.criteria.push_back(overhang_criterion);
    }
    best_candidate_finder.appendCriteriaPass(main_criteria_pass);
    if (path.seam_config_.type_ == EZSeamType::SHARPEST_CORNER)
    {
        const AABB path_bounding_box(points);
        { 
            auto fallback_criterion = std::make_shared<DistanceScoringCriterion>(points, path_bounding_box.max_, DistanceScoringCriterion::DistanceType::YOnly);
            constexpr double outsider_delta_threshold = 0.01;
            best_candidate_finder.appendSingleCriterionPass(fallback_criterion, outsider_delta_threshold);
        }
        { 
            auto fallback_criterion = std::make_shared<DistanceScoringCriterion>(points, path_bounding_box.max_, DistanceScoringCriterion::DistanceType::XOnly);
            best_candidate_finder.appendSingleCriterionPass(fallback_criterion);
        }
    }
    std::optional<size_t> best_i = best_candidate_finder.findBestElement(points.size());
    if (! self.disallowed_area_for_seams.empty())
    {
        best_i = self.pathIfZseamIsInDisallowedArea(best_i.value_or(0), path, 0);
    }
    return best_i.value_or(0);
}
} // namespace n74

//= cura::PathOrderOptimizer::findStartLocation | cura::PathOrderOptimizer<const cura::SkinPart *>
namespace n75
{
using PathOrderOptimizer = cura::PathOrderOptimizer<const cura::SkinPart *>;
using OrderablePath = cura::PathOrderOptimizer<const cura::SkinPart *>::OrderablePath;
size_t r75(cura::PathOrderOptimizer<const cura::SkinPart *>& self, const OrderablePath& path, const Point2LL& target_pos)
{
    if (! path.is_closed_)
    {
        const coord_t back_distance
            = (self.combing_boundary_ == nullptr) ? self.getDirectDistance(path.converted_->back(), target_pos) : self.getCombingDistance(path.converted_->back(), target_pos);
        if (back_distance < self.getDirectDistance(path.converted_->front(), target_pos)
            || (self.combing_boundary_
                && back_distance < self.getCombingDistance(path.converted_->front(), target_pos))) 
        {
            return path.converted_->size() - 1; 
        }
        return 0; 
    }
    const PointsSet& points = *path.converted_;
    BestElementFinder best_candidate_finder;
    BestElementFinder::CriteriaPass main_criteria_pass;
    main_criteria_pass.outsider_delta_threshold = 0.05;
    if (self.texture_data_provider_)
    {
        BestElementFinder::WeighedCriterion texture_criterion;
        texture_criterion.criterion = std::make_shared<TextureScoringCriterion>(points, self.texture_data_provider_, "seam");
        texture_criterion.weight = 5.0;
        main_criteria_pass.criteria.push_back(texture_criterion);
    }
    BestElementFinder::WeighedCriterion main_criterion;
    if (path.force_start_index_.has_value()) 
    {
        constexpr double distance_divider = 1.0;
        constexpr auto distance_type = DistanceScoringCriterion::DistanceType::Euclidian;
        main_criterion.criterion = std::make_shared<DistanceScoringCriterion>(points, points.at(path.force_start_index_.value()), distance_type, distance_divider);
    }
    else if (path.seam_config_.type_ == EZSeamType::SHORTEST || path.seam_config_.type_ == EZSeamType::USER_SPECIFIED)
    {
        main_criterion.criterion = std::make_shared<DistanceScoringCriterion>(points, target_pos);
    }
    else if (path.seam_config_.type_ == EZSeamType::SHARPEST_CORNER && path.seam_config_.corner_pref_ != EZSeamCornerPrefType::PLUGIN)
    {
        main_criterion.criterion = std::make_shared<CornerScoringCriterion>(points, path.seam_config_.corner_pref_);
    }
    else if (path.seam_config_.type_ == EZSeamType::RANDOM)
    {
        main_criterion.criterion = std::make_shared<RandomScoringCriterion>();
    }
    if (main_criterion.criterion)
    {
        main_criteria_pass.criteria.push_back(main_criterion);
    }
    else
    {
    }
    if (! self.overhang_areas_.empty())
    {
        BestElementFinder::WeighedCriterion overhang_criterion;
        overhang_criterion.weight = 2.0;
        overhang_criterion.criterion = std::make_shared<ExclusionAreaScoringCriterion>(points, self.overhang_areas_);
        main_criteria_pass.criteria.push_back(overhang_criterion);
    }
    best_candidate_finder.appendCriteriaPass(main_criteria_pass);
    if (path.seam_config_.type_ == EZSeamType::SHARPEST_CORNER)
    {
        const AABB path_bounding_box(points);
        { 
            auto fallback_criterion = std::make_shared<DistanceScoringCriterion>(points, path_bounding_box.max_, DistanceScoringCriterion::DistanceType::YOnly);
            constexpr double outsider_delta_threshold = 0.01;
            best_candidate_finder.appendSingleCriterionPass(fallback_criterion, outsider_delta_threshold);
        }
        { 
            auto fallback_criterion = std::make_shared<DistanceScoringCriterion>(points, path_bounding_box.max_, DistanceScoringCriterion::DistanceType::XOnly);
            best_candidate_finder.appendSingleCriterionPass(fallback_criterion);
        }
    }
    std::optional<size_t> best_i = best_candidate_finder.findBestElement(points.size());
    if (! self.disallowed_area_for_seams.empty())
    {
        best_i = self.pathIfZseamIsInDisallowedArea(best_i.value_or(0), path, 0);
    }
    return best_i.value_or(0);
}
} // namespace n75

//= cura::PathOrderOptimizer::getDirectDistance | cura::PathOrderOptimizer<cura::SliceLayerPart *>
namespace n76
{
using PathOrderOptimizer = cura::PathOrderOptimizer<cura::SliceLayerPart *>;
coord_t r76(const cura::PathOrderOptimizer<cura::SliceLayerPart *>& self, const Point2LL& a, const Point2LL& b)
{
    return vSize2(a - b);
}
} // namespace n76

//= cura::PathOrderOptimizer::getDirectDistance | cura::PathOrderOptimizer<const cura::SkinPart *>
namespace n77
{
using PathOrderOptimizer = cura::PathOrderOptimizer<const cura::SkinPart *>;
coord_t r77(const cura::PathOrderOptimizer<const cura::SkinPart *>& self, const Point2LL& a, const Point2LL& b)
{
    return vSize2(a - b);
}
} // namespace n77

//= cura::PathOrderOptimizer::getCombingDistance | cura::PathOrderOptimizer<cura::SliceLayerPart *>
namespace n78
{
using PathOrderOptimizer = cura::PathOrderOptimizer<cura::SliceLayerPart *>;
coord_t r78(cura::PathOrderOptimizer<cura::SliceLayerPart *>& self, const Point2LL& a, const Point2LL& b)
{
    if (! PolygonUtils::polygonCollidesWithLineSegment(*self.combing_boundary_, a, b))
    {
        return self.getDirectDistance(a, b); 
    }
    if (self.paths_.size() > 100)
    {
        return self.getDirectDistance(a, b) * 5;
    }
    if (self.combing_grid_ == nullptr)
    {
        constexpr coord_t grid_size = 2000; 
        self.combing_grid_ = PolygonUtils::createLocToLineGrid(*self.combing_boundary_, grid_size);
    }
    CombPath comb_path; 
    constexpr coord_t rounding_error = -25;
    constexpr coord_t tiny_travel_threshold = 0;
    constexpr bool fail_on_unavoidable_obstacles = false;
    LinePolygonsCrossings::comb(*self.combing_boundary_, *self.combing_grid_, a, b, comb_path, rounding_error, tiny_travel_threshold, fail_on_unavoidable_obstacles);
    coord_t sum = 0;
    Point2LL last_point = a;
    for (const Point2LL& point : comb_path)
    {
        sum += vSize(point - last_point);
        last_point = point;
    }
    return sum * sum; 
}
} // namespace n78

//= cura::PathOrderOptimizer::getCombingDistance | cura::PathOrderOptimizer<const cura::SkinPart *>
namespace n79
{
using PathOrderOptimizer = cura::PathOrderOptimizer<const cura::SkinPart *>;
coord_t r79(cura::PathOrderOptimizer<const cura::SkinPart *>& self, const Point2LL& a, const Point2LL& b)
{
    if (! PolygonUtils::polygonCollidesWithLineSegment(*self.combing_boundary_, a, b))
    {
        return self.getDirectDistance(a, b); 
    }
    if (self.paths_.size() > 100)
    {
        return self.getDirectDistance(a, b) * 5;
    }
    if (self.combing_grid_ == nullptr)
    {
        constexpr coord_t grid_size = 2000; 
        self.combing_grid_ = PolygonUtils::createLocToLineGrid(*self.combing_boundary_, grid_size);
    }
    CombPath comb_path; 
    constexpr coord_t rounding_error = -25;
    constexpr coord_t tiny_travel_threshold = 0;
    constexpr bool fail_on_unavoidable_obstacles = false;
    LinePolygonsCrossings::comb(*self.combing_boundary_, *self.combing_grid_, a, b, comb_path, rounding_error, tiny_travel_threshold, fail_on_unavoidable_obstacles);
    coord_t sum = 0;
    Point2LL last_point = a;
    for (const Point2LL& point : comb_path)
    {
        sum += vSize(point - last_point);
        last_point = point;
    }
    return sum * sum; 
}
} // namespace n79

//= cura::PathOrderOptimizer::isLoopingPolyline | cura::PathOrderOptimizer<cura::SliceLayerPart *>
namespace n80
{
using PathOrderOptimizer = cura::PathOrderOptimizer<cura::SliceLayerPart *>;
using OrderablePath = cura::PathOrderOptimizer<cura::SliceLayerPart *>::OrderablePath;
bool r80(cura::PathOrderOptimizer<cura::SliceLayerPart *>& self, const OrderablePath& path)
{
    if (path.converted_->empty())
    {
        return false;
    }
    return vSize2(path.converted_->back() - path.converted_->front()) < self._coincident_point_distance * self._coincident_point_distance;
}
} // namespace n80

//= cura::PathOrderOptimizer::isLoopingPolyline | cura::PathOrderOptimizer<const cura::SkinPart *>
namespace n81
{
using PathOrderOptimizer = cura::PathOrderOptimizer<const cura::SkinPart *>;
using OrderablePath = cura::PathOrderOptimizer<const cura::SkinPart *>::OrderablePath;
bool r81(cura::PathOrderOptimizer<const cura::SkinPart *>& self, const OrderablePath& path)
{
    if (path.converted_->empty())
    {
        return false;
    }
    return vSize2(path.converted_->back() - path.converted_->front()) < self._coincident_point_distance * self._coincident_point_distance;
}
} // namespace n81

//= cura::PathOrdering::PathOrdering | cura::PathOrdering<cura::SliceLayerPart *>
namespace n82
{
using PathType = cura::SliceLayerPart *;
using PathOrdering = cura::PathOrdering<cura::SliceLayerPart *>;
void r82(cura::PathOrdering<cura::SliceLayerPart *>& self, const PathType& vertices, const bool is_closed, const size_t start_vertex, const bool backwards)
{
    member(self.vertices_) = vertices;
    member(self.start_vertex_) = start_vertex;
    member(self.is_closed_) = is_closed;
    member(self.backwards_) = backwards;
}
} // namespace n82

//= cura::PathOrdering::PathOrdering | cura::PathOrdering<const cura::SkinPart *>
namespace n83
{
using PathType = const cura::SkinPart *;
using PathOrdering = cura::PathOrdering<const cura::SkinPart *>;
void r83(cura::PathOrdering<const cura::SkinPart *>& self, const PathType& vertices, const bool is_closed, const size_t start_vertex, const bool backwards)
{
    member(self.vertices_) = vertices;
    member(self.start_vertex_) = start_vertex;
    member(self.is_closed_) = is_closed;
    member(self.backwards_) = backwards;
}
} // namespace n83

//= cura::BestElementFinder::appendSingleCriterionPass
namespace n84
{
using CriteriaPass = cura::BestElementFinder::CriteriaPass;
using WeighedCriterion = cura::BestElementFinder::WeighedCriterion;
void r84(cura::BestElementFinder& self, std::shared_ptr<ScoringCriterion> criterion, const double outsider_delta_threshold)
{
    WeighedCriterion weighed_criterion;
    weighed_criterion.criterion = criterion;
    CriteriaPass criteria_pass;
    criteria_pass.outsider_delta_threshold = outsider_delta_threshold;
    criteria_pass.criteria.push_back(weighed_criterion);
    self.appendCriteriaPass(criteria_pass);
}
} // namespace n84

//= cura::CornerScoringCriterion::computeScore
double r87(const cura::CornerScoringCriterion& self, const size_t candidate_index)
{
    double corner_angle = self.cornerAngle(candidate_index);
    double score = 0.0;
    switch (self.corner_preference_)
    {
    case EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_INNER:
        score = cura::inverse_lerp(1.0, -1.0, corner_angle);
        break;
    case EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_OUTER:
        score = cura::inverse_lerp(-1.0, 1.0, corner_angle);
        break;
    case EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_ANY:
        score = std::abs(corner_angle);
        break;
    case EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_WEIGHTED:
        if (corner_angle < 0)
        {
            score = -corner_angle;
        }
        else
        {
            score = corner_angle / 2.0;
        }
        break;
    case EZSeamCornerPrefType::PLUGIN:
        break;
    }
    return score;
}

//= cura::CornerScoringCriterion::cornerAngle
double r88(const cura::CornerScoringCriterion& self, size_t vertex_index, const coord_t angle_query_distance)
{
    const coord_t bounded_distance = std::min(angle_query_distance, self.total_length_ / 2);
    const Point2LL& here = self.getPoints().at(vertex_index);
    const Point2LL next = self.findNeighbourPoint(vertex_index, bounded_distance);
    const Point2LL previous = self.findNeighbourPoint(vertex_index, -bounded_distance);
    double angle = LinearAlg2D::getAngleLeft(previous, here, next) - std::numbers::pi;
    return angle / std::numbers::pi;
}

//= cura::CornerScoringCriterion::findNeighbourPoint
Point2LL r89(const cura::CornerScoringCriterion& self, size_t vertex_index, coord_t distance)
{
    const int direction = distance > 0 ? 1 : -1;
    const int size_delta = distance > 0 ? -1 : 0;
    distance = std::abs(distance);
    int actual_delta = 0;
    coord_t travelled_distance = 0;
    coord_t segment_size = 0;
    while (travelled_distance < distance)
    {
        actual_delta += direction;
        segment_size = self.segments_sizes_[(vertex_index + actual_delta + size_delta + self.getPoints().size()) % self.getPoints().size()];
        travelled_distance += segment_size;
    }
    const Point2LL& next_pos = self.getPoints().at((vertex_index + actual_delta + self.getPoints().size()) % self.getPoints().size());
    if (travelled_distance > distance) [[likely]]
    {
        int prev = (vertex_index + actual_delta - direction + self.getPoints().size()) % self.getPoints().size();
        const Point2LL& prev_pos = self.getPoints().at(prev);
        const Point2LL vector = next_pos - prev_pos;
        const Point2LL unit_vector = (vector * 1000) / segment_size;
        const Point2LL vector_delta = unit_vector * (segment_size - (travelled_distance - distance));
        return prev_pos + vector_delta / 1000;
    }
    else
    {
        return next_pos;
    }
}

//= cura::DistanceScoringCriterion::computeScore
namespace n91
{
using DistanceType = cura::DistanceScoringCriterion::DistanceType;
double r91(const cura::DistanceScoringCriterion& self, const Point2LL& candidate_position)
{
    double distance = 0.0;
    switch (self.distance_type_)
    {
    case DistanceType::Euclidian:
        distance = vSizeMM(candidate_position - self.target_pos_);
        break;
    case DistanceType::XOnly:
        distance = INT2MM(std::abs(candidate_position.X - self.target_pos_.X));
        break;
    case DistanceType::YOnly:
        distance = INT2MM(std::abs(candidate_position.Y - self.target_pos_.Y));
        break;
    }
    return 1.0 / (1.0 + (distance / self.distance_divider_));
}
} // namespace n91

//= cura::ExclusionAreaScoringCriterion::computeScore
double r93(const cura::ExclusionAreaScoringCriterion& self, const Point2LL& candidate_position)
{
    return self.exclusion_area_.inside(candidate_position, true) ? 0.0 : 1.0;
}

//= cura::PositionBasedScoringCriterion::computeScore
double r95(const cura::PositionBasedScoringCriterion& self, const size_t candidate_index)
{
    return self.computeScore(self.points_.at(candidate_index));
}

//= cura::PositionBasedScoringCriterion::computeScore
double r96(const cura::PositionBasedScoringCriterion& self, const Point2LL& candidate_position)
{
    return 0.0;
}

//= cura::RandomScoringCriterion::RandomScoringCriterion
void r97(cura::RandomScoringCriterion& self)
{
}

//= cura::RandomScoringCriterion::computeScore
double r98(const cura::RandomScoringCriterion& self, const size_t)
{
    return cura::randf<double>();
}

//= cura::TextureScoringCriterion::computeScore
double r100(const cura::TextureScoringCriterion& self, const Point2LL& candidate_position)
{
    std::optional<TextureArea> preference = self.texture_data_provider_->getAreaPreference(candidate_position, self.feature_name_);
    if (preference.has_value())
    {
        switch (preference.value())
        {
        case TextureArea::Normal:
            return 0.5;
        case TextureArea::Preferred:
            return 1;
        case TextureArea::Avoid:
            return 0;
        }
    }
    return 0.5;
}

//= cura::BestElementFinder::appendCriteriaPass
namespace n101
{
using CriteriaPass = cura::BestElementFinder::CriteriaPass;
void r101(cura::BestElementFinder& self, const CriteriaPass& pass)
{
    self.criteria_.push_back(pass);
}
} // namespace n101

//= cura::PositionBasedScoringCriterion::getPoints
const PointsSet& r102(const cura::PositionBasedScoringCriterion& self)
{
    return self.points_;
}

//END
}  // namespace ref
