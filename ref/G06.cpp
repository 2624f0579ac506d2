// Spatial grids.
#include <algorithm>
#include <array>
#include <unordered_set>
#include <unordered_map>
#include <set>
#include <map>
#include <list>
#include <vector>
#include <deque>
#include <memory>
#include <numeric>
#include <optional>
#include <functional>
#include <string>
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "geometry/Polygon.h"
#include "geometry/OpenPolyline.h"
#include "geometry/SingleShape.h"
#include "geometry/MixedLinesSet.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "raft.h"
#include "geometry/Point2LL.h"
#include "geometry/Point3LL.h"
#include "geometry/Polygon.h"
#include "geometry/Triangle3LL.h"
#include "utils/AABB3D.h"
#include "utils/Coord_t.h"
#include "utils/PlanarPolygon3LL.h"
#include "utils/Point3D.h"
#include "utils/SVG.h"
#include "utils/Segment3LL.h"
#include "utils/SparseGrid.h"
#include "utils/SparsePointGrid.h"
#include "utils/SpatialLookup.h"
#include "utils/SquareGrid.h"
#include "utils/VoxelGrid.h"
#include "utils/VoxelUtils.h"
#include "utils/linearAlg2D.h"
#include "utils/polygonUtils.h"
#include <boost/geometry/algorithms/comparable_distance.hpp>
#include <boost/geometry/core/cs.hpp>
#include <boost/geometry/geometries/register/point.hpp>
#include <boost/geometry/index/rtree.hpp>
#include <boost/unordered/concurrent_flat_map.hpp>
#include <cassert>
#include <cstdint>
#include <execution>
#include <functional>
#include <optional>
#include <range/v3/view/transform.hpp>
#include <spdlog/spdlog.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include "utils/SparseGrid.h"
#include "utils/SparseLineGrid.h"
#include "utils/SparsePointGrid.h"
#include "utils/SparsePointGridInclusive.h"
#include "utils/SpatialLookup.h"
#include "utils/SquareGrid.h"
#include "utils/VoxelGrid.h"
#include "utils/VoxelUtils.h"
#include "ref.h"

namespace ref
{
using namespace cura;

//= cura::SparseGrid::processLine | cura::SparseGrid<cura::PathsPointIndex<cura::Shape>>
namespace n9
{
using SparseGrid = cura::SparseGrid<cura::PathsPointIndex<cura::Shape>>;
using Elem = cura::SparseGrid<cura::PathsPointIndex<cura::Shape>>::Elem;
using GridPoint = cura::SparseGrid<cura::PathsPointIndex<cura::Shape>>::GridPoint;
bool r9(const cura::SparseGrid<cura::PathsPointIndex<cura::Shape>>& self, const std::pair<Point2LL, Point2LL> query_line, const std::function<bool(const Elem&)>& process_elem_func)
{
    const std::function<bool(const GridPoint&)> process_cell_func = [&process_elem_func, &self](GridPoint grid_loc)
    {
        return self.processFromCell(grid_loc, process_elem_func);
    };
    return self.processLineCells(query_line, process_cell_func);
}
} // namespace n9

//= cura::SparseGrid::getNearest | cura::SparseGrid<cura::SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<cura::Point2F>>
namespace n12
{
using SparseGrid = cura::SparseGrid<cura::SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<cura::Point2F>>;
using Elem = cura::SparseGrid<cura::SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<cura::Point2F>>::Elem;
bool r12(const cura::SparseGrid<cura::SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<cura::Point2F>>& self, const Point2LL& query_pt, coord_t radius, Elem& elem_nearest, const std::function<bool(const Elem& elem)> precondition)
{
    bool found = false;
    int64_t best_dist2 = static_cast<int64_t>(radius) * radius;
    const std::function<bool(const Elem&)> process_func = [&query_pt, &elem_nearest, &found, &best_dist2, &precondition](const Elem& elem)
    {
        if (! precondition(elem))
        {
            return true;
        }
        int64_t dist2 = vSize2(elem.point - query_pt);
        if (dist2 < best_dist2)
        {
            found = true;
            elem_nearest = elem;
            best_dist2 = dist2;
        }
        return true;
    };
    self.processNearby(query_pt, radius, process_func);
    return found;
}
} // namespace n12

//= cura::SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem::SparsePointGridInclusiveElem | cura::SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<cura::Point2F>
namespace n19
{
using SparsePointGridInclusiveElem = cura::SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<cura::Point2F>;
void r19(cura::SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<cura::Point2F>& self)
{
}
} // namespace n19

//= cura::SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem::SparsePointGridInclusiveElem | cura::SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<long long>
namespace n20
{
using SparsePointGridInclusiveElem = cura::SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<long long>;
void r20(cura::SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<long long>& self)
{
}
} // namespace n20

//= cura::SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem::SparsePointGridInclusiveElem | cura::SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<unsigned long>
namespace n21
{
using Val = unsigned long;
using SparsePointGridInclusiveElem = cura::SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<unsigned long>;
void r21(cura::SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<unsigned long>& self, const Point2LL& point_, const Val& val_)
{
    member(self.point) = point_;
    member(self.val) = val_;
}
} // namespace n21

//= cura::VoxelGrid::LocalCoordinates::LocalCoordinates
void r31(cura::VoxelGrid::LocalCoordinates& self, const uint16_t x, const uint16_t y, const uint16_t z)
{
member(self.position) = {x, y, z};
}

//= cura::VoxelGrid::getResolution
const Point3D& r35(const cura::VoxelGrid& self)
{
    return self.resolution_;
}

//= cura::VoxelGrid::getSlicesCount
Point3LL r36(const cura::VoxelGrid& self)
{
    return self.slices_count_;
}

//= cura::hash_value
std::size_t r37(VoxelGrid::LocalCoordinates const& position)
{
    return boost::hash<uint64_t>()(position.key);
}

//= cura::VoxelUtils::VoxelUtils
void r38(cura::VoxelUtils& self, Point3LL cell_size)
{
    member(self.cell_size_) = cell_size;
}

//= cura::VoxelUtils::toGridPoint
GridPoint3 r39(const cura::VoxelUtils& self, const Point3LL& point)
{
    return GridPoint3(self.toGridCoord(point.x_, 0), self.toGridCoord(point.y_, 1), self.toGridCoord(point.z_, 2));
}

//= cura::VoxelUtils::toGridCoord
namespace n40
{
using grid_coord_t = cura::VoxelUtils::grid_coord_t;
grid_coord_t r40(const cura::VoxelUtils& self, const coord_t& coord, const size_t dim)
{
    return coord / self.cell_size_[dim] - (coord < 0);
}
} // namespace n40

//= cura::VoxelUtils::toLowerCorner
Point3LL r41(const cura::VoxelUtils& self, const GridPoint3& location)
{
    return cura::Point3LL(self.toLowerCoord(location.x_, 0), self.toLowerCoord(location.y_, 1), self.toLowerCoord(location.z_, 2));
}

//= cura::VoxelUtils::toLowerCoord
namespace n42
{
using grid_coord_t = cura::VoxelUtils::grid_coord_t;
coord_t r42(const cura::VoxelUtils& self, const grid_coord_t& grid_coord, const size_t dim)
{
    return grid_coord * self.cell_size_[dim];
}
} // namespace n42

//= cura::VoxelUtils::toPolygon
Polygon r43(const cura::VoxelUtils& self, const GridPoint3 p)
{
    Polygon ret;
    Point3LL c = self.toLowerCorner(p);
    ret.emplace_back(c.x_, c.y_);
    ret.emplace_back(c.x_ + self.cell_size_.x_, c.y_);
    ret.emplace_back(c.x_ + self.cell_size_.x_, c.y_ + self.cell_size_.y_);
    ret.emplace_back(c.x_, c.y_ + self.cell_size_.y_);
    return ret;
}

//= cura::SpatialLookup::makeSpatialLookupFromVoxelGrid
namespace n45
{
using LookupTree = cura::SpatialLookup::LookupTree;
SpatialLookup r45(const VoxelGrid& voxel_grid)
{
    SpatialLookup spatial_lookup;
    spatial_lookup.occupied_positions_.reserve(voxel_grid.occupiedCount());
    std::mutex mutex;
    voxel_grid.visitOccupiedVoxels(
        [&spatial_lookup, &voxel_grid, &mutex](const auto& voxel)
        {
            const OccupiedPosition occupied_position{ voxel_grid.toGlobalCoordinates(voxel.first), voxel.second };
            const std::lock_guard lock(mutex);
            spatial_lookup.occupied_positions_.push_back(occupied_position);
        });
    spatial_lookup.lookup_tree_ = LookupTree(spatial_lookup.occupied_positions_.begin(), spatial_lookup.occupied_positions_.end());
    return spatial_lookup;
}
} // namespace n45

//= cura::SquareGrid::SquareGrid
void r46(cura::SquareGrid& self, coord_t cell_size)
{
        member(self.cell_size_) = cell_size;
}

//= cura::SquareGrid::toGridPoint
namespace n47
{
using GridPoint = cura::SquareGrid::GridPoint;
SquareGrid::GridPoint r47(const cura::SquareGrid& self, const Point2LL& point)
{
    return Point2LL(self.toGridCoord(point.X), self.toGridCoord(point.Y));
}
} // namespace n47

//= cura::SquareGrid::toGridCoord
namespace n48
{
using grid_coord_t = cura::SquareGrid::grid_coord_t;
SquareGrid::grid_coord_t r48(const cura::SquareGrid& self, const coord_t& coord)
{
    return coord / self.cell_size_;
}
} // namespace n48

//= cura::SquareGrid::toLowerCorner
namespace n49
{
using GridPoint = cura::SquareGrid::GridPoint;
cura::Point2LL r49(const cura::SquareGrid& self, const GridPoint& location)
{
    return cura::Point2LL(self.toLowerCoord(location.X), self.toLowerCoord(location.Y));
}
} // namespace n49

//= cura::SquareGrid::toLowerCoord
namespace n50
{
using grid_coord_t = cura::SquareGrid::grid_coord_t;
cura::coord_t r50(const cura::SquareGrid& self, const grid_coord_t& grid_coord)
{
    return grid_coord * self.cell_size_;
}
} // namespace n50

//= cura::SquareGrid::processLineCells
namespace n51
{
using GridPoint = cura::SquareGrid::GridPoint;
bool r51(cura::SquareGrid& self, const std::pair<Point2LL, Point2LL> line, const std::function<bool(GridPoint)>& process_cell_func)
{
    return static_cast<const SquareGrid*>((&self))->processLineCells(line, process_cell_func);
}
} // namespace n51

//= cura::SquareGrid::processLineCells
namespace n52
{
using GridPoint = cura::SquareGrid::GridPoint;
using grid_coord_t = cura::SquareGrid::grid_coord_t;
bool r52(const cura::SquareGrid& self, const std::pair<Point2LL, Point2LL> line, const std::function<bool(GridPoint)>& process_cell_func)
{
    Point2LL start = line.first;
    Point2LL end = line.second;
    if (end.X < start.X)
    { 
        std::swap(start, end);
    }
    const GridPoint start_cell = self.toGridPoint(start);
    const GridPoint end_cell = self.toGridPoint(end);
    const coord_t y_diff = end.Y - start.Y;
    const grid_coord_t y_dir = self.nonzeroSign(y_diff);
    grid_coord_t x_cell_start = start_cell.X;
    for (grid_coord_t cell_y = start_cell.Y; cell_y * y_dir <= end_cell.Y * y_dir; cell_y += y_dir)
    { 
        const coord_t nearest_next_y = self.toLowerCoord(cell_y + ((self.nonzeroSign(cell_y) == y_dir || cell_y == 0) ? y_dir : coord_t(0)));
        grid_coord_t x_cell_end; 
        if (y_diff == 0)
        {
            x_cell_end = end_cell.X;
        }
        else
        {
            const coord_t area = (end.X - start.X) * (nearest_next_y - start.Y);
            coord_t corresponding_x = start.X + area / y_diff;
            x_cell_end = self.toGridCoord(corresponding_x + ((corresponding_x < 0) && ((area % y_diff) != 0)));
            if (x_cell_end < start_cell.X)
            { 
                x_cell_end = x_cell_start;
            }
        }
        for (grid_coord_t cell_x = x_cell_start; cell_x <= x_cell_end; ++cell_x)
        {
            GridPoint grid_loc(cell_x, cell_y);
            if (! process_cell_func(grid_loc))
            {
                return false;
            }
            if (grid_loc == end_cell)
            {
                return true;
            }
        }
        x_cell_start = x_cell_end;
    }
    return false;
}
} // namespace n52

//= cura::SquareGrid::processAxisAlignedTriangle
namespace n53
{
using GridPoint = cura::SquareGrid::GridPoint;
bool r53(const cura::SquareGrid& self, const Point2LL from, const Point2LL to, bool to_the_right, const std::function<bool(GridPoint)>& process_cell_func)
{
    Point2LL a = from;
    Point2LL b = to;
    if ((a.X < b.X == a.Y < b.Y) != to_the_right)
    {
        std::swap(a, b);
    }
    return self.processAxisAlignedTriangle(a, b, process_cell_func);
}
} // namespace n53

//= cura::SquareGrid::processAxisAlignedTriangle
namespace n54
{
using GridPoint = cura::SquareGrid::GridPoint;
using grid_coord_t = cura::SquareGrid::grid_coord_t;
bool r54(const cura::SquareGrid& self, const Point2LL from, const Point2LL to, const std::function<bool(GridPoint)>& process_cell_func)
{
    GridPoint last;
    GridPoint grid_to = self.toGridPoint(to);
    return self.processLineCells(
        std::make_pair(from, to),
        [grid_to, &last, &process_cell_func, &self](const GridPoint grid_loc)
        {
            if (grid_loc.Y != last.Y)
            {
                const coord_t sign = self.nonzeroSign(grid_to.X - grid_loc.X);
                for (grid_coord_t x = grid_loc.X; x * sign <= grid_to.X * sign; x += sign)
                {
                    if (! process_cell_func(GridPoint(x, grid_loc.Y)))
                    {
                        return false;
                    }
                }
            }
            else
            {
                if (! process_cell_func(grid_loc)) 
                {
                    return false;
                }
            }
            last = grid_loc;
            return true;
        });
}
} // namespace n54

//= cura::SquareGrid::processNearby
namespace n55
{
using GridPoint = cura::SquareGrid::GridPoint;
bool r55(const cura::SquareGrid& self, const Point2LL& query_pt, coord_t radius, const std::function<bool(const GridPoint&)>& process_func)
{
    const Point2LL min_loc(query_pt.X - radius, query_pt.Y - radius);
    const Point2LL max_loc(query_pt.X + radius, query_pt.Y + radius);
    GridPoint min_grid = self.toGridPoint(min_loc);
    GridPoint max_grid = self.toGridPoint(max_loc);
    for (coord_t grid_y = min_grid.Y; grid_y <= max_grid.Y; ++grid_y)
    {
        for (coord_t grid_x = min_grid.X; grid_x <= max_grid.X; ++grid_x)
        {
            GridPoint grid_pt(grid_x, grid_y);
            if (! process_func(grid_pt))
            {
                return false;
            }
        }
    }
    return true;
}
} // namespace n55

//= cura::SquareGrid::nonzeroSign
namespace n56
{
using grid_coord_t = cura::SquareGrid::grid_coord_t;
SquareGrid::grid_coord_t r56(const cura::SquareGrid& self, const grid_coord_t z)
{
    return (z >= 0) - (z < 0);
}
} // namespace n56

//= cura::SquareGrid::getCellSize
coord_t r57(const cura::SquareGrid& self)
{
    return self.cell_size_;
}

//= cura::VoxelGrid::VoxelGrid
void r58(cura::VoxelGrid& self, const AABB3D& bounding_box, const coord_t max_resolution)
{
    self.origin_ = Point3D(bounding_box.min_.x_, bounding_box.min_.y_, bounding_box.min_.z_);
    auto set_resolution = [&max_resolution](coord_t& slices_count, double& resolution, const double span)
    {
        slices_count = static_cast<coord_t>(span / max_resolution) + 1;
        resolution = span / slices_count;
    };
    set_resolution(self.slices_count_.x_, self.resolution_.x_, bounding_box.spanX());
    set_resolution(self.slices_count_.y_, self.resolution_.y_, bounding_box.spanY());
    set_resolution(self.slices_count_.z_, self.resolution_.z_, bounding_box.spanZ());
}

//= cura::VoxelGrid::toGlobalCoordinates
namespace n59
{
using LocalCoordinates = cura::VoxelGrid::LocalCoordinates;
Point3D r59(const cura::VoxelGrid& self, const LocalCoordinates& position, const bool at_center)
{
    return Point3D(self.toGlobalX(position.position.x, at_center), self.toGlobalY(position.position.y, at_center), self.toGlobalZ(position.position.z, at_center));
}
} // namespace n59

//= cura::VoxelGrid::setOccupation
namespace n60
{
using LocalCoordinates = cura::VoxelGrid::LocalCoordinates;
void r60(cura::VoxelGrid& self, const LocalCoordinates& position, const uint8_t extruder_nr)
{
    self.occupied_voxels_.insert_or_assign(position, extruder_nr);
}
} // namespace n60

//= cura::VoxelGrid::setOrUpdateOccupation
namespace n61
{
using LocalCoordinates = cura::VoxelGrid::LocalCoordinates;
void r61(cura::VoxelGrid& self, const LocalCoordinates& position, const uint8_t extruder_nr)
{
    self.occupied_voxels_.insert_or_visit(
        { position, extruder_nr },
        [extruder_nr](auto& voxel)
        {
            voxel.second = std::min(voxel.second, extruder_nr);
        });
}
} // namespace n61

//= cura::VoxelGrid::getOccupation
namespace n62
{
using LocalCoordinates = cura::VoxelGrid::LocalCoordinates;
std::optional<uint8_t> r62(const cura::VoxelGrid& self, const LocalCoordinates& local_position)
{
    std::optional<uint8_t> result = std::nullopt;
    self.occupied_voxels_.cvisit(
        local_position,
        [&result](const auto& occupation)
        {
            result = occupation.second;
        });
    return result;
}
} // namespace n62

//= cura::VoxelGrid::hasOccupation
namespace n63
{
using LocalCoordinates = cura::VoxelGrid::LocalCoordinates;
bool r63(const cura::VoxelGrid& self, const LocalCoordinates& local_position)
{
    return self.occupied_voxels_.contains(local_position);
}
} // namespace n63

//= cura::VoxelGrid::occupiedCount
size_t r64(const cura::VoxelGrid& self)
{
    return self.occupied_voxels_.size();
}

//= cura::VoxelGrid::getVoxelsAround
namespace n65
{
using LocalCoordinates = cura::VoxelGrid::LocalCoordinates;
using Point3U16 = cura::VoxelGrid::Point3U16;
std::vector<VoxelGrid::LocalCoordinates> r65(const cura::VoxelGrid& self, const LocalCoordinates& point)
{
    const Point3U16& position = point.position;
    std::vector<LocalCoordinates> voxels_around;
    static constexpr uint8_t nb_voxels_around = 3 * 3 * 3 - 1;
    voxels_around.reserve(nb_voxels_around);
    for (int8_t delta_x = -1; delta_x < 2; ++delta_x)
    {
        const int64_t pos_x = position.x + delta_x;
        if (pos_x < 0 || pos_x >= self.slices_count_.x_)
        {
            continue;
        }
        for (int8_t delta_y = -1; delta_y < 2; ++delta_y)
        {
            const int64_t pos_y = position.y + delta_y;
            if (pos_y < 0 || pos_y >= self.slices_count_.y_)
            {
                continue;
            }
            for (int8_t delta_z = -1; delta_z < 2; ++delta_z)
            {
                const int64_t pos_z = position.z + delta_z;
                if (pos_z < 0 || pos_z >= self.slices_count_.z_)
                {
                    continue;
                }
                if (delta_x || delta_y || delta_z)
                {
                    voxels_around.push_back(LocalCoordinates(pos_x, pos_y, pos_z));
                }
            }
        }
    }
    return voxels_around;
}
} // namespace n65

//= cura::VoxelGrid::toLocalCoordinates
namespace n66
{
using LocalCoordinates = cura::VoxelGrid::LocalCoordinates;
VoxelGrid::LocalCoordinates r66(const cura::VoxelGrid& self, const Point3D& position)
{
    return LocalCoordinates(self.toLocalX(position.x_), self.toLocalY(position.y_), self.toLocalZ(position.z_));
}
} // namespace n66

//= cura::VoxelGrid::toLocalX
uint16_t r67(const cura::VoxelGrid& self, const double x)
{
    return (x - self.origin_.x_) / self.resolution_.x_;
}

//= cura::VoxelGrid::toGlobalX
double r68(const cura::VoxelGrid& self, const uint16_t x, const bool at_center)
{
    return (x * self.resolution_.x_) + self.origin_.x_ + (at_center ? self.resolution_.x_ / 2.0 : 0.0);
}

//= cura::VoxelGrid::toLocalY
uint16_t r69(const cura::VoxelGrid& self, const double y)
{
    return (y - self.origin_.y_) / self.resolution_.y_;
}

//= cura::VoxelGrid::toGlobalY
double r70(const cura::VoxelGrid& self, const uint16_t y, const bool at_center)
{
    return (y * self.resolution_.y_) + self.origin_.y_ + (at_center ? self.resolution_.y_ / 2.0 : 0.0);
}

//= cura::VoxelGrid::toLocalZ
uint16_t r71(const cura::VoxelGrid& self, const double z)
{
    return (z - self.origin_.z_) / self.resolution_.z_;
}

//= cura::VoxelGrid::toGlobalZ
double r72(const cura::VoxelGrid& self, const uint16_t z, const bool at_center)
{
    return (z * self.resolution_.z_) + self.origin_.z_ + (at_center ? self.resolution_.z_ / 2.0 : 0.0);
}

//= cura::VoxelGrid::getTraversedVoxels
namespace n73
{
using LocalCoordinates = cura::VoxelGrid::LocalCoordinates;
std::vector<VoxelGrid::LocalCoordinates> r73(const cura::VoxelGrid& self, const Triangle3LL& triangle)
{
    std::vector<LocalCoordinates> traversed_voxels;
    const Segment3LL s1(triangle[0], triangle[1]);
    const Segment3LL s2(triangle[1], triangle[2]);
    const Segment3LL s3(triangle[2], triangle[0]);
    const PlanarPolygon3LL polygon({ s1, s2, s3 });
    std::tuple<coord_t, coord_t> minmax_x = polygon.minmaxX();
    const uint16_t min_x = self.toLocalX(std::get<0>(minmax_x));
    const uint16_t max_x = self.toLocalX(std::get<1>(minmax_x));
    for (uint16_t x = min_x; x <= max_x; ++x)
    {
        const double layer_start_x = self.toGlobalX(x, false);
        const double layer_end_x = self.toGlobalX(x + 1, false);
        const std::optional<PlanarPolygon3LL> polygon_cropped_x = polygon.intersectionWithXLayer(layer_start_x, layer_end_x);
        if (! polygon_cropped_x.has_value())
        {
            continue;
        }
        std::tuple<coord_t, coord_t> minmax_y = polygon_cropped_x->minmaxY();
        const uint16_t min_y = self.toLocalY(std::get<0>(minmax_y));
        const uint16_t max_y = self.toLocalY(std::get<1>(minmax_y));
        for (uint16_t y = min_y; y <= max_y; ++y)
        {
            const double layer_start_y = self.toGlobalY(y, false);
            const double layer_end_y = self.toGlobalY(y + 1, false);
            const std::optional<PlanarPolygon3LL> polygon_cropped_xy = polygon_cropped_x->intersectionWithYLayer(layer_start_y, layer_end_y);
            if (! polygon_cropped_xy.has_value())
            {
                continue;
            }
            std::tuple<coord_t, coord_t> minmax_z = polygon_cropped_xy->minmaxZ();
            const uint16_t min_z = self.toLocalZ(std::get<0>(minmax_z));
            const uint16_t max_z = self.toLocalZ(std::get<1>(minmax_z));
            for (uint16_t z = min_z; z <= max_z; ++z)
            {
                const double layer_start_z = self.toGlobalZ(z, false);
                const double layer_end_z = self.toGlobalZ(z + 1, false);
                const std::optional<PlanarPolygon3LL> polygon_cropped_xyz = polygon_cropped_xy->intersectionWithZLayer(layer_start_z, layer_end_z);
                if (polygon_cropped_xyz.has_value())
                {
                    traversed_voxels.push_back(LocalCoordinates(x, y, z));
                }
            }
        }
    }
    return traversed_voxels;
}
} // namespace n73

//= cura::DilationKernel::DilationKernel
namespace n74
{
using Type = cura::DilationKernel::Type;
void r74(cura::DilationKernel& self, GridPoint3 kernel_size, DilationKernel::Type type)
{
        member(self.kernel_size_) = kernel_size;
        member(self.type_) = type;
    coord_t mult = kernel_size.x_ * kernel_size.y_ * kernel_size.z_; 
    self.relative_cells_.reserve(mult);
    GridPoint3 half_kernel = kernel_size / 2;
    GridPoint3 start = -half_kernel;
    GridPoint3 end = kernel_size - half_kernel;
    for (coord_t x = start.x_; x < end.x_; x++)
    {
        for (coord_t y = start.y_; y < end.y_; y++)
        {
            for (coord_t z = start.z_; z < end.z_; z++)
            {
                GridPoint3 current(x, y, z);
                if (type != Type::CUBE)
                {
                    GridPoint3 limit((x < 0) ? start.x_ : end.x_ - 1, (y < 0) ? start.y_ : end.y_ - 1, (z < 0) ? start.z_ : end.z_ - 1);
                    if (limit.x_ == 0)
                        limit.x_ = 1;
                    if (limit.y_ == 0)
                        limit.y_ = 1;
                    if (limit.z_ == 0)
                        limit.z_ = 1;
                    const GridPoint3 rel_dists = mult * current / limit;
                    if ((type == Type::DIAMOND && rel_dists.x_ + rel_dists.y_ + rel_dists.z_ > mult) || (type == Type::PRISM && rel_dists.x_ + rel_dists.y_ > mult))
                    {
                        continue; 
                    }
                }
                self.relative_cells_.emplace_back(x, y, z);
            }
        }
    }
}
} // namespace n74

//= cura::VoxelUtils::walkPolygons
bool r76(const cura::VoxelUtils& self, const Shape& polys, coord_t z, const std::function<bool(GridPoint3)>& process_cell_func)
{
    for (const Polygon& poly : polys)
    {
        Point2LL last = poly.back();
        for (Point2LL p : poly)
        {
            bool continue_ = self.walkLine(Point3LL(last.X, last.Y, z), Point3LL(p.X, p.Y, z), process_cell_func);
            if (! continue_)
            {
                return false;
            }
            last = p;
        }
    }
    return true;
}

//= cura::VoxelUtils::walkDilatedPolygons
bool r77(const cura::VoxelUtils& self, const Shape& polys, coord_t z, const DilationKernel& kernel, const std::function<bool(GridPoint3)>& process_cell_func)
{
    Shape translated = polys;
    const Point3LL translation = (Point3LL(1, 1, 1) - kernel.kernel_size_ % 2) * self.cell_size_ / 2;
    if (translation.x_ && translation.y_)
    {
        translated.translate(Point2LL(translation.x_, translation.y_));
    }
    return self.walkPolygons(translated, z + translation.z_, self.dilate(kernel, process_cell_func));
}

//= cura::VoxelUtils::walkAreas
bool r78(const cura::VoxelUtils& self, const Shape& polys, coord_t z, const std::function<bool(GridPoint3)>& process_cell_func)
{
    Shape translated = polys;
    const Point3LL translation = -self.cell_size_ / 2; 
    if (translation.x_ && translation.y_)
    {
        translated.translate(Point2LL(translation.x_, translation.y_));
    }
    return self._walkAreas(translated, z, process_cell_func);
}

//= cura::VoxelUtils::_walkAreas
bool r79(const cura::VoxelUtils& self, const Shape& polys, coord_t z, const std::function<bool(GridPoint3)>& process_cell_func)
{
    std::vector<Point2LL> skin_points = PolygonUtils::spreadDotsArea(polys, Point2LL(self.cell_size_.x_, self.cell_size_.y_));
    for (Point2LL p : skin_points)
    {
        bool continue_ = process_cell_func(self.toGridPoint(Point3LL(p.X + self.cell_size_.x_ / 2, p.Y + self.cell_size_.y_ / 2, z)));
        if (! continue_)
        {
            return false;
        }
    }
    return true;
}

//= cura::VoxelUtils::walkDilatedAreas
bool r80(const cura::VoxelUtils& self, const Shape& polys, coord_t z, const DilationKernel& kernel, const std::function<bool(GridPoint3)>& process_cell_func)
{
    Shape translated = polys;
    const Point3LL translation = (Point3LL(1, 1, 1) - kernel.kernel_size_ % 2) * self.cell_size_ / 2 
                               - self.cell_size_ / 2; 
    if (translation.x_ && translation.y_)
    {
        translated.translate(Point2LL(translation.x_, translation.y_));
    }
    return self._walkAreas(translated, z + translation.z_, self.dilate(kernel, process_cell_func));
}

//= cura::VoxelUtils::dilate
std::function<bool(GridPoint3)> r81(const cura::VoxelUtils& self, const DilationKernel& kernel, const std::function<bool(GridPoint3)>& process_cell_func)
{
    return [&process_cell_func, &kernel](GridPoint3 loc)
    {
        for (const GridPoint3& rel : kernel.relative_cells_)
        {
            bool continue_ = process_cell_func(loc + rel);
            if (! continue_)
                return false;
        }
        return true;
    };
}

//END
}  // namespace ref
