// What the functions of this unit compute.
#ifndef UTILS_VOXELGRID_H
#define UTILS_VOXELGRID_H
#include <execution>
#include <boost/unordered/concurrent_flat_map.hpp>
#include "utils/Coord_t.h"
#include "geometry/Triangle3LL.h"
#include "utils/Point3D.h"
namespace cura
{
struct AABB3D;
class VoxelGrid
{
public:
    struct Point3U16
    {
        uint16_t x;
        uint16_t y;
        uint16_t z;
        uint16_t black_hole{ 0 };
    };
    union LocalCoordinates
    {
        uint64_t key{ 0 };
        Point3U16 position;
        LocalCoordinates(const uint16_t x, const uint16_t y, const uint16_t z)
            : position{ x, y, z }
        {
        }
//= cura::VoxelGrid::LocalCoordinates::operator==
        bool operator==(const LocalCoordinates& other) const
        {
            return key == other.key;
        }
//END
//= cura::VoxelGrid::LocalCoordinates::operator!=
        bool operator!=(const LocalCoordinates& other) const
        {
            return key != other.key;
        }
//END
//= cura::VoxelGrid::LocalCoordinates::operator<
        bool operator<(const LocalCoordinates& other) const
        {
            return key < other.key;
        }
//END
    };
public:
    explicit VoxelGrid(const AABB3D& bounding_box, const coord_t max_resolution);
    const Point3D& getResolution() const
    {
        return resolution_;
    }
    Point3LL getSlicesCount() const
    {
        return slices_count_;
    }
    Point3D toGlobalCoordinates(const LocalCoordinates& position, const bool at_center = true) const;
    void setOccupation(const LocalCoordinates& position, const uint8_t extruder_nr);
    void setOrUpdateOccupation(const LocalCoordinates& position, const uint8_t extruder_nr);
    std::optional<uint8_t> getOccupation(const LocalCoordinates& local_position) const;
    bool hasOccupation(const LocalCoordinates& local_position) const;
    size_t occupiedCount() const;
//= skip cura::VoxelGrid::visitOccupiedVoxels
    template<class... Args>
    void visitOccupiedVoxels(Args&&... args)
    {
        occupied_voxels_.visit_all(
#ifdef __cpp_lib_execution
            std::execution::par,
#endif
            args...);
    }
//END
//= skip cura::VoxelGrid::visitOccupiedVoxels
    template<class... Args>
    void visitOccupiedVoxels(Args&&... args) const
    {
        occupied_voxels_.cvisit_all(
#ifdef __cpp_lib_execution
            std::execution::par,
#endif
            args...);
    }
//END
    std::vector<LocalCoordinates> getVoxelsAround(const LocalCoordinates& point) const;
    LocalCoordinates toLocalCoordinates(const Point3D& position) const;
    uint16_t toLocalX(const double x) const;
    double toGlobalX(const uint16_t x, const bool at_center = true) const;
    uint16_t toLocalY(const double y) const;
    double toGlobalY(const uint16_t y, const bool at_center = true) const;
    uint16_t toLocalZ(const double z) const;
    double toGlobalZ(const uint16_t z, const bool at_center = true) const;
    std::vector<LocalCoordinates> getTraversedVoxels(const Triangle3LL& triangle) const;
private:
    Point3D resolution_;
    Point3D origin_;
    Point3LL slices_count_;
    boost::concurrent_flat_map<LocalCoordinates, uint8_t> occupied_voxels_;
};
inline std::size_t hash_value(VoxelGrid::LocalCoordinates const& position)
{
    return boost::hash<uint64_t>()(position.key);
}
}
#endif
