// What the functions of this unit compute.
#include "utils/SpatialLookup.h"
#include "utils/VoxelGrid.h"
//= boost::geometry::traits::access::get
BOOST_GEOMETRY_REGISTER_POINT_3D(cura::Point3D, double, boost::geometry::cs::cartesian, x_, y_, z_)
//END
namespace cura
{
//= cura::SpatialLookup::findClosestOccupation
std::optional<OccupiedPosition> SpatialLookup::findClosestOccupation(const Point3D& position) const
{
    std::vector<OccupiedPosition> nearest_neighbors;
    lookup_tree_.query(boost::geometry::index::nearest(position, 1), std::back_inserter(nearest_neighbors));
    return nearest_neighbors.empty() ? std::nullopt : std::make_optional(nearest_neighbors.front());
}
//END
}
