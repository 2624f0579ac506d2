// What the functions of this unit compute.
#ifndef UTILS_SPATIALLOOKUP_H
#define UTILS_SPATIALLOOKUP_H
#include <cstdint>
#include <optional>
#include <boost/geometry/algorithms/comparable_distance.hpp>
#include <boost/geometry/core/cs.hpp>
#include <boost/geometry/geometries/register/point.hpp>
#include <boost/geometry/index/rtree.hpp>
#include "utils/Point3D.h"
struct OccupiedPosition
{
    cura::Point3D position;
    uint8_t occupation;
};
//= boost::geometry::traits::access::get
BOOST_GEOMETRY_REGISTER_POINT_3D_CONST(OccupiedPosition, double, boost::geometry::cs::cartesian, position.x_, position.y_, position.z_)
//END
namespace cura
{
class VoxelGrid;
class SpatialLookup
{
public:
    using LookupTree = boost::geometry::index::rtree<OccupiedPosition, boost::geometry::index::quadratic<8>>;
    SpatialLookup() = default;
    std::optional<OccupiedPosition> findClosestOccupation(const Point3D& position) const;
    static SpatialLookup makeSpatialLookupFromVoxelGrid(const VoxelGrid& voxel_grid);
private:
    std::vector<OccupiedPosition> occupied_positions_;
    LookupTree lookup_tree_;
};
}
#endif
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "slicer.h"
#include "infill.h"
#include "infill/LightningTreeNode.h"
#include "utils/PolygonsSegmentIndex.h"
#include "PathOrderOptimizer.h"
//= instance
template struct boost::geometry::traits::access<OccupiedPosition, 0, void>;
//END
//= instance
template struct boost::geometry::traits::access<OccupiedPosition, 1, void>;
//END
//= instance
template struct boost::geometry::traits::access<OccupiedPosition, 2, void>;
//END
