// Keys whose comparison is a template nothing in the engine instantiates on its own.
#include <unordered_map>
#include "TreeModelVolumes.h"
#include "utils/PairHash.h"
#include "utils/PolygonsPointIndex.h"
#include "utils/polygonUtils.h"

//= instance
namespace instance
{
bool same(const cura::PathsPointIndex<cura::Shape>& a, const cura::PathsPointIndex<cura::Shape>& b)
{
    return a == b;
}
} // namespace instance
//END

//= instance
namespace instance
{
bool same(const cura::ClosestPoint<cura::Polygon>& a, const cura::ClosestPoint<cura::Polygon>& b)
{
    return a == b;
}
} // namespace instance
//END

//= instance
namespace instance
{
size_t key(const std::pair<cura::coord_t, cura::LayerIndex>& p)
{
    return std::hash<std::pair<cura::coord_t, cura::LayerIndex>>()(p);
}
} // namespace instance
//END

