// What the functions of this unit compute.
#include "utils/PolygonConnector.h"
#include "utils/AABB.h"
#include "utils/linearAlg2D.h"
namespace cura
{
//= cura::PolygonConnector::connect
void PolygonConnector::connect(Shape& output_polygons, std::vector<VariableWidthLines>& output_paths)
{
    std::vector<Polygon> result_polygons = connectGroup(input_polygons_);
    for (const Polygon& polygon : result_polygons)
    {
        output_polygons.push_back(polygon);
    }
    std::vector<ExtrusionLine> result_paths = connectGroup(input_paths_);
    output_paths.push_back(result_paths);
}
//END
//= skip cura::PolygonConnector::createEmpty
template<>
ExtrusionLine PolygonConnector::createEmpty<ExtrusionLine>() const
{
    constexpr size_t inset_index = 1;
    constexpr bool is_odd = false;
    ExtrusionLine result(inset_index, is_odd);
    result.is_closed_ = true;
    return result;
}
//END
}
