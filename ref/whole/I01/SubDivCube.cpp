// What the functions of this unit compute.
#include "infill/SubDivCube.h"
#include <functional>
#include "geometry/OpenPolyline.h"
#include "geometry/Polygon.h"
#include "geometry/Shape.h"
#include "settings/types/Angle.h"
#include "sliceDataStorage.h"
#include "utils/math.h"
#include "utils/polygonUtils.h"
#define ONE_OVER_SQRT_2 0.7071067811865475244008443621048490392848359376884740
#define ONE_OVER_SQRT_3 0.577350269189625764509148780501957455647601751270126876018
#define ONE_OVER_SQRT_6 0.408248290463863016366214012450981898660991246776111688072
#define SQRT_TWO_THIRD 0.816496580927726032732428024901963797321982493552223376144
namespace cura
{
std::vector<SubDivCube::CubeProperties> SubDivCube::cube_properties_per_recursion_step_;
coord_t SubDivCube::radius_addition_ = 0;
Point3Matrix SubDivCube::rotation_matrix_;
PointMatrix SubDivCube::infill_rotation_matrix_;
//= cura::SubDivCube::SubDivCube
SubDivCube::SubDivCube(SliceMeshStorage& mesh, Point3LL& center, size_t depth)
    : depth_(depth)
    , center_(center)
{
    if (depth_ == 0)
    {
        return;
    }
    if (depth_ >= cube_properties_per_recursion_step_.size())
    {
        return;
    }
    CubeProperties cube_properties = cube_properties_per_recursion_step_[depth];
    Point3LL child_center;
    coord_t radius = double(cube_properties.height) / 4.0 + radius_addition_;
    int child_nr = 0;
    std::vector<Point3LL> rel_child_centers;
    rel_child_centers.emplace_back(1, 1, 1);
    rel_child_centers.emplace_back(-1, 1, 1);
    rel_child_centers.emplace_back(1, -1, 1);
    rel_child_centers.emplace_back(1, 1, -1);
    rel_child_centers.emplace_back(-1, -1, -1);
    rel_child_centers.emplace_back(1, -1, -1);
    rel_child_centers.emplace_back(-1, 1, -1);
    rel_child_centers.emplace_back(-1, -1, 1);
    for (Point3LL rel_child_center : rel_child_centers)
    {
        child_center = center + rotation_matrix_.apply(rel_child_center * int32_t(cube_properties.side_length / 4));
        if (isValidSubdivision(mesh, child_center, radius))
        {
            children_[child_nr] = std::make_shared<SubDivCube>(mesh, child_center, depth - 1);
            child_nr++;
        }
    }
}
//END
}
