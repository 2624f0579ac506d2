// What the functions of this unit compute.
#include "infill/LightningDistanceField.h"
#include "utils/polygonUtils.h"
namespace cura
{
constexpr coord_t radius_per_cell_size = 6;
//= cura::LightningDistanceField::LightningDistanceField
LightningDistanceField::LightningDistanceField(const coord_t& radius, const Shape& current_outline, const Shape& current_overhang)
    : cell_size_(radius / radius_per_cell_size)
    , grid_(cell_size_)
    , supporting_radius_(radius)
    , current_outline_(current_outline)
    , current_overhang_(current_overhang)
{
    std::vector<Point2LL> regular_dots = PolygonUtils::spreadDotsArea(current_overhang, cell_size_);
    for (const auto& p : regular_dots)
    {
        const ClosestPointPolygon cpp = PolygonUtils::findClosest(p, current_outline);
        const coord_t dist_to_boundary = vSize(p - cpp.p());
        unsupported_points_.emplace_back(p, dist_to_boundary);
    }
    unsupported_points_.sort(
        [&radius](const UnsupCell& a, const UnsupCell& b)
        {
            constexpr coord_t prime_for_hash = 191;
            return std::abs(b.dist_to_boundary_ - a.dist_to_boundary_) > radius
                     ? a.dist_to_boundary_ < b.dist_to_boundary_
                     : (std::hash<Point2LL>{}(a.loc_) % prime_for_hash) < (std::hash<Point2LL>{}(b.loc_) % prime_for_hash);
        });
    for (auto it = unsupported_points_.begin(); it != unsupported_points_.end(); ++it)
    {
        UnsupCell& cell = *it;
        unsupported_points_grid_.emplace(grid_.toGridPoint(cell.loc_), it);
    }
}
//END
}
