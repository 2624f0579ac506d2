// What the functions of this unit compute.
#include "InterlockingGenerator.h"
#include <algorithm>
#include <range/v3/view/enumerate.hpp>
#include <range/v3/view/iota.hpp>
#include <range/v3/view/view.hpp>
#include <range/v3/view/zip.hpp>
#include "Application.h"
#include "Slice.h"
#include "geometry/PointMatrix.h"
#include "settings/types/LayerIndex.h"
#include "slicer.h"
#include "utils/VoxelUtils.h"
#include "utils/polygonUtils.h"
namespace cura
{
//= cura::InterlockingGenerator::handleThinAreas
void InterlockingGenerator::handleThinAreas(const std::unordered_set<GridPoint3>& has_all_meshes) const
{
    Settings& global_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    const coord_t boundary_avoidance = global_settings.get<int>("interlocking_boundary_avoidance");
    const coord_t number_of_beams_detect = boundary_avoidance;
    const coord_t number_of_beams_expand = boundary_avoidance - 1;
    constexpr coord_t rounding_errors = 5;
    const coord_t max_beam_width = std::max(beam_width_a_, beam_width_b_);
    const coord_t detect = (max_beam_width * number_of_beams_detect) + rounding_errors;
    const coord_t expand = (max_beam_width * number_of_beams_expand) + rounding_errors;
    const coord_t close_gaps = std::min(mesh_a_.mesh->settings_.get<coord_t>("line_width"), mesh_b_.mesh->settings_.get<coord_t>("line_width")) / 4;
    std::vector<Shape> near_interlock_per_layer;
    near_interlock_per_layer.assign(std::min(mesh_a_.layers.size(), mesh_b_.layers.size()), Shape());
    for (const auto& cell : has_all_meshes)
    {
        const Point3LL bottom_corner = vu_.toLowerCorner(cell);
        for (coord_t layer_nr = bottom_corner.z_; layer_nr < bottom_corner.z_ + cell_size_.z_ && layer_nr < static_cast<coord_t>(near_interlock_per_layer.size()); ++layer_nr)
        {
            near_interlock_per_layer[static_cast<size_t>(layer_nr)].push_back(vu_.toPolygon(cell));
        }
    }
    for (auto& near_interlock : near_interlock_per_layer)
    {
        near_interlock = near_interlock.offset(rounding_errors).offset(-rounding_errors).unionPolygons().offset(detect);
        near_interlock.applyMatrix(rotation_.inverse());
    }
    for (auto [layer_nr, layer] : ranges::views::zip(mesh_a_.layers, mesh_b_.layers) | ranges::views::enumerate)
    {
        Shape& polys_a = std::get<0>(layer).polygons_;
        Shape& polys_b = std::get<1>(layer).polygons_;
        const auto [from_border_a, from_border_b] = growBorderAreasPerpendicular(polys_a, polys_b, detect);
        const Shape large_a{ polys_a.offset(-detect).offset(detect) };
        const Shape large_b{ polys_b.offset(-detect).offset(detect) };
        const Shape thin_expansion_a{
            large_b.intersection(polys_a.difference(large_a).offset(expand)).intersection(near_interlock_per_layer[layer_nr]).intersection(from_border_a).offset(rounding_errors)
        };
        const Shape thin_expansion_b{
            large_a.intersection(polys_b.difference(large_b).offset(expand)).intersection(near_interlock_per_layer[layer_nr]).intersection(from_border_b).offset(rounding_errors)
        };
        polys_a = polys_a.unionPolygons(thin_expansion_a).difference(thin_expansion_b).offset(close_gaps).offset(-close_gaps);
        polys_b = polys_b.unionPolygons(thin_expansion_b).difference(thin_expansion_a).offset(close_gaps).offset(-close_gaps);
    }
}
//END
}
