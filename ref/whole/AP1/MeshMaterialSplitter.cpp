// What the functions of this unit compute.
#include <execution>
#include <unordered_set>
#include <boost/unordered/concurrent_flat_map.hpp>
#include <boost/unordered/concurrent_flat_set.hpp>
#include <range/v3/algorithm/move.hpp>
#include <range/v3/numeric/accumulate.hpp>
#include <range/v3/view/map.hpp>
#include <spdlog/spdlog.h>
#include <spdlog/stopwatch.h>
#include "MeshGroup.h"
#include "Slice.h"
#include "TextureDataProvider.h"
#include "geometry/ClosedLinesSet.h"
#include "geometry/OpenPolyline.h"
#include "geometry/Shape.h"
#include "geometry/Triangle2F.h"
#include "geometry/Triangle3LL.h"
#include "mesh.h"
#include "progress/Progress.h"
#include "slicer.h"
#include "utils/MeshUtils.h"
#include "utils/OpenPolylineStitcher.h"
#include "utils/Point3D.h"
#include "utils/Simplify.h"
#include "utils/SpatialLookup.h"
#include "utils/ThreadPool.h"
#include "utils/VoxelGrid.h"
namespace cura::MeshMaterialSplitter
{
struct MeshGeneratorData
{
    const Mesh& mesh;
    AABB3D bounding_box;
    size_t estimated_material_iterations{ 0 };
    coord_t depth;
    coord_t resolution;
};
union ContourKey
{
    uint32_t key;
    struct
    {
        uint16_t z;
        uint8_t feature_value;
        uint8_t black_hole{ 0 };
    } definition;
};
//= cura::MeshMaterialSplitter::hash_value
inline std::size_t hash_value(ContourKey const& contour_key)
{
    return boost::hash<uint32_t>()(contour_key.key);
}
//END
//= cura::MeshMaterialSplitter::operator==
bool operator==(const ContourKey& key1, const ContourKey& key2)
{
    return key1.key == key2.key;
}
//END
boost::concurrent_flat_set<uint8_t> makeVoxelGridFromTexture(
    const Mesh& mesh,
    const std::shared_ptr<TextureDataProvider>& texture_data_provider,
    const std::string& texture_feature,
    VoxelGrid& voxel_grid,
    const uint8_t default_value,
    const std::unordered_set<size_t>& authorized_values)
{
    spdlog::stopwatch timer;
    boost::concurrent_flat_set<uint8_t> found_values;
    cura::parallel_for(
        mesh.faces_,
        [&](const auto& iterator)
        {
            const MeshFace& face = *iterator;
            const std::optional<Point2F> uv0 = face.uv_coordinates_[0];
            const std::optional<Point2F> uv1 = face.uv_coordinates_[1];
            const std::optional<Point2F> uv2 = face.uv_coordinates_[2];
            if (! uv0.has_value() || ! uv1.has_value() || ! uv2.has_value())
            {
                return;
            }
            const Triangle2F face_uvs{ uv0.value(), uv1.value(), uv2.value() };
            const Triangle3LL triangle{ mesh.vertices_[face.vertex_index_[0]].p_, mesh.vertices_[face.vertex_index_[1]].p_, mesh.vertices_[face.vertex_index_[2]].p_ };
            for (const VoxelGrid::LocalCoordinates& traversed_voxel : voxel_grid.getTraversedVoxels(triangle))
            {
                const Point3D global_position = voxel_grid.toGlobalCoordinates(traversed_voxel);
                const Point3LL global_position_ll = Point3LL(std::llrint(global_position.x_), std::llrint(global_position.y_), std::llrint(global_position.z_));
                const std::optional<Point3D> barycentric_coordinates = MeshUtils::getBarycentricCoordinates(global_position_ll, triangle);
                if (! barycentric_coordinates.has_value() || barycentric_coordinates.value().x_ < 0 || barycentric_coordinates.value().y_ < 0
                    || barycentric_coordinates.value().z_ < 0)
                {
                    continue;
                }
                const Point2F point_uv_coords = MeshUtils::getUVCoordinates(barycentric_coordinates.value(), face_uvs);
                const std::pair<size_t, size_t> pixel = texture_data_provider->getTexture()->getPixelCoordinates(Point2F(point_uv_coords.x_, point_uv_coords.y_));
                std::optional<uint32_t> texture_value = texture_data_provider->getValue(std::get<0>(pixel), std::get<1>(pixel), texture_feature);
                if (! texture_value.has_value() || ! authorized_values.contains(texture_value.value()))
                {
                    texture_value = default_value;
                }
                voxel_grid.setOrUpdateOccupation(traversed_voxel, texture_value.value());
                found_values.insert(texture_value.value());
            }
        });
    spdlog::info("Total voxel grid creation time from texture {}ms", timer.elapsed_ms().count());
    return found_values;
}
//= cura::MeshMaterialSplitter::makeMeshesFromVoxelsGrid
std::map<uint8_t, Mesh> makeMeshesFromVoxelsGrid(const VoxelGrid& voxel_grid, const uint8_t ignore_value, const std::optional<Settings>& mesh_settings, const bool is_hollow)
{
    spdlog::debug("Make modifier meshes from voxels grid");
    boost::concurrent_flat_set<VoxelGrid::LocalCoordinates> marching_squares;
    voxel_grid.visitOccupiedVoxels(
        [&marching_squares, &ignore_value](const auto& occupied_voxel)
        {
            if (occupied_voxel.second != ignore_value)
            {
                marching_squares.insert(occupied_voxel.first);
                if (occupied_voxel.first.position.x > 0)
                {
                    marching_squares.insert(VoxelGrid::LocalCoordinates(occupied_voxel.first.position.x - 1, occupied_voxel.first.position.y, occupied_voxel.first.position.z));
                }
                if (occupied_voxel.first.position.y > 0)
                {
                    marching_squares.insert(VoxelGrid::LocalCoordinates(occupied_voxel.first.position.x, occupied_voxel.first.position.y - 1, occupied_voxel.first.position.z));
                }
                if (occupied_voxel.first.position.x > 0 && occupied_voxel.first.position.y > 0)
                {
                    marching_squares.insert(VoxelGrid::LocalCoordinates(occupied_voxel.first.position.x - 1, occupied_voxel.first.position.y - 1, occupied_voxel.first.position.z));
                }
            }
        });
    const double half_res_x = voxel_grid.getResolution().x_ / 2;
    const double half_res_y = voxel_grid.getResolution().y_ / 2;
    std::array<OpenLinesSet, 16> marching_segments = {
        OpenLinesSet(),
        OpenLinesSet{ OpenPolyline({ Point2LL(0, half_res_y), Point2LL(half_res_x, 0) }) },
        OpenLinesSet{ OpenPolyline({ Point2LL(-half_res_x, 0), Point2LL(0, half_res_y) }) },
        OpenLinesSet{ OpenPolyline({ Point2LL(-half_res_x, 0), Point2LL(half_res_x, 0) }) },
        OpenLinesSet{ OpenPolyline({ Point2LL(half_res_x, 0), Point2LL(0, -half_res_y) }) },
        OpenLinesSet{ OpenPolyline({ Point2LL(0, half_res_y), Point2LL(0, -half_res_y) }) },
        OpenLinesSet{ OpenPolyline({ Point2LL(-half_res_x, 0), Point2LL(0, half_res_y) }), OpenPolyline({ Point2LL(half_res_x, 0), Point2LL(0, -half_res_y) }) },
        OpenLinesSet{ OpenPolyline({ Point2LL(-half_res_x, 0), Point2LL(0, -half_res_y) }) },
        OpenLinesSet{ OpenPolyline({ Point2LL(0, -half_res_y), Point2LL(-half_res_x, 0) }) },
        OpenLinesSet{ OpenPolyline({ Point2LL(0, -half_res_y), Point2LL(-half_res_x, 0) }), OpenPolyline({ Point2LL(0, half_res_y), Point2LL(half_res_x, 0) }) },
        OpenLinesSet{ OpenPolyline({ Point2LL(0, -half_res_y), Point2LL(0, half_res_y) }) },
        OpenLinesSet{ OpenPolyline({ Point2LL(0, -half_res_y), Point2LL(half_res_x, 0) }) },
        OpenLinesSet{ OpenPolyline({ Point2LL(half_res_x, 0), Point2LL(-half_res_x, 0) }) },
        OpenLinesSet{ OpenPolyline({ Point2LL(0, half_res_y), Point2LL(-half_res_x, 0) }) },
        OpenLinesSet{ OpenPolyline({ Point2LL(half_res_x, 0), Point2LL(0, half_res_y) }) },
        OpenLinesSet(),
    };
    struct Contour
    {
        OpenLinesSet segments;
        Shape polygons;
    };
    const Point3D position_delta_center(half_res_x, half_res_y, 0);
    boost::concurrent_flat_map<ContourKey, Contour> raw_contours;
    marching_squares.visit_all(
#ifdef __cpp_lib_execution
        std::execution::par,
#endif
        [&voxel_grid, &raw_contours, &position_delta_center, &marching_segments, &ignore_value, &is_hollow](const VoxelGrid::LocalCoordinates square_start)
        {
            const int32_t x_plus1 = static_cast<int32_t>(square_start.position.x) + 1;
            const bool x_plus1_valid = x_plus1 <= std::numeric_limits<uint16_t>::max();
            const int32_t y_plus1 = static_cast<int32_t>(square_start.position.y) + 1;
            const bool y_plus1_valid = y_plus1 <= std::numeric_limits<uint16_t>::max();
            std::unordered_set<uint8_t> filled_values;
            std::array<uint8_t, 4> occupation_bits;
            auto add_occupied_value = [&voxel_grid, &ignore_value, &filled_values, &occupation_bits, &square_start, &is_hollow](
                                          const int32_t x,
                                          const int32_t y,
                                          const bool position_valid,
                                          const size_t occupation_bit_index) -> void
            {
                if (position_valid)
                {
                    const std::optional<uint8_t> occupation = voxel_grid.getOccupation(VoxelGrid::LocalCoordinates(x, y, square_start.position.z));
                    if (occupation.has_value())
                    {
                        filled_values.insert(occupation.value());
                        occupation_bits[occupation_bit_index] = occupation.value();
                        return;
                    }
                }
                if (! is_hollow)
                {
                    filled_values.insert(ignore_value);
                }
                occupation_bits[occupation_bit_index] = ignore_value;
            };
            add_occupied_value(x_plus1, y_plus1, x_plus1_valid && y_plus1_valid, 0);
            add_occupied_value(square_start.position.x, y_plus1, y_plus1_valid, 1);
            add_occupied_value(x_plus1, square_start.position.y, x_plus1_valid, 2);
            add_occupied_value(square_start.position.x, square_start.position.y, true, 3);
            if (filled_values.size() < 2)
            {
                return;
            }
            for (const uint8_t value : filled_values)
            {
                if (value == ignore_value)
                {
                    continue;
                }
                const size_t segments_index = (occupation_bits[0] == value ? 1 : 0) + ((occupation_bits[1] == value ? 1 : 0) << 1) + ((occupation_bits[2] == value ? 1 : 0) << 2)
                                            + ((occupation_bits[3] == value ? 1 : 0) << 3);
                OpenLinesSet translated_segments = marching_segments[segments_index];
                if (translated_segments.empty())
                {
                    continue;
                }
                const Point3D center_position = voxel_grid.toGlobalCoordinates(square_start) + position_delta_center;
                const Point2LL center_position_ll(center_position.x_, center_position.y_);
                for (OpenPolyline& lines_set : translated_segments)
                {
                    for (Point2LL& point : lines_set)
                    {
                        point += center_position_ll;
                    }
                }
                raw_contours.emplace_or_visit(
                    std::make_pair(ContourKey{ .definition = { square_start.position.z, value } }, Contour{ .segments = translated_segments }),
                    [&translated_segments](auto& plane_contour)
                    {
                        plane_contour.second.segments.push_back(translated_segments);
                    });
            }
        });
    raw_contours.visit_all(
#ifdef __cpp_lib_execution
        std::execution::par,
#endif
        [](auto& raw_contour)
        {
            OpenLinesSet result_lines;
            OpenPolylineStitcher::stitch(raw_contour.second.segments, result_lines, raw_contour.second.polygons);
        });
    const double min_distance = std::min({ voxel_grid.getResolution().x_, voxel_grid.getResolution().y_, voxel_grid.getResolution().z_ }) / 2.0;
    Simplify simplifier(min_distance, min_distance / 2, std::numeric_limits<coord_t>::max());
    std::map<uint8_t, Mesh> meshes;
    std::mutex mutex;
    raw_contours.visit_all(
#ifdef __cpp_lib_execution
        std::execution::par,
#endif
        [&simplifier, &voxel_grid, &meshes, &mutex, &mesh_settings](const auto& contour)
        {
            const uint16_t z = contour.first.definition.z;
            const uint8_t feature_value = contour.first.definition.feature_value;
            const coord_t z_low = voxel_grid.toGlobalZ(z, false);
            const coord_t z_high = voxel_grid.toGlobalZ(z + 1, false);
            constexpr int offset_overlapping = 5;
            const Shape simplified_polygons = simplifier.polygon(contour.second.polygons).offset(offset_overlapping);
            for (const Polygon& simplified_polygon : simplified_polygons)
            {
                const std::lock_guard lock(mutex);
                const auto mesh_iterator = meshes.find(feature_value);
                if (mesh_iterator == meshes.end())
                {
                    const Settings settings = mesh_settings.value_or(Application::getInstance().current_slice_->scene.extruders[feature_value].settings_);
                    meshes.insert({ feature_value, Mesh(settings) });
                }
                Mesh& mesh = meshes[feature_value];
                for (auto iterator = simplified_polygon.beginSegments(); iterator != simplified_polygon.endSegments(); ++iterator)
                {
                    const Point2LL& start = (*iterator).start;
                    const Point2LL& end = (*iterator).end;
                    mesh.addFace(Point3LL(start, z_low), Point3LL(end, z_low), Point3LL(end, z_high));
                    mesh.addFace(Point3LL(end, z_high), Point3LL(start, z_high), Point3LL(start, z_low));
                }
            }
        });
    return meshes;
}
//END
std::vector<Mesh> applyMeshExtruders(std::map<uint8_t, Mesh>& meshes)
{
    std::vector<Mesh> output_meshes;
    for (auto& [extruder_nr, mesh] : meshes)
    {
        mesh.settings_.add("cutting_mesh", "true");
        mesh.settings_.add("extruder_nr", std::to_string(extruder_nr));
        output_meshes.push_back(std::move(mesh));
    }
    return output_meshes;
}
std::vector<Mesh> applyMeshSupport(std::map<uint8_t, Mesh>& meshes)
{
    std::vector<Mesh> output_meshes;
    for (auto& [support_value, mesh] : meshes)
    {
        if (support_value == 1)
        {
            mesh.settings_.add("force_support_overhang_mesh", "true");
            output_meshes.push_back(std::move(mesh));
        }
        else if (support_value == 2)
        {
            mesh.settings_.add("anti_overhang_mesh", "true");
            output_meshes.push_back(std::move(mesh));
        }
    }
    return output_meshes;
}
std::vector<Shape> sliceMesh(const Mesh& mesh, const VoxelGrid& rasterized_mesh)
{
    const coord_t thickness = rasterized_mesh.getResolution().z_;
    const coord_t initial_layer_thickness = thickness;
    constexpr bool use_variable_layer_heights = false;
    constexpr std::vector<AdaptiveLayer>* adaptive_layers = nullptr;
    constexpr SlicingTolerance slicing_tolerance = SlicingTolerance::INCLUSIVE;
    AABB3D mesh_bounding_box = mesh.getAABB();
    const size_t margin_below_mesh = rasterized_mesh.toLocalZ(std::max(mesh_bounding_box.min_.z_, static_cast<coord_t>(0)));
    const size_t slice_layer_count = rasterized_mesh.toLocalZ(mesh_bounding_box.max_.z_) - margin_below_mesh + 1;
    const double xy_offset = INT2MM(std::max(rasterized_mesh.getResolution().x_, rasterized_mesh.getResolution().y_) * 2);
    Mesh sliced_mesh = mesh;
    sliced_mesh.settings_.add("xy_offset", std::to_string(xy_offset));
    sliced_mesh.settings_.add("xy_offset_layer_0", std::to_string(xy_offset));
    sliced_mesh.settings_.add("hole_xy_offset", "0");
    sliced_mesh.settings_.add("hole_xy_offset_max_diameter", "0");
    Slicer slicer(&sliced_mesh, thickness, slice_layer_count, use_variable_layer_heights, adaptive_layers, slicing_tolerance, initial_layer_thickness);
    std::vector<Shape> slices;
    for (std::ptrdiff_t layer_index = 0; layer_index < rasterized_mesh.getSlicesCount().z_; ++layer_index)
    {
        Shape expanded_shape;
        for (std::ptrdiff_t delta = -2; delta <= 2; ++delta)
        {
            std::ptrdiff_t union_layer_index = layer_index + delta - margin_below_mesh;
            if (union_layer_index >= 0 && static_cast<size_t>(union_layer_index) < slicer.layers.size())
            {
                expanded_shape = expanded_shape.unionPolygons(slicer.layers[union_layer_index].polygons_);
            }
        }
        slices.push_back(expanded_shape);
    }
    return slices;
}
bool isInside(const VoxelGrid& voxel_grid, const VoxelGrid::LocalCoordinates& position, const std::vector<Shape>& sliced_mesh)
{
    const Point3D global_position = voxel_grid.toGlobalCoordinates(position);
    constexpr bool border_result = true;
    return sliced_mesh.at(position.position.z).inside(Point2LL(global_position.x_, global_position.y_), border_result);
}
boost::concurrent_flat_set<VoxelGrid::LocalCoordinates>
//= cura::MeshMaterialSplitter::findVoxelsToEvaluate
    findVoxelsToEvaluate(const VoxelGrid& voxel_grid, const boost::concurrent_flat_set<VoxelGrid::LocalCoordinates>& previously_evaluated_voxels)
{
    boost::concurrent_flat_set<VoxelGrid::LocalCoordinates> voxels_to_evaluate;
    boost::concurrent_flat_set<VoxelGrid::LocalCoordinates> voxels_considered;
    previously_evaluated_voxels.visit_all(
#ifdef __cpp_lib_execution
        std::execution::par,
#endif
        [&](const VoxelGrid::LocalCoordinates& previously_evaluated_voxel)
        {
            for (const VoxelGrid::LocalCoordinates& voxel_around : voxel_grid.getVoxelsAround(previously_evaluated_voxel))
            {
                if (voxels_considered.insert(voxel_around) && ! voxel_grid.hasOccupation(voxel_around))
                {
                    voxels_to_evaluate.emplace(voxel_around);
                }
            }
        });
    return voxels_to_evaluate;
}
//END
//= cura::MeshMaterialSplitter::evaluateVoxels
void evaluateVoxels(
    VoxelGrid& voxel_grid,
    const boost::concurrent_flat_set<VoxelGrid::LocalCoordinates>& voxels_to_evaluate,
    const SpatialLookup& texture_data,
    const std::vector<Shape>& sliced_mesh,
    const coord_t depth_squared,
    const uint8_t mesh_extruder_nr)
{
    voxels_to_evaluate.visit_all(
#ifdef __cpp_lib_execution
        std::execution::par,
#endif
        [&voxel_grid, &texture_data, &sliced_mesh, &depth_squared, &mesh_extruder_nr](const VoxelGrid::LocalCoordinates& voxel_to_evaluate)
        {
            const Point3D position = voxel_grid.toGlobalCoordinates(voxel_to_evaluate);
            if (! sliced_mesh.empty() && ! isInside(voxel_grid, voxel_to_evaluate, sliced_mesh))
            {
                voxel_grid.setOccupation(voxel_to_evaluate, mesh_extruder_nr);
            }
            else
            {
                const std::optional<OccupiedPosition> nearest_occupation = texture_data.findClosestOccupation(position);
                if (nearest_occupation.has_value())
                {
                    const Point3D diff = position - nearest_occupation.value().position;
                    const uint8_t new_occupation = diff.vSize2() <= depth_squared ? nearest_occupation.value().occupation : mesh_extruder_nr;
                    voxel_grid.setOccupation(voxel_to_evaluate, new_occupation);
                }
                else
                {
                    voxel_grid.setOccupation(voxel_to_evaluate, mesh_extruder_nr);
                }
            }
        });
}
//END
void findBoundaryVoxels(boost::concurrent_flat_set<VoxelGrid::LocalCoordinates>& evaluated_voxels, const VoxelGrid& voxel_grid)
{
    evaluated_voxels.erase_if(
#ifdef __cpp_lib_execution
        std::execution::par,
#endif
        [&voxel_grid](const VoxelGrid::LocalCoordinates& evaluated_voxel)
        {
            bool has_various_voxels_around = false;
            const uint8_t actual_occupation = voxel_grid.getOccupation(evaluated_voxel).value();
            for (const VoxelGrid::LocalCoordinates& voxel_around : voxel_grid.getVoxelsAround(evaluated_voxel))
            {
                const std::optional<uint8_t> around_occupation = voxel_grid.getOccupation(voxel_around);
                if (around_occupation.has_value() && around_occupation.value() != actual_occupation)
                {
                    has_various_voxels_around = true;
                    break;
                }
            }
            return ! has_various_voxels_around;
        });
}
//= cura::MeshMaterialSplitter::propagateVoxels
void propagateVoxels(
    VoxelGrid& voxel_grid,
    boost::concurrent_flat_set<VoxelGrid::LocalCoordinates>& evaluated_voxels,
    const size_t estimated_iterations,
    const std::vector<Shape>& sliced_mesh,
    const SpatialLookup& texture_data,
    const coord_t depth_squared,
    const uint8_t mesh_extruder_nr,
    const size_t delta_iterations,
    const size_t total_estimated_iterations)
{
    size_t iteration = 0;
    while (! evaluated_voxels.empty())
    {
        Progress::messageProgress(Progress::Stage::SPLIT_MULTIMATERIAL, std::min(iteration, estimated_iterations) + delta_iterations, total_estimated_iterations);
        spdlog::debug("Finding voxels around {} voxels for iteration {}", evaluated_voxels.size(), iteration);
        evaluated_voxels = findVoxelsToEvaluate(voxel_grid, evaluated_voxels);
        spdlog::debug("Evaluating {} voxels", evaluated_voxels.size());
        evaluateVoxels(voxel_grid, evaluated_voxels, texture_data, sliced_mesh, depth_squared, mesh_extruder_nr);
        spdlog::debug("Find boundary voxels for next round");
        findBoundaryVoxels(evaluated_voxels, voxel_grid);
        ++iteration;
    }
}
//END
//= cura::MeshMaterialSplitter::makeMaterialModifierMeshes
std::vector<Mesh> makeMaterialModifierMeshes(
    const MeshGeneratorData& mesh_data,
    const std::shared_ptr<TextureDataProvider>& texture_data_provider,
    const size_t delta_iterations,
    const size_t total_estimated_iterations)
{
    const Settings& settings = mesh_data.mesh.settings_;
    const uint8_t mesh_extruder_nr = static_cast<uint8_t>(settings.get<size_t>("extruder_nr"));
    spdlog::debug("Fill original voxels based on texture data");
    AABB3D bounding_box = mesh_data.bounding_box;
    bounding_box.expand(mesh_data.resolution * 8);
    VoxelGrid voxel_grid(bounding_box, mesh_data.resolution);
    std::unordered_set<size_t> active_extruders;
    for (const ExtruderTrain& extruder : Application::getInstance().current_slice_->scene.extruders)
    {
        active_extruders.insert(extruder.extruder_nr_);
    }
    const boost::concurrent_flat_set<uint8_t> found_extruders
        = makeVoxelGridFromTexture(mesh_data.mesh, texture_data_provider, "extruder", voxel_grid, mesh_extruder_nr, active_extruders);
    bool texture_contains_multimaterial_data = true;
    if (found_extruders.size() == 1)
    {
        found_extruders.visit_all(
            [&texture_contains_multimaterial_data, &mesh_extruder_nr](const uint8_t extruder_nr)
            {
                texture_contains_multimaterial_data = extruder_nr != mesh_extruder_nr;
            });
    }
    if (! texture_contains_multimaterial_data)
    {
        return {};
    }
    spdlog::debug("Prepare spatial lookup for texture data");
    const SpatialLookup texture_data = SpatialLookup::makeSpatialLookupFromVoxelGrid(voxel_grid);
    const coord_t depth_squared = mesh_data.depth * mesh_data.depth;
    const std::vector<Shape> sliced_mesh = sliceMesh(mesh_data.mesh, voxel_grid);
    spdlog::debug("Get initially filled voxels");
    boost::concurrent_flat_set<VoxelGrid::LocalCoordinates> previously_evaluated_voxels;
    voxel_grid.visitOccupiedVoxels(
        [&previously_evaluated_voxels, &mesh_extruder_nr](const auto& voxel)
        {
            if (voxel.second != mesh_extruder_nr)
            {
                previously_evaluated_voxels.insert(voxel.first);
            };
        });
    propagateVoxels(
        voxel_grid,
        previously_evaluated_voxels,
        mesh_data.estimated_material_iterations,
        sliced_mesh,
        texture_data,
        depth_squared,
        mesh_extruder_nr,
        delta_iterations,
        total_estimated_iterations);
    const std::optional<Settings> mesh_settings = std::nullopt;
    constexpr bool is_hollow = true;
    std::map<uint8_t, Mesh> meshes = makeMeshesFromVoxelsGrid(voxel_grid, mesh_extruder_nr, mesh_settings, is_hollow);
    return applyMeshExtruders(meshes);
}
//END
//= cura::MeshMaterialSplitter::makeSupportModifierMeshes
std::vector<Mesh> makeSupportModifierMeshes(const Mesh& mesh, const AABB3D& mesh_bounding_box, const std::shared_ptr<TextureDataProvider>& texture_data_provider)
{
    const Settings& settings = mesh.settings_;
    const auto resolution = settings.get<coord_t>("support_paint_resolution");
    constexpr uint8_t ignore_value = 0;
    const std::unordered_set<size_t>& authorized_values{ 1, 2 };
    AABB3D expanded_bounding_box = mesh_bounding_box;
    expanded_bounding_box.expand(resolution * 2);
    VoxelGrid voxel_grid(expanded_bounding_box, resolution);
    const boost::concurrent_flat_set<uint8_t> found_support_values = makeVoxelGridFromTexture(mesh, texture_data_provider, "support", voxel_grid, ignore_value, authorized_values);
    if (found_support_values.empty() || (found_support_values.size() == 1 && found_support_values.contains(ignore_value)))
    {
        return {};
    }
    const SpatialLookup texture_data = SpatialLookup::makeSpatialLookupFromVoxelGrid(voxel_grid);
    boost::concurrent_flat_set<VoxelGrid::LocalCoordinates> valued_voxels;
    voxel_grid.visitOccupiedVoxels(
        [&valued_voxels, &ignore_value](const auto& voxel)
        {
            if (voxel.second != ignore_value)
            {
                valued_voxels.insert(voxel.first);
            }
        });
    const boost::concurrent_flat_set<VoxelGrid::LocalCoordinates> outer_voxels = findVoxelsToEvaluate(voxel_grid, valued_voxels);
    outer_voxels.visit_all(
#ifdef __cpp_lib_execution
        std::execution::par,
#endif
        [&voxel_grid, &texture_data, &ignore_value](const VoxelGrid::LocalCoordinates& voxel_to_evaluate)
        {
            const Point3D position = voxel_grid.toGlobalCoordinates(voxel_to_evaluate);
            const std::optional<OccupiedPosition> nearest_occupation = texture_data.findClosestOccupation(position);
            if (nearest_occupation.has_value() && nearest_occupation.value().occupation != ignore_value)
            {
                voxel_grid.setOccupation(voxel_to_evaluate, nearest_occupation.value().occupation);
            }
        });
    constexpr bool is_hollow = false;
    std::map<uint8_t, Mesh> meshes = makeMeshesFromVoxelsGrid(voxel_grid, ignore_value, mesh.settings_, is_hollow);
    return applyMeshSupport(meshes);
}
//END
//= cura::MeshMaterialSplitter::makeInitialMeshesGenerationData
std::vector<MeshGeneratorData> makeInitialMeshesGenerationData(const MeshGroup* meshgroup)
{
    std::vector<MeshGeneratorData> result;
    for (const Mesh& mesh : meshgroup->meshes)
    {
        if (mesh.texture_ == nullptr || mesh.texture_data_mapping_ == nullptr)
        {
            continue;
        }
        const bool has_extruder_data = mesh.texture_data_mapping_->contains("extruder");
        const bool has_support_data = mesh.texture_data_mapping_->contains("support");
        if (! has_extruder_data && ! has_support_data)
        {
            continue;
        }
        const Settings& settings = mesh.settings_;
        MeshGeneratorData mesh_data{ .mesh = mesh,
                                     .depth = settings.get<coord_t>("multi_material_paint_depth"),
                                     .resolution = settings.get<coord_t>("multi_material_paint_resolution") };
        for (const MeshVertex& vertex : mesh.vertices_)
        {
            mesh_data.bounding_box.include(vertex.p_);
        }
        if (has_extruder_data)
        {
            const double bounding_box_max_depth = std::max({ mesh_data.bounding_box.spanX() / 2.0, mesh_data.bounding_box.spanY() / 2.0, mesh_data.bounding_box.spanZ() / 2.0 });
            const double estimated_min_depth = std::min(static_cast<double>(mesh_data.depth), bounding_box_max_depth);
            mesh_data.estimated_material_iterations = estimated_min_depth / mesh_data.resolution;
        }
        spdlog::debug("Estimated {} iterations for {}", mesh_data.estimated_material_iterations, mesh.mesh_name_);
        result.push_back(mesh_data);
    }
    return result;
}
//END
//= cura::MeshMaterialSplitter::makePaintingModifierMeshes
void makePaintingModifierMeshes(MeshGroup* meshgroup)
{
    const std::vector<MeshGeneratorData> mesh_generation_data = makeInitialMeshesGenerationData(meshgroup);
    size_t delta_iterations = 0;
    const size_t total_estimated_iterations = ranges::accumulate(
        mesh_generation_data,
        0,
        [](const size_t total_iterations, const MeshGeneratorData& mesh_data)
        {
            return total_iterations + mesh_data.estimated_material_iterations;
        });
    std::vector<Mesh> modifier_meshes;
    for (const MeshGeneratorData& mesh_data : mesh_generation_data)
    {
        const Mesh& mesh = mesh_data.mesh;
        const spdlog::stopwatch timer;
        spdlog::info("Start painting mesh-modifier generation for {}", mesh.mesh_name_);
        const auto texture_data_provider = std::make_shared<TextureDataProvider>(nullptr, mesh.texture_, mesh.texture_data_mapping_);
        const auto material_mod_meshes{ makeMaterialModifierMeshes(mesh_data, texture_data_provider, delta_iterations, total_estimated_iterations) };
        const auto support_mod_meshes{ makeSupportModifierMeshes(mesh_data.mesh, mesh_data.bounding_box, texture_data_provider) };
        meshgroup->has_painted_support |= ! support_mod_meshes.empty();
        ranges::move(material_mod_meshes, std::back_inserter(modifier_meshes));
        ranges::move(support_mod_meshes, std::back_inserter(modifier_meshes));
        delta_iterations += mesh_data.estimated_material_iterations;
        spdlog::info("Painting mesh-modifier generation for {} took {} seconds", mesh.mesh_name_, timer.elapsed().count());
    }
    ranges::move(modifier_meshes, std::back_inserter(meshgroup->meshes));
}
//END
}
