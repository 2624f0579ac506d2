// Raft and adaptive layers.
#include <algorithm>
#include <array>
#include <unordered_set>
#include <unordered_map>
#include <set>
#include <map>
#include <list>
#include <vector>
#include <deque>
#include <memory>
#include <numeric>
#include <optional>
#include <functional>
#include <string>
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "geometry/Polygon.h"
#include "geometry/OpenPolyline.h"
#include "geometry/SingleShape.h"
#include "geometry/MixedLinesSet.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "raft.h"
#include "Application.h"
#include "ExtruderTrain.h"
#include "Slice.h"
#include "raft.h"
#include "settings/AdaptiveLayerHeights.h"
#include "settings/EnumSettings.h"
#include "settings/types/Angle.h"
#include "sliceDataStorage.h"
#include "utils/Point3D.h"
#include "utils/math.h"
#include <algorithm>
#include <cmath>
#include <limits>
#include <numbers>
#include <polyclipping/clipper.hpp>
#include <spdlog/spdlog.h>
#include "ref.h"

namespace ref
{
using namespace cura;

//= cura::Raft::getTotalThickness
coord_t r2()
{
    const Settings& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    const Settings& base_train = mesh_group_settings.get<ExtruderTrain&>("raft_base_extruder_nr").settings_;
    const Settings& interface_train = mesh_group_settings.get<ExtruderTrain&>("raft_interface_extruder_nr").settings_;
    const Settings& surface_train = mesh_group_settings.get<ExtruderTrain&>("raft_surface_extruder_nr").settings_;
    return base_train.get<coord_t>("raft_base_thickness") + interface_train.get<size_t>("raft_interface_layers") * interface_train.get<coord_t>("raft_interface_thickness")
         + interface_train.get<coord_t>("raft_interface_z_offset") + surface_train.get<size_t>("raft_surface_layers") * surface_train.get<coord_t>("raft_surface_thickness")
         + interface_train.get<coord_t>("raft_surface_z_offset");
}

//= cura::Raft::getZdiffBetweenRaftAndLayer0
coord_t r3()
{
    const Settings& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    const ExtruderTrain& train = mesh_group_settings.get<ExtruderTrain&>("raft_surface_extruder_nr");
    if (mesh_group_settings.get<EPlatformAdhesion>("adhesion_type") != EPlatformAdhesion::RAFT)
    {
        return 0;
    }
    const coord_t airgap = std::max(coord_t(0), train.settings_.get<coord_t>("raft_airgap"));
    return airgap;
}

//= cura::Raft::getFillerLayerCount
size_t r4()
{
    const coord_t normal_layer_height = Application::getInstance().current_slice_->scene.current_mesh_group->settings.get<coord_t>("layer_height");
    return round_divide(cura::Raft::getZdiffBetweenRaftAndLayer0(), normal_layer_height);
}

//= cura::Raft::getFillerLayerHeight
coord_t r5()
{
    const Settings& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    if (mesh_group_settings.get<EPlatformAdhesion>("adhesion_type") != EPlatformAdhesion::RAFT)
    {
        const coord_t normal_layer_height = mesh_group_settings.get<coord_t>("layer_height");
        return normal_layer_height;
    }
    return round_divide(cura::Raft::getZdiffBetweenRaftAndLayer0(), cura::Raft::getFillerLayerCount());
}

//= cura::Raft::getTotalExtraLayers
size_t r6()
{
    return cura::Raft::getBaseLayers() + cura::Raft::getInterfaceLayers() + cura::Raft::getSurfaceLayers() + cura::Raft::getFillerLayerCount();
}

//= cura::Raft::getBaseLayers
size_t r7()
{
    const Settings& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    if (mesh_group_settings.get<EPlatformAdhesion>("adhesion_type") != EPlatformAdhesion::RAFT)
    {
        return 0;
    }
    return 1;
}

//= cura::Raft::getInterfaceLayers
size_t r8()
{
    return cura::Raft::getLayersAmount("raft_interface_extruder_nr", "raft_interface_layers");
}

//= cura::Raft::getSurfaceLayers
size_t r9()
{
    return cura::Raft::getLayersAmount("raft_surface_extruder_nr", "raft_surface_layers");
}

//= cura::Raft::getLayerType
namespace n10
{
using LayerType = cura::Raft::LayerType;
Raft::LayerType r10(LayerIndex layer_index)
{
    const auto airgap = Raft::getFillerLayerCount();
    const auto interface_layers = Raft::getInterfaceLayers();
    const auto surface_layers = Raft::getSurfaceLayers();
    if (layer_index < -LayerIndex(airgap + surface_layers + interface_layers))
    {
        return LayerType::RaftBase;
    }
    if (layer_index < -LayerIndex(airgap + surface_layers))
    {
        return LayerType::RaftInterface;
    }
    if (layer_index < -LayerIndex(airgap))
    {
        return LayerType::RaftSurface;
    }
    if (layer_index < LayerIndex(0))
    {
        return LayerType::Airgap;
    }
    return LayerType::Model;
}
} // namespace n10

//= cura::Raft::getLayersAmount
size_t r11(const std::string& extruder_nr_setting_name, const std::string& target_raft_section)
{
    const Settings& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    if (mesh_group_settings.get<EPlatformAdhesion>("adhesion_type") != EPlatformAdhesion::RAFT)
    {
        return 0;
    }
    const ExtruderTrain& train = mesh_group_settings.get<ExtruderTrain&>(extruder_nr_setting_name);
    return train.settings_.get<size_t>(target_raft_section);
}

//= cura::AdaptiveLayer::AdaptiveLayer
void r12(cura::AdaptiveLayer& self, const coord_t layer_height)
{
        member(self.layer_height_) = {layer_height};
}

//= cura::AdaptiveLayerHeights::AdaptiveLayerHeights
void r13(cura::AdaptiveLayerHeights& self, const coord_t base_layer_height, const coord_t variation, const coord_t step_size, const coord_t threshold, const MeshGroup* meshgroup)
{
        member(self.base_layer_height_) = {base_layer_height};
        member(self.max_variation_) = {variation};
        member(self.step_size_) = {step_size};
        member(self.threshold_) = {threshold};
        member(self.meshgroup_) = {meshgroup};
    self.calculateAllowedLayerHeights();
    self.calculateMeshTriangleSlopes();
    self.calculateLayers();
}

//= cura::AdaptiveLayerHeights::getLayerCount
size_t r14(const cura::AdaptiveLayerHeights& self)
{
    return self.layers_.size();
}

//= cura::AdaptiveLayerHeights::getLayers
std::vector<AdaptiveLayer>* r15(cura::AdaptiveLayerHeights& self)
{
    return &self.layers_;
}

//= cura::AdaptiveLayerHeights::calculateAllowedLayerHeights
void r16(cura::AdaptiveLayerHeights& self)
{
    for (coord_t allowed_layer_height = self.base_layer_height_ + self.max_variation_; allowed_layer_height >= self.base_layer_height_ - self.max_variation_; allowed_layer_height -= self.step_size_)
    {
        if (allowed_layer_height <= 0)
        {
            break;
        }
        self.allowed_layer_heights_.push_back(allowed_layer_height);
    }
}

//= cura::AdaptiveLayerHeights::calculateLayers
void r17(cura::AdaptiveLayerHeights& self)
{
    const coord_t minimum_layer_height = *std::min_element(self.allowed_layer_heights_.begin(), self.allowed_layer_heights_.end());
    Settings const& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    auto slicing_tolerance = mesh_group_settings.get<SlicingTolerance>("slicing_tolerance");
    std::vector<size_t> triangles_of_interest;
    const coord_t model_max_z = self.meshgroup_->max().z_;
    coord_t z_level = 0;
    coord_t previous_layer_height = 0;
    const auto initial_layer_height = mesh_group_settings.get<coord_t>("layer_height_0");
    z_level += initial_layer_height;
    AdaptiveLayer adaptive_layer(initial_layer_height);
    adaptive_layer.z_position_ = z_level;
    previous_layer_height = adaptive_layer.layer_height_;
    self.layers_.push_back(adaptive_layer);
    while (z_level <= model_max_z || self.layers_.size() < 2)
    {
        double global_min_slope = std::numeric_limits<double>::max();
        bool has_added_layer = false;
        for (auto& layer_height : self.allowed_layer_heights_)
        {
            const coord_t lower_bound = z_level;
            const coord_t upper_bound = z_level + ((slicing_tolerance == SlicingTolerance::MIDDLE) ? (layer_height / 2) : layer_height);
            if (layer_height == self.allowed_layer_heights_[0])
            {
                triangles_of_interest.clear();
                for (size_t i = 0; i < self.face_min_z_values_.size(); ++i)
                {
                    if (self.face_min_z_values_[i] <= upper_bound && self.face_max_z_values_[i] >= lower_bound)
                    {
                        triangles_of_interest.push_back(i);
                    }
                }
            }
            else
            {
                const std::vector<size_t> last_triangles_of_interest = triangles_of_interest;
                triangles_of_interest.clear();
                for (const auto& i : last_triangles_of_interest)
                {
                    if (self.face_min_z_values_[i] <= upper_bound)
                    {
                        triangles_of_interest.push_back(i);
                    }
                }
            }
            if (triangles_of_interest.empty())
            {
                break;
            }
            double minimum_slope = std::numeric_limits<double>::max();
            for (const size_t& triangle_index : triangles_of_interest)
            {
                const double slope = self.face_slopes_.at(triangle_index);
                if (minimum_slope > slope)
                {
                    minimum_slope = slope;
                }
            }
            if (global_min_slope > minimum_slope)
            {
                global_min_slope = minimum_slope;
            }
            bool has_exceeded_step_size = false;
            if (previous_layer_height > layer_height && previous_layer_height - layer_height > self.step_size_)
            {
                has_exceeded_step_size = true;
            }
            else if (layer_height - previous_layer_height > self.step_size_ && layer_height > minimum_layer_height)
            {
                continue;
            }
            const double minimum_slope_tan = std::tan(minimum_slope);
            if (minimum_slope_tan == 0.0 || (layer_height / minimum_slope_tan) <= self.threshold_ || layer_height == minimum_layer_height || has_exceeded_step_size)
            {
                z_level += layer_height;
                AdaptiveLayer adaptive_layer_add(layer_height);
                adaptive_layer_add.z_position_ = z_level;
                previous_layer_height = adaptive_layer_add.layer_height_;
                self.layers_.push_back(adaptive_layer_add);
                has_added_layer = true;
                break;
            }
        }
        if (! has_added_layer)
        {
            const auto& min_layer_height = self.allowed_layer_heights_.back();
            AdaptiveLayer minimum_adaptive_layer(min_layer_height);
            z_level += min_layer_height;
            minimum_adaptive_layer.z_position_ = z_level;
            previous_layer_height = min_layer_height;
            self.layers_.push_back(minimum_adaptive_layer);
        }
    }
}

//= cura::AdaptiveLayerHeights::calculateMeshTriangleSlopes
void r18(cura::AdaptiveLayerHeights& self)
{
    for (const Mesh& mesh : Application::getInstance().current_slice_->scene.current_mesh_group->meshes)
    {
        if (! mesh.isModelMesh())
        {
            continue;
        }
        for (const MeshFace& face : mesh.faces_)
        {
            const MeshVertex& v0 = mesh.vertices_[face.vertex_index_[0]];
            const MeshVertex& v1 = mesh.vertices_[face.vertex_index_[1]];
            const MeshVertex& v2 = mesh.vertices_[face.vertex_index_[2]];
            const Point3D p0(v0.p_);
            const Point3D p1(v1.p_);
            const Point3D p2(v2.p_);
            double min_z = p0.z_;
            min_z = std::min(min_z, p1.z_);
            min_z = std::min(min_z, p2.z_);
            double max_z = p0.z_;
            max_z = std::max(max_z, p1.z_);
            max_z = std::max(max_z, p2.z_);
            const Point3D n = (p1 - p0).cross(p2 - p0);
            const Point3D normal = n.normalized();
            AngleRadians z_angle = std::acos(std::abs(normal.z_));
            if (z_angle == 0)
            {
                z_angle = std::numbers::pi;
            }
            self.face_min_z_values_.push_back(MM2INT(min_z));
            self.face_max_z_values_.push_back(MM2INT(max_z));
            self.face_slopes_.push_back(z_angle);
        }
    }
}

//END
}  // namespace ref
