// Layer data.
#include <algorithm>
#include <array>
#include <unordered_set>
#include <unordered_map>
#include <set>
#include <map>
#include <list>
#include <vector>
#include <deque>
#include <memory>
#include <numeric>
#include <optional>
#include <functional>
#include <string>
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "geometry/Polygon.h"
#include "geometry/OpenPolyline.h"
#include "geometry/SingleShape.h"
#include "geometry/MixedLinesSet.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "raft.h"
#include "Application.h"
#include "ExtruderTrain.h"
#include "FffProcessor.h"
#include "InterlockingGenerator.h"
#include "PrimeTower/PrimeTower.h"
#include "Scene.h"
#include "Slice.h"
#include "SupportInfillPart.h"
#include "TopSurface.h"
#include "WipeScriptConfig.h"
#include "communication/Communication.h"
#include "geometry/ClosedLinesSet.h"
#include "geometry/MixedLinesSet.h"
#include "geometry/OpenLinesSet.h"
#include "geometry/OpenPolyline.h"
#include "geometry/Point2LL.h"
#include "geometry/PointMatrix.h"
#include "geometry/Polygon.h"
#include "geometry/SingleShape.h"
#include "infill/DensityProvider.h"
#include "infill/LightningGenerator.h"
#include "infill/SierpinskiFillProvider.h"
#include "infill/SubDivCube.h"
#include "progress/Progress.h"
#include "raft.h"
#include "settings/Settings.h"
#include "settings/types/Angle.h"
#include "settings/types/LayerIndex.h"
#include "sliceDataStorage.h"
#include "slicer.h"
#include "utils/AABB.h"
#include "utils/AABB3D.h"
#include "utils/ExtrusionLine.h"
#include "utils/NoCopy.h"
#include "utils/VoxelUtils.h"
#include "utils/math.h"
#include "utils/polygonUtils.h"
#include <algorithm> // max
#include <cassert>
#include <map>
#include <memory>
#include <numbers>
#include <optional>
#include <range/v3/view/enumerate.hpp>
#include <range/v3/view/iota.hpp>
#include <range/v3/view/view.hpp>
#include <range/v3/view/zip.hpp>
#include <sentry.h>
#include <spdlog/spdlog.h>
#include <unordered_set>
#include <vector>
#include "sliceDataStorage.h"
#include "InterlockingGenerator.h"
#include "ref.h"

namespace ref
{
using namespace cura;

//= cura::SupportStorage::SupportStorage
void r1(cura::SupportStorage& self)
{
        member(self.generated) = false;
        member(self.layer_nr_max_filled_layer) = -1;
        member(self.cross_fill_provider) = nullptr;
}

//= cura::SliceLayerPart::getOwnInfillArea
Shape& r2(cura::SliceLayerPart& self)
{
    return const_cast<Shape&>(const_cast<const SliceLayerPart*>((&self))->getOwnInfillArea());
}

//= cura::SliceLayerPart::getOwnInfillArea
const Shape& r3(const cura::SliceLayerPart& self)
{
    if (self.infill_area_own)
    {
        return *self.infill_area_own;
    }
    else
    {
        return self.infill_area;
    }
}

//= cura::SliceLayerPart::hasWallAtInsetIndex
bool r4(const cura::SliceLayerPart& self, size_t inset_idx)
{
    for (const VariableWidthLines& lines : self.wall_toolpaths)
    {
        for (const ExtrusionLine& line : lines)
        {
            if (line.inset_idx_ == inset_idx)
            {
                return true;
            }
        }
    }
    return false;
}

//= cura::SliceLayer::getOutlines
Shape r5(const cura::SliceLayer& self, bool external_polys_only)
{
    Shape ret;
    self.getOutlines(ret, external_polys_only);
    return ret;
}

//= cura::SliceLayer::getOutlines
void r6(const cura::SliceLayer& self, Shape& result, bool external_polys_only)
{
    for (const SliceLayerPart& part : self.parts)
    {
        if (external_polys_only)
        {
            result.push_back(part.outline.outerPolygon());
        }
        else
        {
            result.push_back(part.print_outline);
        }
    }
}

//= cura::SliceMeshStorage::getExtruderIsUsed
bool r8(const cura::SliceMeshStorage& self, const size_t extruder_nr)
{
    if (! self.is_printed_ || self.settings.get<bool>("support_mesh"))
    { 
        return false;
    }
    if (self.settings.get<bool>("magic_spiralize"))
    {
        if (self.settings.get<ExtruderTrain&>("wall_0_extruder_nr").extruder_nr_ == extruder_nr)
        {
            return true;
        }
        else
        {
            return false;
        }
    }
    if (self.settings.get<ESurfaceMode>("magic_mesh_surface_mode") != ESurfaceMode::NORMAL && self.settings.get<ExtruderTrain&>("wall_0_extruder_nr").extruder_nr_ == extruder_nr)
    {
        return true;
    }
    if (self.settings.get<size_t>("wall_line_count") > 0 && self.settings.get<ExtruderTrain&>("wall_0_extruder_nr").extruder_nr_ == extruder_nr)
    {
        return true;
    }
    if ((self.settings.get<size_t>("wall_line_count") > 1 || self.settings.get<bool>("alternate_extra_perimeter"))
        && self.settings.get<ExtruderTrain&>("wall_x_extruder_nr").extruder_nr_ == extruder_nr)
    {
        return true;
    }
    if (self.settings.get<coord_t>("infill_line_distance") > 0 && self.settings.get<ExtruderTrain&>("infill_extruder_nr").extruder_nr_ == extruder_nr)
    {
        return true;
    }
    if ((self.settings.get<size_t>("top_layers") > 0 || self.settings.get<size_t>("bottom_layers") > 0) && self.settings.get<ExtruderTrain&>("top_bottom_extruder_nr").extruder_nr_ == extruder_nr)
    {
        return true;
    }
    const size_t roofing_layer_count = std::min(self.settings.get<size_t>("roofing_layer_count"), self.settings.get<size_t>("top_layers"));
    if (roofing_layer_count > 0 && self.settings.get<ExtruderTrain&>("roofing_extruder_nr").extruder_nr_ == extruder_nr)
    {
        return true;
    }
    const size_t flooring_layer_count = std::min(self.settings.get<size_t>("flooring_layer_count"), self.settings.get<size_t>("bottom_layers"));
    if (flooring_layer_count > 0 && self.settings.get<ExtruderTrain&>("flooring_extruder_nr").extruder_nr_ == extruder_nr)
    {
        return true;
    }
    return false;
}

//= cura::SliceMeshStorage::getExtruderIsUsed
bool r9(const cura::SliceMeshStorage& self, const size_t extruder_nr, const LayerIndex& layer_nr)
{
    if (layer_nr < 0 || layer_nr >= static_cast<int>(self.layers.size()))
    {
        return false;
    }
    if (! self.is_printed_ || self.settings.get<bool>("support_mesh"))
    { 
        return false;
    }
    const SliceLayer& layer = self.layers[layer_nr];
    if (self.settings.get<ExtruderTrain&>("wall_0_extruder_nr").extruder_nr_ == extruder_nr
        && (self.settings.get<size_t>("wall_line_count") > 0 || self.settings.get<size_t>("skin_outline_count") > 0))
    {
        for (const SliceLayerPart& part : layer.parts)
        {
            if ((part.hasWallAtInsetIndex(0)) || ! part.spiral_wall.empty())
            {
                return true;
            }
        }
    }
    if (self.settings.get<ESurfaceMode>("magic_mesh_surface_mode") != ESurfaceMode::NORMAL && self.settings.get<ExtruderTrain&>("wall_0_extruder_nr").extruder_nr_ == extruder_nr
        && layer.open_polylines.size() > 0)
    {
        return true;
    }
    if ((self.settings.get<size_t>("wall_line_count") > 1 || self.settings.get<bool>("alternate_extra_perimeter"))
        && self.settings.get<ExtruderTrain&>("wall_x_extruder_nr").extruder_nr_ == extruder_nr)
    {
        for (const SliceLayerPart& part : layer.parts)
        {
            if (part.hasWallAtInsetIndex(1))
            {
                return true;
            }
        }
    }
    if (self.settings.get<coord_t>("infill_line_distance") > 0 && self.settings.get<ExtruderTrain&>("infill_extruder_nr").extruder_nr_ == extruder_nr)
    {
        for (const SliceLayerPart& part : layer.parts)
        {
            if (part.getOwnInfillArea().size() > 0)
            {
                return true;
            }
        }
    }
    if (self.settings.get<ExtruderTrain&>("top_bottom_extruder_nr").extruder_nr_ == extruder_nr)
    {
        for (const SliceLayerPart& part : layer.parts)
        {
            for (const SkinPart& skin_part : part.skin_parts)
            {
                if (! skin_part.skin_fill.empty())
                {
                    return true;
                }
            }
        }
    }
    if (self.settings.get<ExtruderTrain&>("roofing_extruder_nr").extruder_nr_ == extruder_nr)
    {
        for (const SliceLayerPart& part : layer.parts)
        {
            for (const SkinPart& skin_part : part.skin_parts)
            {
                if (! skin_part.roofing_fill.empty())
                {
                    return true;
                }
            }
        }
    }
    if (self.settings.get<ExtruderTrain&>("flooring_extruder_nr").extruder_nr_ == extruder_nr)
    {
        for (const SliceLayerPart& part : layer.parts)
        {
            for (const SkinPart& skin_part : part.skin_parts)
            {
                if (! skin_part.flooring_fill.empty())
                {
                    return true;
                }
            }
        }
    }
    return false;
}

//= cura::SliceMeshStorage::isPrinted
bool r10(const cura::SliceMeshStorage& self)
{
    return self.is_printed_;
}

//= cura::SliceMeshStorage::isModelMesh
bool r11(const cura::SliceMeshStorage& self)
{
    return self.is_model_mesh_;
}

//= cura::SliceMeshStorage::getZSeamHint
Point2LL r12(const cura::SliceMeshStorage& self)
{
    Point2LL pos(self.settings.get<coord_t>("z_seam_x"), self.settings.get<coord_t>("z_seam_y"));
    if (self.settings.get<bool>("z_seam_relative"))
    {
        Point3LL middle = self.bounding_box.getMiddle();
        pos += Point2LL(middle.x_, middle.y_);
    }
    return pos;
}

//= cura::SliceDataStorage::initializeRetractionAndWipeConfigs
std::vector<RetractionAndWipeConfig> r13(cura::SliceDataStorage& self)
{
    std::vector<RetractionAndWipeConfig> ret;
    ret.resize(Application::getInstance().current_slice_->scene.extruders.size()); 
    return ret;
}

//= cura::SliceDataStorage::SliceDataStorage
void r14(cura::SliceDataStorage& self)
{
        member(self.print_layer_count) = 0;
        member(self.retraction_wipe_config_per_extruder) = self.initializeRetractionAndWipeConfigs();
        member(self.max_print_height_second_to_last_extruder) = -1;
    const Settings& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    Point3LL machine_max(mesh_group_settings.get<coord_t>("machine_width"), mesh_group_settings.get<coord_t>("machine_depth"), mesh_group_settings.get<coord_t>("machine_height"));
    Point3LL machine_min(0, 0, 0);
    if (mesh_group_settings.get<bool>("machine_center_is_zero"))
    {
        machine_max /= 2;
        machine_min -= machine_max;
    }
    self.machine_size.include(machine_min);
    self.machine_size.include(machine_max);
}

//= cura::SliceDataStorage::getLayerOutlines
Shape r15(const cura::SliceDataStorage& self, const LayerIndex layer_nr, const bool include_support, const bool include_prime_tower, const bool external_polys_only, const int extruder_nr, const bool include_models, const bool include_support_base)
{
    const Settings& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    const auto layer_type = Raft::getLayerType(layer_nr);
    switch (layer_type)
    {
    case Raft::LayerType::RaftBase:
    case Raft::LayerType::RaftInterface:
    case Raft::LayerType::RaftSurface:
    {
        const Shape* raftOutline;
        bool use_current_extruder_for_raft = extruder_nr == -1;
        switch (layer_type)
        {
        case Raft::LayerType::RaftBase:
            raftOutline = &self.raft_base_outline;
            use_current_extruder_for_raft |= extruder_nr == int(mesh_group_settings.get<ExtruderTrain&>("raft_base_extruder_nr").extruder_nr_);
            break;
        case Raft::LayerType::RaftInterface:
            raftOutline = &self.raft_interface_outline;
            use_current_extruder_for_raft |= extruder_nr == int(mesh_group_settings.get<ExtruderTrain&>("raft_interface_extruder_nr").extruder_nr_);
            break;
        case Raft::LayerType::RaftSurface:
            raftOutline = &self.raft_surface_outline;
            use_current_extruder_for_raft |= extruder_nr == int(mesh_group_settings.get<ExtruderTrain&>("raft_surface_extruder_nr").extruder_nr_);
            break;
        default:
            return Shape();
        }
        if (include_support && use_current_extruder_for_raft)
        {
            if (external_polys_only)
            {
                std::vector<SingleShape> parts = raftOutline->splitIntoParts();
                Shape result;
                for (SingleShape& part : parts)
                {
                    result.push_back(part.outerPolygon());
                }
                return result;
            }
            else
            {
                return *raftOutline;
            }
        }
        else
        {
            return Shape();
        }
        break;
    }
    case Raft::LayerType::Airgap:
    case Raft::LayerType::Model:
    {
        Shape total;
        if (include_models && layer_nr >= 0)
        {
            for (const std::shared_ptr<SliceMeshStorage>& mesh : self.meshes)
            {
                if (! mesh->isModelMesh() || (extruder_nr != -1 && extruder_nr != int(mesh->settings.get<ExtruderTrain&>("wall_0_extruder_nr").extruder_nr_)))
                {
                    continue;
                }
                const SliceLayer& layer = mesh->layers[layer_nr];
                layer.getOutlines(total, external_polys_only);
                if (mesh->settings.get<ESurfaceMode>("magic_mesh_surface_mode") != ESurfaceMode::NORMAL)
                {
                    total = total.unionPolygons(layer.open_polylines.offset(MM2INT(0.1)));
                }
            }
        }
        if (include_support && (extruder_nr == -1 || extruder_nr == int(mesh_group_settings.get<ExtruderTrain&>("support_infill_extruder_nr").extruder_nr_)))
        {
            const SupportLayer& support_layer = self.support.supportLayers[std::max(LayerIndex(0), layer_nr)];
            if (self.support.generated)
            {
                for (const SupportInfillPart& support_infill_part : support_layer.support_infill_parts)
                {
                    if (include_support_base)
                    {
                        total.push_back(support_infill_part.base_outside_contour_.value_or(support_infill_part.outline_));
                    }
                    else
                    {
                        total.push_back(support_infill_part.outline_);
                    }
                }
                total.push_back(support_layer.support_bottom);
                total.push_back(support_layer.support_roof);
            }
        }
        if (include_prime_tower && self.prime_tower_)
        {
            total.push_back(self.prime_tower_->getOccupiedOutline(layer_nr));
        }
        return total;
    }
    default:
        return Shape();
    }
}

//= cura::SliceDataStorage::getModelBoundingBox
AABB3D r16(const cura::SliceDataStorage& self)
{
    AABB3D bounding_box;
    for (const auto& mesh : self.meshes)
    {
        bounding_box.include(mesh->bounding_box);
    }
    return bounding_box;
}

//= cura::SliceDataStorage::getExtrudersUsed
std::vector<bool> r17(const cura::SliceDataStorage& self)
{
    std::vector<bool> ret;
    ret.resize(Application::getInstance().current_slice_->scene.extruders.size(), false);
    for (size_t extruder_nr = 0; extruder_nr < Application::getInstance().current_slice_->scene.extruders.size(); extruder_nr++)
    {
        ret[extruder_nr] = false;
    }
    const auto& mesh_group = Application::getInstance().current_slice_->scene.current_mesh_group;
    const Settings& mesh_group_settings = mesh_group->settings;
    const EPlatformAdhesion adhesion_type = mesh_group_settings.get<EPlatformAdhesion>("adhesion_type");
    if (adhesion_type == EPlatformAdhesion::SKIRT || adhesion_type == EPlatformAdhesion::BRIM)
    {
        for (size_t extruder_nr = 0; extruder_nr < Application::getInstance().current_slice_->scene.extruders.size(); extruder_nr++)
        {
            if (! self.skirt_brim[extruder_nr].empty())
            {
                ret[extruder_nr] = true;
            }
        }
        int skirt_brim_extruder_nr = mesh_group_settings.get<int>("skirt_brim_extruder_nr");
        if (skirt_brim_extruder_nr >= 0)
        {
            ret[skirt_brim_extruder_nr] = true;
        }
    }
    else if (adhesion_type == EPlatformAdhesion::RAFT)
    {
        ret[mesh_group_settings.get<ExtruderTrain&>("raft_base_extruder_nr").extruder_nr_] = true;
        const size_t num_interface_layers = mesh_group_settings.get<ExtruderTrain&>("raft_interface_extruder_nr").settings_.get<size_t>("raft_interface_layers");
        if (num_interface_layers > 0)
        {
            ret[mesh_group_settings.get<ExtruderTrain&>("raft_interface_extruder_nr").extruder_nr_] = true;
        }
        const size_t num_surface_layers = mesh_group_settings.get<ExtruderTrain&>("raft_surface_extruder_nr").settings_.get<size_t>("raft_surface_layers");
        if (num_surface_layers > 0)
        {
            ret[mesh_group_settings.get<ExtruderTrain&>("raft_surface_extruder_nr").extruder_nr_] = true;
        }
    }
    for (const std::shared_ptr<SliceMeshStorage>& mesh : self.meshes)
    {
        if (mesh->settings.get<bool>("support_enable") || mesh->settings.get<bool>("support_mesh") || mesh_group->has_painted_support)
        {
            ret[mesh_group_settings.get<ExtruderTrain&>("support_extruder_nr_layer_0").extruder_nr_] = true;
            ret[mesh_group_settings.get<ExtruderTrain&>("support_infill_extruder_nr").extruder_nr_] = true;
            if (mesh_group_settings.get<bool>("support_roof_enable"))
            {
                ret[mesh_group_settings.get<ExtruderTrain&>("support_roof_extruder_nr").extruder_nr_] = true;
            }
            if (mesh_group_settings.get<bool>("support_bottom_enable"))
            {
                ret[mesh_group_settings.get<ExtruderTrain&>("support_bottom_extruder_nr").extruder_nr_] = true;
            }
        }
    }
    for (const std::shared_ptr<SliceMeshStorage>& mesh : self.meshes)
    {
        for (unsigned int extruder_nr = 0; extruder_nr < ret.size(); extruder_nr++)
        {
            ret[extruder_nr] = ret[extruder_nr] || mesh->getExtruderIsUsed(extruder_nr);
        }
    }
    return ret;
}

//= cura::SliceDataStorage::getExtrudersUsed
std::vector<bool> r18(const cura::SliceDataStorage& self, const LayerIndex layer_nr)
{
    const std::vector<ExtruderTrain>& extruders = Application::getInstance().current_slice_->scene.extruders;
    std::vector<bool> ret;
    ret.resize(extruders.size(), false);
    const Settings& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    const EPlatformAdhesion adhesion_type = mesh_group_settings.get<EPlatformAdhesion>("adhesion_type");
    bool include_adhesion = true;
    bool include_helper_parts = true;
    bool include_models = true;
    if (layer_nr < 0)
    {
        include_models = false;
        if (layer_nr < -static_cast<LayerIndex>(Raft::getFillerLayerCount()))
        {
            include_helper_parts = false;
        }
    }
    else if (layer_nr > 0 || adhesion_type == EPlatformAdhesion::RAFT)
    { 
        include_adhesion = false;
    }
    if (include_adhesion)
    {
        if (layer_nr == 0 && (adhesion_type == EPlatformAdhesion::SKIRT || adhesion_type == EPlatformAdhesion::BRIM))
        {
            for (size_t extruder_nr = 0; extruder_nr < extruders.size(); ++extruder_nr)
            {
                if (! self.skirt_brim[extruder_nr].empty())
                {
                    ret[extruder_nr] = true;
                }
            }
        }
        if (adhesion_type == EPlatformAdhesion::RAFT)
        {
            const Raft::LayerType layer_type = Raft::getLayerType(layer_nr);
            if (layer_type == Raft::RaftBase)
            {
                ret[mesh_group_settings.get<ExtruderTrain&>("raft_base_extruder_nr").extruder_nr_] = true;
                for (size_t extruder_nr = 0; extruder_nr < extruders.size(); ++extruder_nr)
                {
                    if (extruders[extruder_nr].settings_.get<bool>("prime_blob_enable"))
                    {
                        ret[extruder_nr] = true;
                    }
                }
            }
            else if (layer_type == Raft::RaftInterface)
            {
                ret[mesh_group_settings.get<ExtruderTrain&>("raft_interface_extruder_nr").extruder_nr_] = true;
            }
            else if (layer_type == Raft::RaftSurface)
            {
                ret[mesh_group_settings.get<ExtruderTrain&>("raft_surface_extruder_nr").extruder_nr_] = true;
            }
        }
    }
    if (include_helper_parts)
    {
        if (layer_nr < int(self.support.supportLayers.size()))
        {
            const SupportLayer& support_layer
                = self.support.supportLayers[std::max(LayerIndex(0), layer_nr)]; 
            if (layer_nr == 0)
            {
                if (! support_layer.support_infill_parts.empty())
                {
                    ret[mesh_group_settings.get<ExtruderTrain&>("support_extruder_nr_layer_0").extruder_nr_] = true;
                }
            }
            else
            {
                if (! support_layer.support_infill_parts.empty())
                {
                    ret[mesh_group_settings.get<ExtruderTrain&>("support_infill_extruder_nr").extruder_nr_] = true;
                }
            }
            if (! support_layer.support_bottom.empty())
            {
                ret[mesh_group_settings.get<ExtruderTrain&>("support_bottom_extruder_nr").extruder_nr_] = true;
            }
            if (! support_layer.support_roof.empty())
            {
                ret[mesh_group_settings.get<ExtruderTrain&>("support_roof_extruder_nr").extruder_nr_] = true;
            }
        }
    }
    if (include_models)
    {
        for (const std::shared_ptr<SliceMeshStorage>& mesh : self.meshes)
        {
            for (unsigned int extruder_nr = 0; extruder_nr < ret.size(); extruder_nr++)
            {
                ret[extruder_nr] = ret[extruder_nr] || mesh->getExtruderIsUsed(extruder_nr, layer_nr);
            }
        }
    }
    return ret;
}

//= cura::SliceDataStorage::getExtruderPrimeBlobEnabled
bool r19(const cura::SliceDataStorage& self, const size_t extruder_nr)
{
    if (extruder_nr >= Application::getInstance().current_slice_->scene.extruders.size())
    {
        return false;
    }
    const ExtruderTrain& train = Application::getInstance().current_slice_->scene.extruders[extruder_nr];
    return train.settings_.get<bool>("prime_blob_enable");
}

//= cura::SliceDataStorage::getMachineBorder
Shape r20(const cura::SliceDataStorage& self, int checking_extruder_nr)
{
    const Settings& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    Shape border = self.getRawMachineBorder();
    Shape disallowed_areas = mesh_group_settings.get<Shape>("machine_disallowed_areas");
    disallowed_areas = disallowed_areas.unionPolygons(); 
    if (! mesh_group_settings.get<bool>("machine_center_is_zero"))
    {
        for (Polygon& poly : disallowed_areas)
        {
            for (Point2LL& p : poly)
            {
                p = Point2LL(self.machine_size.max_.x_ / 2 + p.X, self.machine_size.max_.y_ / 2 - p.Y);
            }
        }
    }
    std::vector<bool> extruder_is_used = self.getExtrudersUsed();
    constexpr coord_t prime_clearance = MM2INT(6.5);
    for (size_t extruder_nr = 0; extruder_nr < extruder_is_used.size(); extruder_nr++)
    {
        if ((checking_extruder_nr != -1 && int(extruder_nr) != checking_extruder_nr) || ! extruder_is_used[extruder_nr])
        {
            continue;
        }
        Settings& extruder_settings = Application::getInstance().current_slice_->scene.extruders[extruder_nr].settings_;
        if (! (extruder_settings.get<bool>("prime_blob_enable") && mesh_group_settings.get<bool>("extruder_prime_pos_abs")))
        {
            continue;
        }
        Point2LL prime_pos(extruder_settings.get<coord_t>("extruder_prime_pos_x"), extruder_settings.get<coord_t>("extruder_prime_pos_y"));
        if (prime_pos == Point2LL(0, 0))
        {
            continue; 
        }
        Point2LL translation(extruder_settings.get<coord_t>("machine_nozzle_offset_x"), extruder_settings.get<coord_t>("machine_nozzle_offset_y"));
        prime_pos -= translation;
        Polygon prime_polygon = PolygonUtils::makeDisc(prime_pos, prime_clearance, 64);
        disallowed_areas = disallowed_areas.unionPolygons(prime_polygon);
    }
    Shape disallowed_all_extruders;
    bool first = true;
    for (size_t extruder_nr = 0; extruder_nr < extruder_is_used.size(); extruder_nr++)
    {
        if ((checking_extruder_nr != -1 && int(extruder_nr) != checking_extruder_nr) || ! extruder_is_used[extruder_nr])
        {
            continue;
        }
        Settings& extruder_settings = Application::getInstance().current_slice_->scene.extruders[extruder_nr].settings_;
        Point2LL translation(extruder_settings.get<coord_t>("machine_nozzle_offset_x"), extruder_settings.get<coord_t>("machine_nozzle_offset_y"));
        Shape extruder_border = disallowed_areas;
        extruder_border.translate(translation);
        if (first)
        {
            disallowed_all_extruders = extruder_border;
            first = false;
        }
        else
        {
            disallowed_all_extruders = disallowed_all_extruders.unionPolygons(extruder_border);
        }
    }
    disallowed_all_extruders = disallowed_all_extruders.processEvenOdd(ClipperLib::pftNonZero); 
    Shape border_all_extruders = border; 
    if (mesh_group_settings.has("nozzle_offsetting_for_disallowed_areas") && mesh_group_settings.get<bool>("nozzle_offsetting_for_disallowed_areas"))
    {
        for (size_t extruder_nr = 0; extruder_nr < extruder_is_used.size(); extruder_nr++)
        {
            if ((checking_extruder_nr != -1 && int(extruder_nr) != checking_extruder_nr) || ! extruder_is_used[extruder_nr])
            {
                continue;
            }
            Settings& extruder_settings = Application::getInstance().current_slice_->scene.extruders[extruder_nr].settings_;
            Point2LL translation(extruder_settings.get<coord_t>("machine_nozzle_offset_x"), extruder_settings.get<coord_t>("machine_nozzle_offset_y"));
            for (size_t other_extruder_nr = 0; other_extruder_nr < extruder_is_used.size(); other_extruder_nr++)
            {
                if (other_extruder_nr == extruder_nr)
                {
                    continue;
                }
                Settings& other_extruder_settings = Application::getInstance().current_slice_->scene.extruders[other_extruder_nr].settings_;
                Point2LL other_translation(other_extruder_settings.get<coord_t>("machine_nozzle_offset_x"), other_extruder_settings.get<coord_t>("machine_nozzle_offset_y"));
                Shape translated_border = border;
                translated_border.translate(translation - other_translation);
                border_all_extruders = border_all_extruders.intersection(translated_border);
            }
        }
    }
    border = border_all_extruders.difference(disallowed_all_extruders);
    return border;
}

//= cura::SliceDataStorage::getRawMachineBorder
Shape r21(const cura::SliceDataStorage& self)
{
    const Settings& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    Shape border;
    border.emplace_back();
    Polygon& outline = border.back();
    switch (mesh_group_settings.get<BuildPlateShape>("machine_shape"))
    {
    case BuildPlateShape::ELLIPTIC:
    {
        const coord_t width = self.machine_size.max_.x_ - self.machine_size.min_.x_;
        const coord_t depth = self.machine_size.max_.y_ - self.machine_size.min_.y_;
        constexpr unsigned int circle_resolution = 50;
        for (unsigned int i = 0; i < circle_resolution; i++)
        {
            const double angle = std::numbers::pi * 2 * i / circle_resolution;
            outline.emplace_back(self.machine_size.getMiddle().x_ + std::cos(angle) * width / 2, self.machine_size.getMiddle().y_ + std::sin(angle) * depth / 2);
        }
        break;
    }
    case BuildPlateShape::RECTANGULAR:
    default:
        outline = self.machine_size.flatten().toPolygon();
        break;
    }
    return border;
}

//= cura::SliceDataStorage::initializePrimeTower
void r22(cura::SliceDataStorage& self)
{
    self.prime_tower_ = PrimeTower::createPrimeTower(self);
}

//= cura::SupportLayer::excludeAreasFromSupportInfillAreas
void r23(cura::SupportLayer& self, const Shape& exclude_polygons, const AABB& exclude_polygons_boundary_box)
{
    std::list<size_t> to_remove_part_indices; 
    unsigned int part_count_to_check = self.support_infill_parts.size(); 
    for (size_t part_idx = 0; part_idx < part_count_to_check; ++part_idx)
    {
        SupportInfillPart& support_infill_part = self.support_infill_parts[part_idx];
        if (! exclude_polygons_boundary_box.hit(support_infill_part.outline_boundary_box_))
        {
            continue;
        }
        Shape result_polygons = support_infill_part.outline_.difference(exclude_polygons);
        if (result_polygons.empty())
        {
            to_remove_part_indices.push_back(part_idx);
            continue;
        }
        std::vector<SingleShape> smaller_support_islands = result_polygons.splitIntoParts();
        if (smaller_support_islands.empty())
        { 
            to_remove_part_indices.push_back(part_idx);
            continue;
        }
        support_infill_part.outline_ = smaller_support_islands[0];
        for (size_t support_island_idx = 1; support_island_idx < smaller_support_islands.size(); ++support_island_idx)
        {
            const SingleShape& smaller_island = smaller_support_islands[support_island_idx];
            self.support_infill_parts
                .emplace_back(smaller_island, support_infill_part.support_line_width_, support_infill_part.use_fractional_config_, support_infill_part.inset_width_to_generate_);
        }
    }
    while (! to_remove_part_indices.empty())
    {
        const size_t remove_idx = to_remove_part_indices.back();
        to_remove_part_indices.pop_back();
        if (self.support_infill_parts.empty())
        {
            continue;
        }
        if (remove_idx < self.support_infill_parts.size() - 1)
        { 
            self.support_infill_parts[remove_idx] = std::move(self.support_infill_parts.back());
        }
        self.support_infill_parts.pop_back(); 
    }
}

//= cura::SupportLayer::fillInfillParts
void r24(cura::SupportLayer& self, const LayerIndex layer_nr, const std::vector<Shape>& support_fill_per_layer, const coord_t infill_layer_height, const std::vector<std::shared_ptr<SliceMeshStorage>>& meshes, const coord_t support_line_width, const coord_t wall_thickness, const coord_t grow_layer_above , const bool unionAll , const coord_t custom_line_distance)
{
    Shape overhang_z_dist_above;
    for (const auto& mesh : meshes)
    {
        const coord_t mesh_z_distance_top = mesh->settings.get<coord_t>("support_top_distance");
        const size_t overhang_layer_nr = layer_nr + (mesh_z_distance_top / infill_layer_height) + 1;
        if (overhang_layer_nr < mesh->overhang_areas.size())
        {
            overhang_z_dist_above.push_back(mesh->overhang_areas[overhang_layer_nr]);
        }
    }
    overhang_z_dist_above = overhang_z_dist_above.unionPolygons();
    const auto all_support_areas_in_layer
        = { support_fill_per_layer[layer_nr].intersection(overhang_z_dist_above), support_fill_per_layer[layer_nr].difference(overhang_z_dist_above) };
    bool use_fractional_config = true;
    for (auto& support_areas : all_support_areas_in_layer)
    {
        for (const SingleShape& island_outline : support_areas.splitIntoParts(unionAll))
        {
            self.support_infill_parts.emplace_back(island_outline, support_line_width, use_fractional_config, wall_thickness, custom_line_distance);
        }
        use_fractional_config = false;
    }
}

//= cura::SupportLayer::fillInfillParts
void r25(cura::SupportLayer& self, const Shape& area, const coord_t support_line_width, const coord_t wall_thickness, const bool use_fractional_config, const bool unionAll, const coord_t custom_line_distance)
{
    for (const SingleShape& island_outline : area.splitIntoParts(unionAll))
    {
        self.support_infill_parts.emplace_back(island_outline, support_line_width, use_fractional_config, wall_thickness, custom_line_distance);
    }
}

//= cura::ExtruderTrain::ExtruderTrain
void r26(cura::ExtruderTrain& self, const size_t extruder_nr, Settings* parent_settings)
{
        member(self.extruder_nr_) = extruder_nr;
    self.settings_.setParent(parent_settings);
}

//= cura::InterlockingGenerator::generateInterlockingStructure
void r27(std::vector<Slicer*>& volumes)
{
    Settings& global_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    const PointMatrix rotation(global_settings.get<AngleDegrees>("interlocking_orientation"));
    const coord_t beam_layer_count = global_settings.get<int>("interlocking_beam_layer_count");
    const int interface_depth = global_settings.get<int>("interlocking_depth");
    const int boundary_avoidance = global_settings.get<int>("interlocking_boundary_avoidance");
    for (size_t mesh_a_idx = 0; mesh_a_idx < volumes.size(); mesh_a_idx++)
    {
        Slicer& mesh_a = *volumes[mesh_a_idx];
        size_t extruder_nr_a = mesh_a.mesh->settings_.get<ExtruderTrain&>("wall_0_extruder_nr").extruder_nr_;
        for (size_t mesh_b_idx = mesh_a_idx + 1; mesh_b_idx < volumes.size(); mesh_b_idx++)
        {
            Slicer& mesh_b = *volumes[mesh_b_idx];
            size_t extruder_nr_b = mesh_b.mesh->settings_.get<ExtruderTrain&>("wall_0_extruder_nr").extruder_nr_;
            if (! mesh_a.mesh->isModelMesh() || ! mesh_b.mesh->isModelMesh())
            {
                continue;
            }
            if (extruder_nr_a == extruder_nr_b || ! mesh_a.mesh->getAABB().expand(cura::InterlockingGenerator::ignored_gap_).hit(mesh_b.mesh->getAABB()))
            {
                continue;
            }
            coord_t beam_width_a = mesh_a.mesh->settings_.get<coord_t>("interlocking_beam_width");
            coord_t beam_width_b = mesh_b.mesh->settings_.get<coord_t>("interlocking_beam_width");
            const DilationKernel interface_dilation(GridPoint3(interface_depth, interface_depth, interface_depth), DilationKernel::Type::PRISM);
            const bool air_filtering = boundary_avoidance > 0;
            const DilationKernel air_dilation(GridPoint3(boundary_avoidance, boundary_avoidance, boundary_avoidance), DilationKernel::Type::PRISM);
            const coord_t cell_width = beam_width_a + beam_width_b;
            const Point3LL cell_size(cell_width, cell_width, 2 * beam_layer_count);
            InterlockingGenerator gen(mesh_a, mesh_b, beam_width_a, beam_width_b, rotation, cell_size, beam_layer_count, interface_dilation, air_dilation, air_filtering);
            gen.generateInterlockingStructure();
        }
    }
}

//= cura::InterlockingGenerator::growBorderAreasPerpendicular
std::pair<Shape, Shape> r28(const cura::InterlockingGenerator& self, const Shape& a, const Shape& b, const coord_t& detect)
{
    const coord_t min_line = std::min(self.mesh_a_.mesh->settings_.get<coord_t>("min_wall_line_width"), self.mesh_b_.mesh->settings_.get<coord_t>("min_wall_line_width"));
    const Shape total_shrunk = a.offset(min_line).unionPolygons(b.offset(min_line)).offset(2 * -min_line);
    Shape from_border_a = a.difference(total_shrunk);
    Shape from_border_b = b.difference(total_shrunk);
    Shape temp_a, temp_b;
    for (coord_t i = 0; i < (detect / min_line) + 2; ++i)
    {
        temp_a = from_border_a.offset(min_line);
        temp_b = from_border_b.offset(min_line);
        from_border_a = temp_a.difference(temp_b);
        from_border_b = temp_b.difference(temp_a);
    }
    return { from_border_a, from_border_b };
}

//= cura::InterlockingGenerator::generateInterlockingStructure
void r30(const cura::InterlockingGenerator& self)
{
    std::vector<std::unordered_set<GridPoint3>> voxels_per_mesh = self.getShellVoxels(self.interface_dilation_);
    std::unordered_set<GridPoint3>& has_any_mesh = voxels_per_mesh[0];
    std::unordered_set<GridPoint3>& has_all_meshes = voxels_per_mesh[1];
    has_any_mesh.merge(has_all_meshes); 
    const std::vector<Shape> layer_regions = self.computeUnionedVolumeRegions();
    if (self.air_filtering_)
    {
        std::unordered_set<GridPoint3> air_cells;
        self.addBoundaryCells(layer_regions, self.air_dilation_, air_cells);
        for (const GridPoint3& p : air_cells)
        {
            has_all_meshes.erase(p);
        }
        self.handleThinAreas(has_all_meshes);
    }
    self.applyMicrostructureToOutlines(has_all_meshes, layer_regions);
}

//= cura::InterlockingGenerator::getShellVoxels
std::vector<std::unordered_set<GridPoint3>> r31(const cura::InterlockingGenerator& self, const DilationKernel& kernel)
{
    std::vector<std::unordered_set<GridPoint3>> voxels_per_mesh(2);
    for (size_t mesh_idx = 0; mesh_idx < 2; mesh_idx++)
    {
        Slicer* mesh = (mesh_idx == 0) ? &self.mesh_a_ : &self.mesh_b_;
        std::unordered_set<GridPoint3>& mesh_voxels = voxels_per_mesh[mesh_idx];
        std::vector<Shape> rotated_polygons_per_layer(mesh->layers.size());
        for (size_t layer_nr = 0; layer_nr < mesh->layers.size(); layer_nr++)
        {
            SlicerLayer& layer = mesh->layers[layer_nr];
            rotated_polygons_per_layer[layer_nr] = layer.polygons_;
            rotated_polygons_per_layer[layer_nr].applyMatrix(self.rotation_);
        }
        self.addBoundaryCells(rotated_polygons_per_layer, kernel, mesh_voxels);
    }
    return voxels_per_mesh;
}

//= cura::InterlockingGenerator::addBoundaryCells
void r32(const cura::InterlockingGenerator& self, const std::vector<Shape>& layers, const DilationKernel& kernel, std::unordered_set<GridPoint3>& cells)
{
    auto voxel_emplacer = [&cells](GridPoint3 p)
    {
        cells.emplace(p);
        return true;
    };
    for (size_t layer_nr = 0; layer_nr < layers.size(); layer_nr++)
    {
        const coord_t z = static_cast<coord_t>(layer_nr);
        self.vu_.walkDilatedPolygons(layers[layer_nr], z, kernel, voxel_emplacer);
        Shape skin = layers[layer_nr];
        if (layer_nr > 0)
        {
            skin = skin.xorPolygons(layers[layer_nr - 1]);
        }
        skin = skin.offset(-self.cell_size_.x_ / 2).offset(self.cell_size_.x_ / 2); 
        self.vu_.walkDilatedAreas(skin, z, kernel, voxel_emplacer);
    }
}

//= cura::InterlockingGenerator::computeUnionedVolumeRegions
std::vector<Shape> r33(const cura::InterlockingGenerator& self)
{
    const auto max_layer_count = std::max(self.mesh_a_.layers.size(), self.mesh_b_.layers.size()) + 1; 
    std::vector<Shape> layer_regions(max_layer_count);
    for (LayerIndex layer_nr = 0; layer_nr < LayerIndex(max_layer_count); layer_nr++)
    {
        Shape& layer_region = layer_regions[static_cast<size_t>(layer_nr)];
        for (Slicer* mesh : { &self.mesh_a_, &self.mesh_b_ })
        {
            if (layer_nr >= mesh->layers.size())
            {
                break;
            }
            const SlicerLayer& layer = mesh->layers[static_cast<size_t>(layer_nr)];
            layer_region.push_back(layer.polygons_);
        }
        layer_region = layer_region.offset(self.ignored_gap_).offset(-self.ignored_gap_); 
        layer_region.applyMatrix(self.rotation_);
    }
    return layer_regions;
}

//= cura::InterlockingGenerator::generateMicrostructure
std::vector<std::vector<Shape>> r34(const cura::InterlockingGenerator& self)
{
    std::vector<std::vector<Shape>> cell_area_per_mesh_per_layer;
    cell_area_per_mesh_per_layer.resize(2);
    cell_area_per_mesh_per_layer[0].resize(2);
    const coord_t beam_w_sum = self.beam_width_a_ + self.beam_width_b_;
    const coord_t middle = self.cell_size_.x_ * self.beam_width_a_ / beam_w_sum;
    const coord_t width[2] = { middle, self.cell_size_.x_ - middle };
    for (size_t mesh_idx : { 0ul, 1ul })
    {
        Point2LL offset(mesh_idx ? middle : 0, 0);
        Point2LL area_size(width[mesh_idx], self.cell_size_.y_);
        Polygon& poly = cell_area_per_mesh_per_layer[0][mesh_idx].newLine();
        poly.emplace_back(offset);
        poly.emplace_back(offset + Point2LL(area_size.X, 0));
        poly.emplace_back(offset + area_size);
        poly.emplace_back(offset + Point2LL(0, area_size.Y));
    }
    cell_area_per_mesh_per_layer[1] = cell_area_per_mesh_per_layer[0];
    for (Shape& polys : cell_area_per_mesh_per_layer[1])
    {
        for (Polygon& poly : polys)
        {
            for (Point2LL& p : poly)
            {
                std::swap(p.X, p.Y);
            }
        }
    }
    return cell_area_per_mesh_per_layer;
}

//= cura::InterlockingGenerator::applyMicrostructureToOutlines
void r35(const cura::InterlockingGenerator& self, const std::unordered_set<GridPoint3>& cells, const std::vector<Shape>& layer_regions)
{
    std::vector<std::vector<Shape>> cell_area_per_mesh_per_layer = self.generateMicrostructure();
    const PointMatrix unapply_rotation = self.rotation_.inverse();
    const size_t max_layer_count = std::max(self.mesh_a_.layers.size(), self.mesh_b_.layers.size());
    std::vector<Shape> structure_per_layer[2]; 
    size_t num_interlocking_layers = (max_layer_count + static_cast<size_t>(self.beam_layer_count_) - 1ul) / static_cast<size_t>(self.beam_layer_count_);
    structure_per_layer[0].resize(num_interlocking_layers);
    structure_per_layer[1].resize(num_interlocking_layers);
    for (const GridPoint3& grid_loc : cells)
    {
        Point3LL bottom_corner = self.vu_.toLowerCorner(grid_loc);
        for (size_t mesh_idx = 0; mesh_idx < 2; mesh_idx++)
        {
            for (LayerIndex layer_nr = bottom_corner.z_; layer_nr < bottom_corner.z_ + self.cell_size_.z_ && layer_nr < max_layer_count; layer_nr += self.beam_layer_count_)
            {
                Shape areas_here = cell_area_per_mesh_per_layer[static_cast<size_t>(layer_nr / self.beam_layer_count_) % cell_area_per_mesh_per_layer.size()][mesh_idx];
                areas_here.translate(Point2LL(bottom_corner.x_, bottom_corner.y_));
                structure_per_layer[mesh_idx][static_cast<size_t>(layer_nr / self.beam_layer_count_)].push_back(areas_here);
            }
        }
    }
    for (size_t mesh_idx = 0; mesh_idx < 2; mesh_idx++)
    {
        for (size_t layer_nr = 0; layer_nr < structure_per_layer[mesh_idx].size(); layer_nr++)
        {
            Shape& layer_structure = structure_per_layer[mesh_idx][layer_nr];
            layer_structure = layer_structure.unionPolygons();
            layer_structure.applyMatrix(unapply_rotation);
        }
    }
    for (size_t mesh_idx = 0; mesh_idx < 2; mesh_idx++)
    {
        Slicer* mesh = (mesh_idx == 0) ? &self.mesh_a_ : &self.mesh_b_;
        for (size_t layer_nr = 0; layer_nr < max_layer_count; layer_nr++)
        {
            if (layer_nr >= mesh->layers.size())
            {
                break;
            }
            Shape layer_outlines = layer_regions[layer_nr];
            layer_outlines.applyMatrix(unapply_rotation);
            const Shape areas_here = structure_per_layer[mesh_idx][layer_nr / static_cast<size_t>(self.beam_layer_count_)].intersection(layer_outlines);
            const Shape& areas_other = structure_per_layer[! mesh_idx][layer_nr / static_cast<size_t>(self.beam_layer_count_)];
            SlicerLayer& layer = mesh->layers[layer_nr];
            layer.polygons_ = layer.polygons_
                                  .difference(areas_other) 
                                  .unionPolygons(areas_here); 
        }
    }
}

//= cura::Scene::getAllSettingsString
const std::string r37(const cura::Scene& self)
{
    std::stringstream output;
    output << self.settings.getAllSettingsString(); 
    for (size_t extruder_nr = 0; extruder_nr < self.extruders.size(); extruder_nr++)
    {
        output << " -e" << extruder_nr << self.extruders[extruder_nr].settings_.getAllSettingsString();
    }
    for (size_t mesh_group_index = 0; mesh_group_index < self.mesh_groups.size(); mesh_group_index++)
    {
        if (mesh_group_index == 0)
        {
            output << " -g";
        }
        else
        {
            output << " --next";
        }
        const MeshGroup& mesh_group = self.mesh_groups[mesh_group_index];
        output << mesh_group.settings.getAllSettingsString();
        for (size_t mesh_index = 0; mesh_index < mesh_group.meshes.size(); mesh_index++)
        {
            const Mesh& mesh = mesh_group.meshes[mesh_index];
            output << " -e" << mesh.settings_.get<size_t>("extruder_nr") << " -l \"" << mesh_index << "\"" << mesh.settings_.getAllSettingsString();
        }
    }
    output << "\n";
    return output.str();
}

//= cura::Scene::processMeshGroup
void r38(cura::Scene& self, MeshGroup& mesh_group)
{
    FffProcessor* fff_processor = FffProcessor::getInstance();
    fff_processor->time_keeper.restart();
    TimeKeeper time_keeper_total;
    bool empty = true;
    for (Mesh& mesh : mesh_group.meshes)
    {
        if (mesh.isModelMesh())
        {
            empty = false;
            break;
        }
    }
    if (empty)
    {
        Progress::messageProgress(Progress::Stage::FINISH, 1, 1); 
        return;
    }
    SliceDataStorage storage;
    if (! fff_processor->polygon_generator.generateAreas(storage, &mesh_group, fff_processor->time_keeper))
    {
        return;
    }
    Progress::messageProgressStage(Progress::Stage::EXPORT, &fff_processor->time_keeper);
    fff_processor->gcode_writer.writeGCode(storage, fff_processor->time_keeper);
    Progress::messageProgress(Progress::Stage::FINISH, 1, 1); 
    Application::getInstance().communication_->sendOptimizedLayerData();
}

//= cura::Slice::reset
void r41(cura::Slice& self)
{
    self.scene.extruders.clear();
    self.scene.mesh_groups.clear();
    self.scene.settings = Settings();
}

//END
}  // namespace ref
