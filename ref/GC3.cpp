// Writing.
#include <algorithm>
#include <array>
#include <unordered_set>
#include <unordered_map>
#include <set>
#include <map>
#include <list>
#include <vector>
#include <deque>
#include <memory>
#include <numeric>
#include <optional>
#include <functional>
#include <string>
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "geometry/Polygon.h"
#include "geometry/OpenPolyline.h"
#include "geometry/SingleShape.h"
#include "geometry/MixedLinesSet.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "raft.h"
#include "Application.h"
#include "ConicalOverhang.h"
#include "ExtruderTrain.h"
#include "FffGcodeWriter.h"
#include "FffPolygonGenerator.h"
#include "FffProcessor.h"
#include "ForceRetract.h"
#include "InfillOrderOptimizer.h"
#include "InsetOrderOptimizer.h"
#include "InterlockingGenerator.h"
#include "LayerPlan.h"
#include "MeshGroup.h"
#include "MeshMaterialSplitter.h"
#include "Mold.h"
#include "PrimeTower/PrimeTower.h"
#include "PrintFeature.h"
#include "SkirtBrim.h"
#include "Slice.h"
#include "TextureDataProvider.h"
#include "TopSurface.h"
#include "TreeSupport.h"
#include "WallToolPaths.h"
#include "WallsComputation.h"
#include "arachne/SkeletalTrapezoidation.h"
#include "bridge/bridge.h"
#include "communication/Communication.h"
#include "geometry/LinesSet.h"
#include "geometry/OpenLinesSet.h"
#include "geometry/OpenPolyline.h"
#include "geometry/PointMatrix.h"
#include "infill.h"
#include "infill/DensityProvider.h"
#include "infill/ImageBasedDensityProvider.h"
#include "infill/LightningGenerator.h"
#include "infill/SierpinskiFillProvider.h"
#include "infill/SubDivCube.h"
#include "infill/UniformDensityProvider.h"
#include "layerPart.h"
#include "multiVolumes.h"
#include "progress/Progress.h"
#include "progress/ProgressEstimator.h"
#include "progress/ProgressEstimatorLinear.h"
#include "progress/ProgressStageEstimator.h"
#include "raft.h"
#include "settings/AdaptiveLayerHeights.h"
#include "settings/EnumSettings.h"
#include "settings/types/Angle.h"
#include "settings/types/LayerIndex.h"
#include "settings/types/Ratio.h"
#include "skin.h"
#include "sliceDataStorage.h"
#include "slicer.h"
#include "support.h"
#include "utils/NoCopy.h"
#include "utils/Simplify.h"
#include "utils/ThreadPool.h"
#include "utils/algorithm.h"
#include "utils/gettime.h"
#include "utils/linearAlg2D.h"
#include "utils/math.h"
#include "utils/orderOptimizer.h"
#include "utils/polygonUtils.h"
#include "utils/views/convert.h"
#include "utils/views/dfs.h"
#include <algorithm>
#include <atomic>
#include <cmath> // sqrt, round
#include <cura-formulae-engine/eval.h>
#include <deque>
#include <fstream> // ifstream.good()
#include <functional>
#include <limits> // numeric_limits
#include <list>
#include <map> // multimap (ordered map allowing duplicate keys)
#include <memory>
#include <numbers>
#include <numeric>
#include <optional>
#include <range/v3/algorithm/all_of.hpp>
#include <range/v3/algorithm/any_of.hpp>
#include <range/v3/algorithm/find_if.hpp>
#include <range/v3/algorithm/max.hpp>
#include <range/v3/algorithm/sort.hpp>
#include <range/v3/algorithm/stable_sort.hpp>
#include <range/v3/range/conversion.hpp>
#include <range/v3/view/addressof.hpp>
#include <range/v3/view/any_view.hpp>
#include <range/v3/view/chunk_by.hpp>
#include <range/v3/view/concat.hpp>
#include <range/v3/view/drop.hpp>
#include <range/v3/view/drop_last.hpp>
#include <range/v3/view/enumerate.hpp>
#include <range/v3/view/filter.hpp>
#include <range/v3/view/join.hpp>
#include <range/v3/view/remove_if.hpp>
#include <range/v3/view/reverse.hpp>
#include <range/v3/view/slice.hpp>
#include <range/v3/view/sliding.hpp>
#include <range/v3/view/take.hpp>
#include <range/v3/view/take_exactly.hpp>
#include <range/v3/view/transform.hpp>
#include <range/v3/view/zip.hpp>
#include <scripta/logger.h>
#include <spdlog/spdlog.h>
#include <tuple>
#include <unordered_set>
#include <utility> // pair
#include "FffProcessor.h"
#include "ref.h"

namespace ref
{
using namespace cura;

//= cura::FffGcodeWriter::findSpiralizedLayerSeamVertexIndex
unsigned int r3(cura::FffGcodeWriter& self, const SliceDataStorage& storage, const SliceMeshStorage& mesh, const int layer_nr, const int last_layer_nr)
{
    const SliceLayer& layer = mesh.layers[layer_nr];
    if (last_layer_nr < 0)
    {
        Point2LL seam_pos(0, 0);
        if (mesh.settings.get<EZSeamType>("z_seam_type") == EZSeamType::USER_SPECIFIED)
        {
            seam_pos = mesh.getZSeamHint();
        }
        return PolygonUtils::findClosest(seam_pos, layer.parts[0].spiral_wall[0]).point_idx_;
    }
    else
    {
        const Polygon& last_wall = (*storage.spiralize_wall_outlines[last_layer_nr])[0];
        const Polygon& wall = layer.parts[0].spiral_wall[0];
        const size_t n_points = wall.size();
        const Point2LL last_wall_seam_vertex = last_wall[storage.spiralize_seam_vertex_indices[last_layer_nr]];
        int seam_vertex_idx = PolygonUtils::findNearestVert(last_wall_seam_vertex, wall);
        if (vSize(last_wall_seam_vertex - wall[seam_vertex_idx]) >= mesh.settings.get<coord_t>("meshfix_maximum_resolution"))
        {
            Point2LL last_wall_seam_vertex_inward_normal = PolygonUtils::getVertexInwardNormal(last_wall, storage.spiralize_seam_vertex_indices[last_layer_nr]);
            Point2LL last_wall_seam_vertex_vector = last_wall_seam_vertex + last_wall_seam_vertex_inward_normal;
            double a = LinearAlg2D::getAngleLeft(last_wall_seam_vertex_vector, last_wall_seam_vertex, wall[(seam_vertex_idx + 1) % n_points]);
            if (a <= 0 || a >= std::numbers::pi)
            {
                seam_vertex_idx = (seam_vertex_idx + 1) % n_points;
                a = LinearAlg2D::getAngleLeft(last_wall_seam_vertex_vector, last_wall_seam_vertex, wall[(seam_vertex_idx + 1) % n_points]);
            }
        }
        return seam_vertex_idx;
    }
}

//= cura::FffGcodeWriter::findLayerSeamsForSpiralize
void r4(cura::FffGcodeWriter& self, SliceDataStorage& storage, size_t total_layers)
{
    storage.spiralize_wall_outlines.assign(total_layers, nullptr); 
    storage.spiralize_seam_vertex_indices.assign(total_layers, 0);
    int last_layer_nr = -1; 
    for (unsigned layer_nr = 0; layer_nr < total_layers; ++layer_nr)
    {
        bool done_this_layer = false;
        const std::vector<ExtruderUse> extruder_order = self.extruder_order_per_layer.get(layer_nr);
        for (unsigned int extruder_idx = 0; ! done_this_layer && extruder_idx < extruder_order.size(); ++extruder_idx)
        {
            const size_t extruder_nr = extruder_order[extruder_idx].extruder_nr;
            const std::vector<size_t>& mesh_order = self.mesh_order_per_extruder[extruder_nr];
            for (unsigned int mesh_idx : mesh_order)
            {
                SliceMeshStorage& mesh = *storage.meshes[mesh_idx];
                if (! done_this_layer && mesh.layers.size() > layer_nr)
                {
                    SliceLayer& layer = mesh.layers[layer_nr];
                    if (! layer.parts.empty() && ! layer.parts[0].spiral_wall.empty())
                    {
                        storage.spiralize_seam_vertex_indices[layer_nr] = self.findSpiralizedLayerSeamVertexIndex(storage, mesh, layer_nr, last_layer_nr);
                        storage.spiralize_wall_outlines[layer_nr] = &layer.parts[0].spiral_wall;
                        last_layer_nr = layer_nr;
                        done_this_layer = true;
                    }
                }
            }
        }
    }
}

//= cura::FffGcodeWriter::setConfigFanSpeedLayerTime
void r5(cura::FffGcodeWriter& self)
{
    for (const ExtruderTrain& train : Application::getInstance().current_slice_->scene.extruders)
    {
        self.fan_speed_layer_time_settings_per_extruder.emplace_back();
        FanSpeedLayerTimeSettings& fan_speed_layer_time_settings = self.fan_speed_layer_time_settings_per_extruder.back();
        fan_speed_layer_time_settings.cool_min_layer_time = train.settings_.get<Duration>("cool_min_layer_time");
        fan_speed_layer_time_settings.cool_min_layer_time_overhang = train.settings_.get<Duration>("cool_min_layer_time_overhang");
        fan_speed_layer_time_settings.cool_min_layer_time_overhang_min_segment_length = train.settings_.get<coord_t>("cool_min_layer_time_overhang_min_segment_length");
        fan_speed_layer_time_settings.cool_min_layer_time_fan_speed_max = train.settings_.get<Duration>("cool_min_layer_time_fan_speed_max");
        fan_speed_layer_time_settings.cool_fan_speed_0 = train.settings_.get<Ratio>("cool_fan_speed_0") * 100.0;
        fan_speed_layer_time_settings.cool_fan_speed_min = train.settings_.get<Ratio>("cool_fan_speed_min") * 100.0;
        fan_speed_layer_time_settings.cool_fan_speed_max = train.settings_.get<Ratio>("cool_fan_speed_max") * 100.0;
        fan_speed_layer_time_settings.cool_min_speed = train.settings_.get<Velocity>("cool_min_speed");
        fan_speed_layer_time_settings.cool_fan_full_layer = train.settings_.get<LayerIndex>("cool_fan_full_layer");
        if (! train.settings_.get<bool>("cool_fan_enabled"))
        {
            fan_speed_layer_time_settings.cool_fan_speed_0 = 0;
            fan_speed_layer_time_settings.cool_fan_speed_min = 0;
            fan_speed_layer_time_settings.cool_fan_speed_max = 0;
        }
    }
}

//= cura::retractionAndWipeConfigFromSettings
void r6(const Settings& settings, RetractionAndWipeConfig* config)
{
    RetractionConfig& retraction_config = config->retraction_config;
    retraction_config.distance = (settings.get<bool>("retraction_enable")) ? settings.get<double>("retraction_amount") : 0; 
    retraction_config.retract_during_travel = settings.get<Ratio>("retraction_during_travel_ratio");
    retraction_config.keep_retracting_during_travel = settings.get<bool>("keep_retracting_during_travel");
    retraction_config.prime_during_travel = settings.get<Ratio>("prime_during_travel_ratio");
    retraction_config.prime_volume = settings.get<double>("retraction_extra_prime_amount"); 
    retraction_config.speed = settings.get<Velocity>("retraction_retract_speed");
    retraction_config.primeSpeed = settings.get<Velocity>("retraction_prime_speed");
    retraction_config.zHop = settings.get<coord_t>("retraction_hop");
    retraction_config.retraction_min_travel_distance = settings.get<coord_t>("retraction_min_travel");
    retraction_config.retraction_extrusion_window = settings.get<double>("retraction_extrusion_window"); 
    retraction_config.retraction_count_max = settings.get<size_t>("retraction_count_max");
    config->retraction_hop_after_extruder_switch = settings.get<bool>("retraction_hop_after_extruder_switch");
    config->switch_extruder_extra_prime_amount = settings.get<double>("switch_extruder_extra_prime_amount");
    RetractionConfig& switch_retraction_config = config->extruder_switch_retraction_config;
    switch_retraction_config.distance = settings.get<double>("switch_extruder_retraction_amount"); 
    switch_retraction_config.prime_volume = 0.0;
    switch_retraction_config.speed = settings.get<Velocity>("switch_extruder_retraction_speed");
    switch_retraction_config.primeSpeed = settings.get<Velocity>("switch_extruder_prime_speed");
    switch_retraction_config.zHop = settings.get<coord_t>("retraction_hop_after_extruder_switch_height");
    switch_retraction_config.retraction_min_travel_distance = 0; 
    switch_retraction_config.retraction_extrusion_window
        = 99999.9; 
    switch_retraction_config.retraction_count_max = 9999999; 
    WipeScriptConfig& wipe_config = config->wipe_config;
    wipe_config.retraction_enable = settings.get<bool>("wipe_retraction_enable");
    wipe_config.retraction_config.distance = settings.get<double>("wipe_retraction_amount");
    wipe_config.retraction_config.speed = settings.get<Velocity>("wipe_retraction_retract_speed");
    wipe_config.retraction_config.primeSpeed = settings.get<Velocity>("wipe_retraction_prime_speed");
    wipe_config.retraction_config.prime_volume = settings.get<double>("wipe_retraction_extra_prime_amount");
    wipe_config.retraction_config.retraction_min_travel_distance = 0;
    wipe_config.retraction_config.retraction_extrusion_window = std::numeric_limits<double>::max();
    wipe_config.retraction_config.retraction_count_max = std::numeric_limits<size_t>::max();
    wipe_config.pause = settings.get<Duration>("wipe_pause");
    wipe_config.hop_enable = settings.get<bool>("wipe_hop_enable");
    wipe_config.hop_amount = settings.get<coord_t>("wipe_hop_amount");
    wipe_config.hop_speed = settings.get<Velocity>("wipe_hop_speed");
    wipe_config.brush_pos_x = settings.get<coord_t>("wipe_brush_pos_x");
    wipe_config.repeat_count = settings.get<size_t>("wipe_repeat_count");
    wipe_config.move_distance = settings.get<coord_t>("wipe_move_distance");
    wipe_config.move_speed = settings.get<Velocity>("speed_travel");
    wipe_config.max_extrusion_mm3 = settings.get<double>("max_extrusion_before_wipe");
    wipe_config.clean_between_layers = settings.get<bool>("clean_between_layers");
}

//= cura::FffGcodeWriter::getStartExtruder
size_t r8(const cura::FffGcodeWriter& self, const SliceDataStorage& storage)
{
    const auto& mesh_group = Application::getInstance().current_slice_->scene.current_mesh_group;
    const Settings& mesh_group_settings = mesh_group->settings;
    const EPlatformAdhesion adhesion_type = mesh_group_settings.get<EPlatformAdhesion>("adhesion_type");
    const int skirt_brim_extruder_nr = mesh_group_settings.get<int>("skirt_brim_extruder_nr");
    const ExtruderTrain* skirt_brim_extruder = (skirt_brim_extruder_nr < 0) ? nullptr : &mesh_group_settings.get<ExtruderTrain&>("skirt_brim_extruder_nr");
    size_t start_extruder_nr;
    if (adhesion_type == EPlatformAdhesion::SKIRT && skirt_brim_extruder
        && (skirt_brim_extruder->settings_.get<int>("skirt_line_count") > 0 || skirt_brim_extruder->settings_.get<coord_t>("skirt_brim_minimal_length") > 0))
    {
        start_extruder_nr = skirt_brim_extruder->extruder_nr_;
    }
    else if (
        (adhesion_type == EPlatformAdhesion::BRIM || mesh_group_settings.get<bool>("prime_tower_brim_enable")) && skirt_brim_extruder
        && (skirt_brim_extruder->settings_.get<int>("brim_line_count") > 0 || skirt_brim_extruder->settings_.get<coord_t>("skirt_brim_minimal_length") > 0))
    {
        start_extruder_nr = skirt_brim_extruder->extruder_nr_;
    }
    else if (adhesion_type == EPlatformAdhesion::RAFT && skirt_brim_extruder)
    {
        start_extruder_nr = mesh_group_settings.get<ExtruderTrain&>("raft_base_extruder_nr").extruder_nr_;
    }
    else 
    {
        if ((mesh_group_settings.get<bool>("support_enable") || mesh_group->has_painted_support) && mesh_group_settings.get<bool>("support_brim_enable"))
        {
            start_extruder_nr = mesh_group_settings.get<ExtruderTrain&>("support_infill_extruder_nr").extruder_nr_;
        }
        else
        {
            std::vector<bool> extruder_is_used = storage.getExtrudersUsed();
            for (size_t extruder_nr = 0; extruder_nr < extruder_is_used.size(); extruder_nr++)
            {
                start_extruder_nr = extruder_nr;
                if (extruder_is_used[extruder_nr])
                {
                    break;
                }
            }
        }
    }
    return start_extruder_nr;
}

//= cura::FffGcodeWriter::setInfillAndSkinAngles
void r9(cura::FffGcodeWriter& self, SliceMeshStorage& mesh)
{
    if (mesh.infill_angles.size() == 0)
    {
        mesh.infill_angles = mesh.settings.get<std::vector<AngleDegrees>>("infill_angles");
        if (mesh.infill_angles.size() == 0)
        {
            const EFillMethod infill_pattern = mesh.settings.get<EFillMethod>("infill_pattern");
            if (infill_pattern == EFillMethod::CROSS || infill_pattern == EFillMethod::CROSS_3D)
            {
                mesh.infill_angles.push_back(22); 
            }
            else
            {
                mesh.infill_angles.push_back(45); 
                if (infill_pattern == EFillMethod::LINES || infill_pattern == EFillMethod::ZIG_ZAG)
                {
                    mesh.infill_angles.push_back(135);
                }
            }
        }
    }
    if (mesh.roofing_angles.size() == 0)
    {
        mesh.roofing_angles = mesh.settings.get<std::vector<AngleDegrees>>("roofing_angles");
        if (mesh.roofing_angles.size() == 0)
        {
            mesh.roofing_angles.push_back(45);
            mesh.roofing_angles.push_back(135);
        }
    }
    if (mesh.flooring_angles.size() == 0)
    {
        mesh.flooring_angles = mesh.settings.get<std::vector<AngleDegrees>>("flooring_angles");
        if (mesh.flooring_angles.size() == 0)
        {
            mesh.flooring_angles.push_back(45);
            mesh.flooring_angles.push_back(135);
        }
    }
    if (mesh.skin_angles.size() == 0)
    {
        mesh.skin_angles = mesh.settings.get<std::vector<AngleDegrees>>("skin_angles");
        if (mesh.skin_angles.size() == 0)
        {
            mesh.skin_angles.push_back(45);
            mesh.skin_angles.push_back(135);
        }
    }
}

//= cura::FffGcodeWriter::setSupportAngles
void r10(cura::FffGcodeWriter& self, SliceDataStorage& storage)
{
    const Settings& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    const ExtruderTrain& support_infill_extruder = mesh_group_settings.get<ExtruderTrain&>("support_infill_extruder_nr");
    storage.support.support_infill_angles = support_infill_extruder.settings_.get<std::vector<AngleDegrees>>("support_infill_angles");
    if (storage.support.support_infill_angles.empty())
    {
        storage.support.support_infill_angles.push_back(0);
    }
    const ExtruderTrain& support_extruder_nr_layer_0 = mesh_group_settings.get<ExtruderTrain&>("support_extruder_nr_layer_0");
    storage.support.support_infill_angles_layer_0 = support_extruder_nr_layer_0.settings_.get<std::vector<AngleDegrees>>("support_infill_angles");
    if (storage.support.support_infill_angles_layer_0.empty())
    {
        storage.support.support_infill_angles_layer_0.push_back(0);
    }
    auto getInterfaceAngles
        = [&storage](const ExtruderTrain& extruder, const std::string& interface_angles_setting, const EFillMethod pattern, const std::string& interface_height_setting)
    {
        std::vector<AngleDegrees> angles = extruder.settings_.get<std::vector<AngleDegrees>>(interface_angles_setting);
        if (angles.empty())
        {
            if (pattern == EFillMethod::CONCENTRIC)
            {
                angles.push_back(0); 
            }
            else if (pattern == EFillMethod::TRIANGLES)
            {
                angles.push_back(90); 
            }
            else
            {
                for (const auto& mesh : storage.meshes)
                {
                    if (mesh->settings.get<coord_t>(interface_height_setting)
                        >= 2 * Application::getInstance().current_slice_->scene.current_mesh_group->settings.get<coord_t>("layer_height"))
                    {
                        angles.push_back(45);
                        angles.push_back(135);
                    }
                }
                if (angles.empty())
                {
                    angles.push_back(90); 
                }
            }
        }
        return angles;
    };
    const ExtruderTrain& roof_extruder = mesh_group_settings.get<ExtruderTrain&>("support_roof_extruder_nr");
    storage.support.support_roof_angles
        = getInterfaceAngles(roof_extruder, "support_roof_angles", roof_extruder.settings_.get<EFillMethod>("support_roof_pattern"), "support_roof_height");
    const ExtruderTrain& bottom_extruder = mesh_group_settings.get<ExtruderTrain&>("support_bottom_extruder_nr");
    storage.support.support_bottom_angles
        = getInterfaceAngles(bottom_extruder, "support_bottom_angles", bottom_extruder.settings_.get<EFillMethod>("support_bottom_pattern"), "support_bottom_height");
}

//= cura::FffGcodeWriter::processNextMeshGroupCode
void r11(cura::FffGcodeWriter& self, const SliceDataStorage& storage)
{
    self.gcode.writeFanCommand(0);
    self.gcode.setZ(self.max_object_height + MM2INT(5));
    Application::getInstance().communication_->sendCurrentPosition(self.gcode.getPositionXY());
    self.gcode.writeTravel(self.gcode.getPositionXY(), Application::getInstance().current_slice_->scene.extruders[self.gcode.getExtruderNr()].settings_.get<Velocity>("speed_z_hop"));
    Point2LL start_pos(storage.model_min.x_, storage.model_min.y_);
    self.gcode.writeTravel(start_pos, Application::getInstance().current_slice_->scene.extruders[self.gcode.getExtruderNr()].settings_.get<Velocity>("speed_travel"));
    self.gcode.processInitialLayerTemperature(storage, self.gcode.getExtruderNr());
}

//= cura::FffGcodeWriter::startRaftLayer
void r13(cura::FffGcodeWriter& self, const SliceDataStorage& storage, LayerPlan& gcode_layer, const LayerIndex layer_nr, size_t layer_extruder, size_t& current_extruder)
{
    self.setExtruder_addPrime(storage, gcode_layer, current_extruder);
    if (current_extruder != layer_extruder)
    {
        self.setExtruder_addPrime(storage, gcode_layer, layer_extruder);
        current_extruder = layer_extruder;
    }
}

//= cura::FffGcodeWriter::endRaftLayer
void r14(cura::FffGcodeWriter& self, const SliceDataStorage& storage, LayerPlan& gcode_layer, const LayerIndex layer_nr, size_t& current_extruder, const bool append_to_prime_tower)
{
    self.setExtruder_addPrime(storage, gcode_layer, current_extruder, append_to_prime_tower);
    for (const ExtruderUse& extruder_use : self.extruder_order_per_layer.get(layer_nr))
    {
        if (! append_to_prime_tower || (! gcode_layer.getPrimeTowerIsPlanned(extruder_use.extruder_nr) && extruder_use.prime != ExtruderPrime::None))
        {
            self.setExtruder_addPrime(storage, gcode_layer, extruder_use.extruder_nr, append_to_prime_tower);
            current_extruder = extruder_use.extruder_nr;
        }
    }
}

//= cura::FffGcodeWriter::getExtruderNeedPrimeBlobDuringFirstLayer
bool r16(const cura::FffGcodeWriter& self, const SliceDataStorage& storage, const size_t extruder_nr)
{
    auto need_prime_blob = self.gcode.needPrimeBlob();
    if (need_prime_blob)
    {
        const auto& used_extruders = storage.getExtrudersUsed();
        const bool is_extruder_used_overall = extruder_nr < used_extruders.size() && used_extruders[extruder_nr];
        const bool extruder_prime_blob_enabled = storage.getExtruderPrimeBlobEnabled(extruder_nr);
        need_prime_blob = is_extruder_used_overall && extruder_prime_blob_enabled;
    }
    return need_prime_blob;
}

//= cura::FffGcodeWriter::processSkirtBrim
void r17(const cura::FffGcodeWriter& self, const SliceDataStorage& storage, LayerPlan& gcode_layer, const unsigned int extruder_nr, const LayerIndex layer_nr)
{
    const ExtruderTrain& train = Application::getInstance().current_slice_->scene.extruders[extruder_nr];
    const int skirt_height = train.settings_.get<int>("skirt_height");
    const bool is_skirt = train.settings_.get<EPlatformAdhesion>("adhesion_type") == EPlatformAdhesion::SKIRT;
    if (layer_nr != 0 && (layer_nr >= skirt_height || ! is_skirt))
    {
        return;
    }
    if (gcode_layer.getSkirtBrimIsPlanned(extruder_nr))
    {
        return;
    }
    gcode_layer.setSkirtBrimIsPlanned(extruder_nr);
    const auto& original_skirt_brim = storage.skirt_brim[extruder_nr];
    if (original_skirt_brim.size() == 0)
    {
        return;
    }
    Point2LL start_close_to;
    if (train.settings_.get<bool>("prime_blob_enable"))
    {
        const auto prime_pos_is_abs = train.settings_.get<bool>("extruder_prime_pos_abs");
        const auto prime_pos = Point2LL(train.settings_.get<coord_t>("extruder_prime_pos_x"), train.settings_.get<coord_t>("extruder_prime_pos_y"));
        start_close_to = prime_pos_is_abs ? prime_pos : gcode_layer.getLastPlannedPositionOrStartingPosition() + prime_pos;
    }
    else
    {
        start_close_to = gcode_layer.getLastPlannedPositionOrStartingPosition();
    }
    struct BrimLineReference
    {
        const size_t inset_idx;
        const Polyline* poly;
    };
    size_t total_line_count = 0;
    for (const MixedLinesSet& lines : storage.skirt_brim[extruder_nr])
    {
        total_line_count += lines.size();
        if (layer_nr != 0)
        {
            break;
        }
    }
    MixedLinesSet all_brim_lines;
    all_brim_lines.reserve(total_line_count);
    const coord_t line_w = train.settings_.get<coord_t>("skirt_brim_line_width") * train.settings_.get<Ratio>("initial_layer_line_width_factor");
    const coord_t searching_radius = line_w * 2;
    using GridT = SparsePointGridInclusive<BrimLineReference>;
    GridT grid(searching_radius);
    for (size_t inset_idx = 0; inset_idx < storage.skirt_brim[extruder_nr].size(); inset_idx++)
    {
        const MixedLinesSet& offset = storage.skirt_brim[extruder_nr][inset_idx];
        for (const PolylinePtr& line : offset)
        {
            if (line->segmentsCount() > 0)
            {
                all_brim_lines.push_back(line);
                for (const Point2LL& p : *line)
                {
                    grid.insert(p, BrimLineReference{ inset_idx, line.get() });
                }
            }
        }
        if (layer_nr != 0)
        {
            break;
        }
    }
    const auto smart_brim_ordering = train.settings_.get<bool>("brim_smart_ordering") && train.settings_.get<EPlatformAdhesion>("adhesion_type") == EPlatformAdhesion::BRIM;
    std::unordered_multimap<const Polyline*, const Polyline*> order_requirements;
    for (const std::pair<SquareGrid::GridPoint, SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<BrimLineReference>>& p : grid)
    {
        const BrimLineReference& here = p.second.val;
        Point2LL loc_here = p.second.point;
        std::vector<BrimLineReference> nearby_verts = grid.getNearbyVals(loc_here, searching_radius);
        for (const BrimLineReference& nearby : nearby_verts)
        {
            if (nearby.poly == here.poly || nearby.inset_idx == here.inset_idx)
            {
                continue;
            }
            const BrimLineReference& lower_inset = here.inset_idx < nearby.inset_idx ? here : nearby;
            const BrimLineReference& higher_inset = here.inset_idx < nearby.inset_idx ? nearby : here;
            if (smart_brim_ordering)
            {
                if (lower_inset.inset_idx == 0 && higher_inset.inset_idx == 1)
                {
                    order_requirements.emplace(lower_inset.poly, higher_inset.poly);
                    continue;
                }
                else if (lower_inset.inset_idx == 0 && higher_inset.inset_idx == 2)
                {
                    order_requirements.emplace(higher_inset.poly, lower_inset.poly);
                    continue;
                }
                else if (lower_inset.inset_idx == 1 && higher_inset.inset_idx == 2)
                {
                    continue;
                }
            }
            if (higher_inset.inset_idx > lower_inset.inset_idx + 1)
            {
                continue;
            }
            order_requirements.emplace(higher_inset.poly, lower_inset.poly);
        }
    } 
    constexpr bool enable_travel_optimization = true; 
    constexpr coord_t wipe_dist = 0u;
    constexpr Ratio flow_ratio = 1.0;
    constexpr double fan_speed = GCodePathConfig::FAN_SPEED_DEFAULT;
    constexpr bool reverse_print_direction = false;
    if (! all_brim_lines.empty())
    {
        gcode_layer.addLinesByOptimizer(
            all_brim_lines,
            gcode_layer.configs_storage_.skirt_brim_config_per_extruder[extruder_nr],
            SpaceFillType::PolyLines,
            enable_travel_optimization,
            wipe_dist,
            flow_ratio,
            start_close_to,
            fan_speed,
            reverse_print_direction,
            layer_nr == 0 ? order_requirements : PathOrderOptimizer<const Polyline*>::no_order_requirements_);
    }
}

//= cura::FffGcodeWriter::processSupportBrim
void r18(const SliceDataStorage& storage, LayerPlan& gcode_layer, const unsigned int extruder_nr, const LayerIndex layer_nr)
{
    const Settings& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    if (layer_nr > 0 || (extruder_nr != mesh_group_settings.get<ExtruderTrain&>("support_extruder_nr_layer_0").extruder_nr_))
    {
        return;
    }
    constexpr bool enable_travel_optimization = true; 
    constexpr coord_t wipe_dist = 0u;
    constexpr Ratio flow_ratio = 1.0;
    constexpr double fan_speed = GCodePathConfig::FAN_SPEED_DEFAULT;
    constexpr bool reverse_print_direction = false;
    const Point2LL start_close_to = gcode_layer.getLastPlannedPositionOrStartingPosition();
    gcode_layer.addLinesByOptimizer(
        storage.support_brim,
        gcode_layer.configs_storage_.skirt_brim_config_per_extruder[extruder_nr],
        SpaceFillType::PolyLines,
        enable_travel_optimization,
        wipe_dist,
        flow_ratio,
        start_close_to,
        fan_speed,
        reverse_print_direction);
}

//= cura::FffGcodeWriter::processOozeShield
void r19(const cura::FffGcodeWriter& self, const SliceDataStorage& storage, LayerPlan& gcode_layer)
{
    LayerIndex layer_nr = std::max(LayerIndex{ 0 }, gcode_layer.getLayerNr());
    const Settings& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    if (layer_nr == 0 && mesh_group_settings.get<EPlatformAdhesion>("adhesion_type") == EPlatformAdhesion::BRIM)
    {
        return; 
    }
    if (storage.ooze_shield.size() > 0 && layer_nr < storage.ooze_shield.size())
    {
        gcode_layer.addPolygonsByOptimizer(storage.ooze_shield[layer_nr], gcode_layer.configs_storage_.skirt_brim_config_per_extruder[0], mesh_group_settings);
    }
}

//= cura::FffGcodeWriter::processDraftShield
void r20(const cura::FffGcodeWriter& self, const SliceDataStorage& storage, LayerPlan& gcode_layer)
{
    const Settings& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    const LayerIndex layer_nr = std::max(LayerIndex{ 0 }, gcode_layer.getLayerNr());
    if (storage.draft_protection_shield.size() == 0)
    {
        return;
    }
    if (! mesh_group_settings.get<bool>("draft_shield_enabled"))
    {
        return;
    }
    if (layer_nr == 0 && Application::getInstance().current_slice_->scene.current_mesh_group->settings.get<EPlatformAdhesion>("adhesion_type") == EPlatformAdhesion::BRIM)
    {
        return; 
    }
    if (mesh_group_settings.get<DraftShieldHeightLimitation>("draft_shield_height_limitation") == DraftShieldHeightLimitation::LIMITED)
    {
        const coord_t draft_shield_height = mesh_group_settings.get<coord_t>("draft_shield_height");
        const coord_t layer_height_0 = mesh_group_settings.get<coord_t>("layer_height_0");
        const coord_t layer_height = mesh_group_settings.get<coord_t>("layer_height");
        const LayerIndex max_screen_layer = (draft_shield_height - layer_height_0) / layer_height + 1;
        if (layer_nr > max_screen_layer)
        {
            return;
        }
    }
    gcode_layer.addPolygonsByOptimizer(storage.draft_protection_shield, gcode_layer.configs_storage_.skirt_brim_config_per_extruder[0], mesh_group_settings);
}

//= cura::FffGcodeWriter::calculateExtruderOrderPerLayer
void r21(cura::FffGcodeWriter& self, const SliceDataStorage& storage)
{
    size_t last_extruder;
    Scene& scene = Application::getInstance().current_slice_->scene;
    size_t start_extruder;
    if (scene.current_mesh_group == scene.mesh_groups.begin())
    { 
        start_extruder = self.getStartExtruder(storage);
    }
    else
    {
        start_extruder = self.gcode.getExtruderNr();
    }
    last_extruder = start_extruder;
    self.extruder_order_per_layer.init(true, storage.print_layer_count);
    const std::vector<bool> extruders_used = storage.getExtrudersUsed();
    for (LayerIndex layer_nr = -LayerIndex(Raft::getTotalExtraLayers()); layer_nr < LayerIndex(storage.print_layer_count); layer_nr++)
    {
        std::vector<ExtruderUse> extruder_order = self.getUsedExtrudersOnLayer(storage, last_extruder, layer_nr, extruders_used);
        self.extruder_order_per_layer.push_back(extruder_order);
        if (! extruder_order.empty())
        {
            last_extruder = extruder_order.back().extruder_nr;
        }
    }
    if (storage.prime_tower_)
    {
        storage.prime_tower_->processExtrudersUse(self.extruder_order_per_layer, start_extruder);
    }
}

//= cura::FffGcodeWriter::calculatePrimeLayerPerExtruder
void r22(cura::FffGcodeWriter& self, const SliceDataStorage& storage)
{
    LayerIndex first_print_layer = -LayerIndex(Raft::getTotalExtraLayers());
    for (size_t extruder_nr = 0; extruder_nr < MAX_EXTRUDERS; ++extruder_nr)
    {
        if (self.getExtruderNeedPrimeBlobDuringFirstLayer(storage, extruder_nr))
        {
            self.extruder_prime_layer_nr[extruder_nr] = std::min(self.extruder_prime_layer_nr[extruder_nr], first_print_layer);
        }
    }
    for (LayerIndex layer_nr = first_print_layer; layer_nr < LayerIndex(storage.print_layer_count); ++layer_nr)
    {
        const std::vector<bool> used_extruders = storage.getExtrudersUsed(layer_nr);
        for (size_t extruder_nr = 0; extruder_nr < used_extruders.size(); ++extruder_nr)
        {
            if (used_extruders[extruder_nr])
            {
                self.extruder_prime_layer_nr[extruder_nr] = std::min(self.extruder_prime_layer_nr[extruder_nr], layer_nr);
            }
        }
    }
}

//= cura::FffGcodeWriter::getUsedExtrudersOnLayer
std::vector<ExtruderUse> r23(const cura::FffGcodeWriter& self, const SliceDataStorage& storage, const size_t start_extruder, const LayerIndex& layer_nr, const std::vector<bool>& global_extruders_used)
{
    const Settings& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    size_t extruder_count = global_extruders_used.size();
    std::vector<ExtruderUse> ret;
    std::vector<bool> extruder_is_used_on_this_layer = storage.getExtrudersUsed(layer_nr);
    const LayerIndex raft_base_layer_nr = -LayerIndex(Raft::getTotalExtraLayers());
    Raft::LayerType layer_type = Raft::getLayerType(layer_nr);
    if (layer_type == Raft::RaftBase)
    {
        const size_t raft_base_extruder_nr = mesh_group_settings.get<ExtruderTrain&>("raft_base_extruder_nr").extruder_nr_;
        ret.push_back(ExtruderUse{ raft_base_extruder_nr, ExtruderPrime::None });
        if (layer_nr == raft_base_layer_nr)
        {
            for (size_t extruder_nr = 0; extruder_nr < extruder_is_used_on_this_layer.size(); extruder_nr++)
            {
                if (extruder_nr != raft_base_extruder_nr && self.getExtruderNeedPrimeBlobDuringFirstLayer(storage, extruder_nr))
                {
                    ret.push_back(ExtruderUse{ extruder_nr, ExtruderPrime::None });
                }
            }
        }
        return ret;
    }
    if (layer_nr == raft_base_layer_nr)
    {
        for (size_t used_idx = 0; used_idx < extruder_is_used_on_this_layer.size(); used_idx++)
        {
            if (self.getExtruderNeedPrimeBlobDuringFirstLayer(storage, used_idx))
            {
                extruder_is_used_on_this_layer[used_idx] = true;
            }
        }
    }
    std::vector<size_t> ordered_extruders;
    ordered_extruders.push_back(start_extruder);
    for (size_t extruder_nr = 0; extruder_nr < extruder_count; extruder_nr++)
    {
        if (extruder_nr != start_extruder && global_extruders_used[extruder_nr])
        {
            ordered_extruders.push_back(extruder_nr);
        }
    }
    size_t last_extruder = start_extruder;
    for (size_t extruder_nr : ordered_extruders)
    {
        ExtruderPrime prime = ExtruderPrime::None;
        if (storage.prime_tower_)
        {
            prime = storage.prime_tower_->getExtruderPrime(extruder_is_used_on_this_layer, extruder_nr, last_extruder, storage, layer_nr);
        }
        if (extruder_is_used_on_this_layer[extruder_nr] || prime != ExtruderPrime::None)
        {
            ret.push_back(ExtruderUse{ extruder_nr, prime });
            last_extruder = extruder_nr;
        }
    }
    return ret;
}

//= cura::FffGcodeWriter::calculateMeshOrder
std::vector<size_t> r24(const cura::FffGcodeWriter& self, const SliceDataStorage& storage, const size_t extruder_nr)
{
    OrderOptimizer<size_t> mesh_idx_order_optimizer;
    std::vector<MeshGroup>::iterator mesh_group = Application::getInstance().current_slice_->scene.current_mesh_group;
    for (unsigned int mesh_idx = 0; mesh_idx < storage.meshes.size(); mesh_idx++)
    {
        const SliceMeshStorage& mesh = *storage.meshes[mesh_idx];
        if (mesh.getExtruderIsUsed(extruder_nr))
        {
            const Mesh& mesh_data = mesh_group->meshes[mesh_idx];
            const Point3LL middle = (mesh_data.getAABB().min_ + mesh_data.getAABB().max_) / 2;
            mesh_idx_order_optimizer.addItem(Point2LL(middle.x_, middle.y_), mesh_idx);
        }
    }
    const ExtruderTrain& train = Application::getInstance().current_slice_->scene.extruders[extruder_nr];
    const Point2LL layer_start_position(train.settings_.get<coord_t>("layer_start_x"), train.settings_.get<coord_t>("layer_start_y"));
    std::list<size_t> mesh_indices_order = mesh_idx_order_optimizer.optimize(layer_start_position);
    std::vector<size_t> ret;
    ret.reserve(mesh_indices_order.size());
    for (size_t i : mesh_indices_order)
    {
        const size_t mesh_idx = mesh_idx_order_optimizer.items[i].second;
        ret.push_back(mesh_idx);
    }
    return ret;
}

//= cura::FffGcodeWriter::addMeshLayerToGCode_meshSurfaceMode
void r25(const cura::FffGcodeWriter& self, const SliceMeshStorage& mesh, const MeshPathConfigs& mesh_config, LayerPlan& gcode_layer)
{
    if (gcode_layer.getLayerNr() > mesh.layer_nr_max_filled_layer)
    {
        return;
    }
    if (! mesh.isPrinted() || mesh.settings.get<bool>("support_mesh"))
    {
        return;
    }
    const SliceLayer* layer = &mesh.layers[gcode_layer.getLayerNr()];
    Shape polygons;
    for (const SliceLayerPart& part : layer->parts)
    {
        if (! part.outline.empty())
        {
            polygons.push_back(part.outline);
        }
    }
    polygons = Simplify(mesh.settings).polygon(polygons);
    ZSeamConfig z_seam_config(
        mesh.settings.get<EZSeamType>("z_seam_type"),
        mesh.getZSeamHint(),
        mesh.settings.get<EZSeamCornerPrefType>("z_seam_corner"),
        mesh.settings.get<coord_t>("wall_line_width_0") * 2);
    const bool spiralize = Application::getInstance().current_slice_->scene.current_mesh_group->settings.get<bool>("magic_spiralize");
    constexpr Ratio flow_ratio = 1.0;
    constexpr auto always_retract = ForceRetract::AUTOMATIC;
    constexpr bool reverse_order = false;
    const std::optional<Point2LL> start_near_location = std::nullopt;
    constexpr bool scarf_seam = true;
    constexpr bool smooth_speed = true;
    gcode_layer.addPolygonsByOptimizer(
        polygons,
        mesh_config.inset0_config,
        mesh.settings,
        z_seam_config,
        mesh.settings.get<coord_t>("wall_0_wipe_dist"),
        spiralize,
        flow_ratio,
        always_retract,
        reverse_order,
        start_near_location,
        scarf_seam,
        smooth_speed,
        layer->texture_data_provider_);
    self.addMeshOpenPolyLinesToGCode(mesh, mesh_config, gcode_layer);
}

//= cura::FffGcodeWriter::addMeshOpenPolyLinesToGCode
void r26(const cura::FffGcodeWriter& self, const SliceMeshStorage& mesh, const MeshPathConfigs& mesh_config, LayerPlan& gcode_layer)
{
    const SliceLayer* layer = &mesh.layers[gcode_layer.getLayerNr()];
    gcode_layer.addLinesByOptimizer(layer->open_polylines, mesh_config.inset0_config, SpaceFillType::PolyLines);
}

//= cura::FffGcodeWriter::addMeshPartToGCode
namespace n28
{
using InsetsPreprocessResult = cura::FffGcodeWriter::InsetsPreprocessResult;
void r28(const cura::FffGcodeWriter& self, const SliceDataStorage& storage, const SliceMeshStorage& mesh, const size_t extruder_nr, const MeshPathConfigs& mesh_config, SliceLayerPart& part, LayerPlan& gcode_layer)
{
    const Settings& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    const bool infill_before_walls = mesh.settings.get<bool>("infill_before_walls");
    bool added_something = false;
    const bool end_infill_close_to_seam
        = infill_before_walls && mesh.settings.get<InfillStartEndPreference>("infill_start_end_preference") == InfillStartEndPreference::END_CLOSE_TO_SEAM;
    InsetsPreprocessResult insets_preprocess_result = self.preProcessInsets(storage, gcode_layer, mesh, extruder_nr, mesh_config, part, end_infill_close_to_seam);
    bool infill_added = false;
    if (infill_before_walls)
    {
        std::optional<Point2LL> near_end_location;
        if (end_infill_close_to_seam && insets_preprocess_result.walls_optimizer)
        {
            near_end_location = insets_preprocess_result.walls_optimizer->getStartPosition();
        }
        infill_added = self.processInfill(storage, gcode_layer, mesh, extruder_nr, mesh_config, part, near_end_location);
        added_something = added_something | infill_added;
    }
    added_something |= self.endProcessInsets(insets_preprocess_result, storage, gcode_layer, mesh, extruder_nr, mesh_config, part, infill_added);
    if (! infill_before_walls)
    {
        added_something = added_something | self.processInfill(storage, gcode_layer, mesh, extruder_nr, mesh_config, part);
    }
    added_something = added_something | self.processSkin(storage, gcode_layer, mesh, extruder_nr, mesh_config, part);
    if (added_something && (! mesh_group_settings.get<bool>("magic_spiralize") || gcode_layer.getLayerNr() < LayerIndex(mesh.settings.get<size_t>("initial_bottom_layers"))))
    {
        coord_t innermost_wall_line_width = mesh.settings.get<coord_t>((mesh.settings.get<size_t>("wall_line_count") > 1) ? "wall_line_width_x" : "wall_line_width_0");
        if (gcode_layer.getLayerNr() == 0)
        {
            innermost_wall_line_width *= mesh.settings.get<Ratio>("initial_layer_line_width_factor");
        }
        gcode_layer.moveInsideCombBoundary(innermost_wall_line_width, part);
    }
    gcode_layer.setIsInside(false);
}
} // namespace n28

//= cura::FffGcodeWriter::processInfill
bool r29(const cura::FffGcodeWriter& self, const SliceDataStorage& storage, LayerPlan& gcode_layer, const SliceMeshStorage& mesh, const size_t extruder_nr, const MeshPathConfigs& mesh_config, const SliceLayerPart& part, const std::optional<Point2LL>& near_end_location)
{
    if (extruder_nr != mesh.settings.get<ExtruderTrain&>("infill_extruder_nr").extruder_nr_)
    {
        return false;
    }
    const coord_t infill_start_move_inwards_length = mesh.settings.get<coord_t>("infill_start_move_inwards_length");
    const coord_t infill_end_move_inwards_length = mesh.settings.get<coord_t>("infill_end_move_inwards_length");
    const bool added_something
        = self.processMultiLayerInfill(gcode_layer, mesh, extruder_nr, mesh_config, part, infill_start_move_inwards_length, infill_end_move_inwards_length, near_end_location)
        | self.processSingleLayerInfill(storage, gcode_layer, mesh, extruder_nr, mesh_config, part, infill_start_move_inwards_length, infill_end_move_inwards_length, near_end_location);
    return added_something;
}

//= cura::FffGcodeWriter::processMultiLayerInfill
bool r30(const cura::FffGcodeWriter& self, LayerPlan& gcode_layer, const SliceMeshStorage& mesh, const size_t extruder_nr, const MeshPathConfigs& mesh_config, const SliceLayerPart& part, const coord_t start_move_inwards_length, const coord_t end_move_inwards_length, const std::optional<Point2LL>& near_end_location, const bool split_near_end_location)
{
    if (extruder_nr != mesh.settings.get<ExtruderTrain&>("infill_extruder_nr").extruder_nr_)
    {
        return false;
    }
    const coord_t infill_line_distance = mesh.settings.get<coord_t>("infill_line_distance");
    if (infill_line_distance <= 0)
    {
        return false;
    }
    coord_t max_resolution = mesh.settings.get<coord_t>("meshfix_maximum_resolution");
    coord_t max_deviation = mesh.settings.get<coord_t>("meshfix_maximum_deviation");
    AngleDegrees infill_angle = 45; 
    if (! mesh.infill_angles.empty())
    {
        const size_t combined_infill_layers
            = std::max(uint64_t(1), round_divide(mesh.settings.get<coord_t>("infill_sparse_thickness"), std::max(mesh.settings.get<coord_t>("layer_height"), coord_t(1))));
        infill_angle = mesh.infill_angles.at((gcode_layer.getLayerNr() / combined_infill_layers) % mesh.infill_angles.size());
    }
    const Point3LL mesh_middle = mesh.bounding_box.getMiddle();
    const Point2LL infill_origin(mesh_middle.x_ + mesh.settings.get<coord_t>("infill_offset_x"), mesh_middle.y_ + mesh.settings.get<coord_t>("infill_offset_y"));
    bool added_something = false;
    for (unsigned int combine_idx = 1; combine_idx < part.infill_area_per_combine_per_density[0].size(); combine_idx++)
    {
        const coord_t infill_line_width = mesh_config.infill_config[combine_idx].getLineWidth();
        const EFillMethod infill_pattern = mesh.settings.get<EFillMethod>("infill_pattern");
        const bool zig_zaggify_infill = mesh.settings.get<bool>("zig_zaggify_infill") || infill_pattern == EFillMethod::ZIG_ZAG;
        const bool connect_polygons = mesh.settings.get<bool>("connect_infill_polygons");
        const size_t infill_multiplier = mesh.settings.get<size_t>("infill_multiplier");
        const coord_t minimum_infill_line_length = mesh.settings.get<coord_t>("minimum_infill_line_length");
        Shape infill_polygons;
        OpenLinesSet infill_lines;
        std::vector<VariableWidthLines> infill_paths = part.infill_wall_toolpaths;
        Shape infill_inner_contour;
        for (size_t density_idx = part.infill_area_per_combine_per_density.size() - 1; (int)density_idx >= 0; density_idx--)
        { 
            size_t density_factor = 2 << density_idx; 
            coord_t infill_line_distance_here = infill_line_distance * density_factor; 
            coord_t infill_shift = infill_line_distance_here / 2;
            if (density_idx == part.infill_area_per_combine_per_density.size() - 1 || infill_pattern == EFillMethod::CROSS || infill_pattern == EFillMethod::CROSS_3D)
            {
                infill_line_distance_here /= 2;
            }
            constexpr size_t wall_line_count = 0; 
            const coord_t small_area_width = 0;
            const coord_t infill_overlap = mesh.settings.get<coord_t>("infill_overlap_mm");
            constexpr bool skip_stitching = false;
            constexpr bool connected_zigzags = false;
            constexpr bool use_endpieces = true;
            constexpr bool skip_some_zags = false;
            constexpr size_t zag_skip_count = 0;
            const bool fill_gaps = density_idx == 0; 
            std::shared_ptr<LightningLayer> lightning_layer = nullptr;
            if (mesh.lightning_generator)
            {
                lightning_layer = std::make_shared<LightningLayer>(mesh.lightning_generator->getTreesForLayer(gcode_layer.getLayerNr()));
            }
            Infill infill_comp(
                infill_pattern,
                zig_zaggify_infill,
                connect_polygons,
                part.infill_area_per_combine_per_density[density_idx][combine_idx],
                infill_line_width,
                infill_line_distance_here,
                infill_overlap,
                infill_multiplier,
                infill_angle,
                gcode_layer.z_,
                infill_shift,
                max_resolution,
                max_deviation,
                wall_line_count,
                small_area_width,
                infill_origin,
                skip_stitching,
                fill_gaps,
                connected_zigzags,
                use_endpieces,
                skip_some_zags,
                zag_skip_count,
                mesh.settings.get<coord_t>("cross_infill_pocket_size"));
            infill_comp.generate(
                infill_paths,
                infill_polygons,
                infill_lines,
                mesh.settings,
                gcode_layer.getLayerNr(),
                SectionType::INFILL,
                mesh.cross_fill_provider,
                lightning_layer,
                &mesh,
                Shape(),
                minimum_infill_line_length);
            if (start_move_inwards_length > 0 || end_move_inwards_length > 0)
            {
                infill_inner_contour = infill_inner_contour.unionPolygons(infill_comp.getInnerContour());
            }
        }
        if (! infill_lines.empty() || ! infill_polygons.empty())
        {
            added_something = true;
            gcode_layer.setIsInside(true); 
            if (! infill_polygons.empty())
            {
                gcode_layer.addInfillPolygonsByOptimizer(
                    infill_polygons,
                    infill_lines,
                    mesh_config.infill_config[combine_idx],
                    mesh.settings,
                    start_move_inwards_length > 0 || end_move_inwards_length > 0);
            }
            if (! infill_lines.empty())
            {
                std::optional<Point2LL> near_start_location;
                bool reverse_print_direction = false;
                if (mesh.settings.get<InfillStartEndPreference>("infill_start_end_preference") == InfillStartEndPreference::START_RANDOM)
                {
                    srand(gcode_layer.getLayerNr());
                    near_start_location = infill_lines[rand() % infill_lines.size()][0];
                }
                else if (near_end_location.has_value()) 
                {
                    near_start_location = near_end_location;
                    reverse_print_direction = true;
                }
                constexpr coord_t wipe_dist = 0;
                const bool enable_travel_optimization = mesh.settings.get<bool>("infill_enable_travel_optimization");
                constexpr Ratio flow_ratio = 1.0_r;
                constexpr double fan_speed = GCodePathConfig::FAN_SPEED_DEFAULT;
                const std::unordered_multimap<const Polyline*, const Polyline*> order_requirements = PathOrderOptimizer<const Polyline*>::no_order_requirements_;
                gcode_layer.addLinesByOptimizer(
                    infill_lines,
                    mesh_config.infill_config[combine_idx],
                    zig_zaggify_infill ? SpaceFillType::PolyLines : SpaceFillType::Lines,
                    enable_travel_optimization,
                    wipe_dist,
                    flow_ratio,
                    near_start_location,
                    fan_speed,
                    reverse_print_direction,
                    order_requirements,
                    start_move_inwards_length,
                    end_move_inwards_length,
                    MendedShape(&mesh.settings, SectionType::INFILL, &infill_inner_contour));
            }
        }
    }
    return added_something;
}

//= cura::wall_tool_paths2lines
void r31(const std::vector<std::vector<VariableWidthLines>>& wall_tool_paths, OpenLinesSet& result)
{
    for (const auto& a : wall_tool_paths)
    {
        for (const VariableWidthLines& b : a)
        {
            for (const ExtrusionLine& c : b)
            {
                const Polygon poly = c.toPolygon();
                if (c.is_closed_)
                {
                    result.push_back(poly.toPseudoOpenPolyline());
                }
            }
        }
    }
}

//= cura::FffGcodeWriter::processSingleLayerInfill
bool r32(const cura::FffGcodeWriter& self, const SliceDataStorage& storage, LayerPlan& gcode_layer, const SliceMeshStorage& mesh, const size_t extruder_nr, const MeshPathConfigs& mesh_config, const SliceLayerPart& part, const coord_t start_move_inwards_length, const coord_t end_move_inwards_length, const std::optional<Point2LL>& near_end_location, const bool split_near_end_location)
{
    if (extruder_nr != mesh.settings.get<ExtruderTrain&>("infill_extruder_nr").extruder_nr_)
    {
        return false;
    }
    const auto infill_line_distance = mesh.settings.get<coord_t>("infill_line_distance");
    if (infill_line_distance == 0 || part.infill_area_per_combine_per_density[0].empty())
    {
        return false;
    }
    const coord_t infill_line_width = mesh_config.infill_config[0].getLineWidth();
    Shape infill_polygons;
    std::vector<std::vector<VariableWidthLines>> wall_tool_paths; 
    OpenLinesSet infill_lines;
    OpenLinesSet skin_support_lines;
    Shape skin_support_polygons;
    const auto pattern = mesh.settings.get<EFillMethod>("infill_pattern");
    const bool zig_zaggify_infill = mesh.settings.get<bool>("zig_zaggify_infill") || pattern == EFillMethod::ZIG_ZAG;
    const bool connect_polygons = mesh.settings.get<bool>("connect_infill_polygons");
    const auto infill_overlap = mesh.settings.get<coord_t>("infill_overlap_mm");
    const auto infill_multiplier = mesh.settings.get<size_t>("infill_multiplier");
    const auto wall_line_count = mesh.settings.get<size_t>("infill_wall_line_count");
    const size_t last_idx = part.infill_area_per_combine_per_density.size() - 1;
    const auto max_resolution = mesh.settings.get<coord_t>("meshfix_maximum_resolution");
    const auto max_deviation = mesh.settings.get<coord_t>("meshfix_maximum_deviation");
    const coord_t overlap = mesh.settings.get<coord_t>("infill_overlap_mm");
    const auto skin_support_density = mesh.settings.get<Ratio>("skin_support_density");
    const coord_t minimum_infill_line_length = mesh.settings.get<coord_t>("minimum_infill_line_length");
    const coord_t skin_support_line_distance = skin_support_density > 0.0 ? (infill_line_width / skin_support_density) : 0;
    AngleDegrees infill_angle = 45; 
    if (! mesh.infill_angles.empty())
    {
        const size_t combined_infill_layers
            = std::max(uint64_t(1), round_divide(mesh.settings.get<coord_t>("infill_sparse_thickness"), std::max(mesh.settings.get<coord_t>("layer_height"), coord_t(1))));
        infill_angle = mesh.infill_angles.at((static_cast<size_t>(gcode_layer.getLayerNr()) / combined_infill_layers) % mesh.infill_angles.size());
    }
    const Point3LL mesh_middle = mesh.bounding_box.getMiddle();
    const Point2LL infill_origin(mesh_middle.x_ + mesh.settings.get<coord_t>("infill_offset_x"), mesh_middle.y_ + mesh.settings.get<coord_t>("infill_offset_y"));
    auto get_cut_offset = [](const bool zig_zaggify, const coord_t line_width, const size_t line_count)
    {
        if (zig_zaggify)
        {
            return -line_width / 2 - static_cast<coord_t>(line_count) * line_width - 5;
        }
        return -static_cast<coord_t>(line_count) * line_width;
    };
    Shape sparse_in_outline = part.infill_area_per_combine_per_density[last_idx][0];
    Shape infill_below_skin;
    Shape infill_not_below_skin;
    Shape infill_sandwiched;
    AngleDegrees skin_support_angle;
    if (gcode_layer.getLayerNr() > 0)
    {
        self.partitionInfillBySkinAbove(infill_below_skin, infill_not_below_skin, infill_sandwiched, gcode_layer, mesh, part, infill_line_width);
    }
    if (! infill_below_skin.empty())
    {
        const auto infill_wall_line_count = static_cast<coord_t>(mesh.settings.get<size_t>("infill_wall_line_count"));
        const coord_t infill_wall_offset = -infill_wall_line_count * infill_line_width;
        const Shape infill_contour = part.infill_area.offset(infill_overlap + infill_wall_offset);
        const LayerPlan* completed_layer_below = self.layer_plan_buffer.getCompletedLayerPlan(gcode_layer.getLayerNr() - 1);
        std::tie(infill_below_skin, skin_support_angle)
            = makeBridgeOverInfillPrintable(infill_contour.difference(infill_sandwiched), infill_below_skin, mesh, completed_layer_below, gcode_layer.getLayerNr());
        infill_not_below_skin = infill_not_below_skin.difference(infill_below_skin);
    }
    const auto pocket_size = mesh.settings.get<coord_t>("cross_infill_pocket_size");
    constexpr bool skip_stitching = false;
    constexpr bool connected_zigzags = false;
    const bool use_endpieces = part.infill_area_per_combine_per_density.size() == 1; 
    constexpr bool skip_some_zags = false;
    constexpr int zag_skip_count = 0;
    Shape infill_inner_contour;
    for (size_t density_idx = last_idx; static_cast<int>(density_idx) >= 0; density_idx--)
    {
        if (part.infill_area_per_combine_per_density[density_idx][0].empty())
        {
            continue;
        }
        OpenLinesSet infill_lines_here;
        Shape infill_polygons_here;
        int infill_line_distance_here = infill_line_distance << (density_idx + 1);
        int infill_shift = infill_line_distance_here / 2;
        if (density_idx == part.infill_area_per_combine_per_density.size() - 1 || pattern == EFillMethod::CROSS || pattern == EFillMethod::CROSS_3D)
        {
            infill_line_distance_here /= 2;
        }
        Shape in_outline = part.infill_area_per_combine_per_density[density_idx][0];
        std::shared_ptr<LightningLayer> lightning_layer;
        if (mesh.lightning_generator)
        {
            lightning_layer = std::make_shared<LightningLayer>(mesh.lightning_generator->getTreesForLayer(gcode_layer.getLayerNr()));
        }
        const bool fill_gaps = density_idx == 0; 
        if (! infill_below_skin.empty())
        {
            constexpr EFillMethod skin_support_pattern = EFillMethod::LINES;
            constexpr bool skin_support_zig_zaggify = false;
            constexpr bool skin_support_connect_polygons = false;
            constexpr size_t skin_support_infill_multiplier = 1;
            constexpr size_t min_skin_support_wall_count = 0;
            constexpr size_t skin_support_wall_count = 0;
            constexpr coord_t small_area_width = 0;
            wall_tool_paths.emplace_back(std::vector<VariableWidthLines>());
            constexpr coord_t skin_support_overlap = 0;
            constexpr coord_t skin_support_infill_shift = 0;
            Infill infill_comp(
                skin_support_pattern,
                skin_support_zig_zaggify,
                skin_support_connect_polygons,
                infill_below_skin,
                infill_line_width,
                skin_support_line_distance,
                skin_support_overlap,
                skin_support_infill_multiplier,
                skin_support_angle,
                gcode_layer.z_,
                skin_support_infill_shift,
                max_resolution,
                max_deviation,
                skin_support_wall_count,
                small_area_width,
                infill_origin,
                skip_stitching,
                fill_gaps,
                connected_zigzags,
                use_endpieces,
                skip_some_zags,
                zag_skip_count,
                pocket_size);
            infill_comp.generate(
                wall_tool_paths.back(),
                skin_support_polygons,
                skin_support_lines,
                mesh.settings,
                gcode_layer.getLayerNr(),
                SectionType::INFILL,
                mesh.cross_fill_provider,
                lightning_layer,
                &mesh);
            if (density_idx < last_idx)
            {
                const coord_t cut_offset = get_cut_offset(skin_support_zig_zaggify, infill_line_width, min_skin_support_wall_count);
                Shape tool = infill_below_skin.offset(static_cast<int>(cut_offset));
                infill_lines_here = tool.intersection(infill_lines_here);
            }
            skin_support_lines.push_back(infill_lines_here);
            in_outline = infill_not_below_skin;
            if (density_idx == last_idx)
            {
                sparse_in_outline = infill_not_below_skin;
            }
        }
        const coord_t circumference = in_outline.length();
        constexpr double minimum_small_area_factor = 0.4 * 0.4 / 40000;
        const double minimum_small_area = minimum_small_area_factor * circumference;
        in_outline.removeSmallAreas(minimum_small_area);
        constexpr size_t wall_line_count_here = 0; 
        const coord_t small_area_width = 0;
        wall_tool_paths.emplace_back();
        Infill infill_comp(
            pattern,
            zig_zaggify_infill,
            connect_polygons,
            in_outline,
            infill_line_width,
            infill_line_distance_here,
            infill_overlap,
            infill_multiplier,
            infill_angle,
            gcode_layer.z_,
            infill_shift,
            max_resolution,
            max_deviation,
            wall_line_count_here,
            small_area_width,
            infill_origin,
            skip_stitching,
            fill_gaps,
            connected_zigzags,
            use_endpieces,
            skip_some_zags,
            zag_skip_count,
            pocket_size);
        infill_comp.generate(
            wall_tool_paths.back(),
            infill_polygons,
            infill_lines,
            mesh.settings,
            gcode_layer.getLayerNr(),
            SectionType::INFILL,
            mesh.cross_fill_provider,
            lightning_layer,
            &mesh,
            Shape(),
            minimum_infill_line_length);
        if (density_idx < last_idx)
        {
            const coord_t cut_offset = get_cut_offset(zig_zaggify_infill, infill_line_width, wall_line_count);
            Shape tool = sparse_in_outline.offset(static_cast<int>(cut_offset));
            infill_lines_here = tool.intersection(infill_lines_here);
        }
        infill_lines.push_back(infill_lines_here);
        infill_polygons.push_back(infill_polygons_here);
        if (start_move_inwards_length > 0 || end_move_inwards_length > 0)
        {
            infill_inner_contour = infill_inner_contour.unionPolygons(infill_comp.getInnerContour());
        }
    }
    wall_tool_paths.emplace_back(part.infill_wall_toolpaths); 
    const auto skin_support_interlace_lines = mesh.settings.get<bool>("skin_support_interlace_lines");
    InfillOrderOptimizer optimizer;
    optimizer.addPart(InfillOrderOptimizer::InfillPartArea::Infill, infill_lines);
    optimizer.addPart(InfillOrderOptimizer::InfillPartArea::Infill, infill_polygons);
    optimizer.addPart(InfillOrderOptimizer::InfillPartArea::Infill, wall_tool_paths);
    optimizer.addPart(InfillOrderOptimizer::InfillPartArea::SkinSupport, skin_support_lines);
    optimizer.addPart(InfillOrderOptimizer::InfillPartArea::SkinSupport, skin_support_polygons);
    optimizer.optimize(skin_support_interlace_lines, near_end_location);
    const bool added_something = optimizer.addToLayer(
        gcode_layer,
        mesh.settings,
        near_end_location,
        pattern,
        mesh_config,
        storage,
        mesh,
        extruder_nr,
        start_move_inwards_length,
        end_move_inwards_length,
        infill_inner_contour,
        skin_support_line_distance,
        infill_below_skin,
        skin_support_angle);
    return added_something;
}

//= cura::FffGcodeWriter::getCombinedSkinForSkinSupport
void r33(Shape& skin_combined, const SliceMeshStorage& mesh, const SliceLayerPart& part, int skin_layer_nr)
{
    constexpr coord_t tiny_infill_offset = 20;
    if (skin_layer_nr >= mesh.layers.size() || skin_layer_nr < 1)
    {
        return;
    }
    for (const SliceLayerPart& part_i : mesh.layers[skin_layer_nr].parts)
    {
        for (const SkinPart& skin_part : part_i.skin_parts)
        {
            const Shape relevant_outline = skin_part.outline.intersection(part.getOwnInfillArea());
            if (! skin_combined.empty())
            {
                const Shape overlap = skin_combined.intersection(relevant_outline);
                if (! overlap.empty())
                {
                    skin_combined = skin_combined.difference(relevant_outline.offset(tiny_infill_offset));
                    skin_combined.push_back(relevant_outline);
                }
                else 
                {
                    skin_combined.push_back(relevant_outline);
                }
            }
            else 
            {
                skin_combined.push_back(relevant_outline);
            }
        }
    }
}

//= cura::FffGcodeWriter::partitionInfillBySkinAbove
void r34(Shape& infill_below_skin, Shape& infill_not_below_skin, Shape& infill_sandwiched, const LayerPlan& gcode_layer, const SliceMeshStorage& mesh, const SliceLayerPart& part, coord_t infill_line_width)
{
    const bool skin_support = mesh.settings.get<bool>("skin_support");
    if (! skin_support)
    {
        return;
    }
    Shape skin_above_combined; 
    Shape skin_below_combined; 
    cura::FffGcodeWriter::getCombinedSkinForSkinSupport(skin_above_combined, mesh, part, gcode_layer.getLayerNr() + 1);
    cura::FffGcodeWriter::getCombinedSkinForSkinSupport(skin_below_combined, mesh, part, std::max(LayerIndex{ 1 }, gcode_layer.getLayerNr()) - 1);
    infill_sandwiched = skin_above_combined.intersection(skin_below_combined);
    infill_below_skin = skin_above_combined.difference(skin_below_combined)
                            .intersection(part.infill_area_per_combine_per_density.back().front())
                            .offset(-infill_line_width)
                            .offset(infill_line_width);
    constexpr bool remove_small_holes_from_infill_below_skin = true;
    constexpr double min_area_multiplier = 25;
    const double min_area = INT2MM(infill_line_width) * INT2MM(infill_line_width) * min_area_multiplier;
    infill_below_skin.removeSmallAreas(min_area, remove_small_holes_from_infill_below_skin);
    infill_not_below_skin = part.infill_area_per_combine_per_density.back().front().difference(infill_below_skin);
    infill_not_below_skin.removeSmallAreas(min_area);
}

//= cura::FffGcodeWriter::findUsedExtruderIndex
size_t r35(const cura::FffGcodeWriter& self, const SliceDataStorage& storage, const LayerIndex& layer_nr, bool last)
{
    const std::vector<ExtruderUse> extruder_use = self.extruder_order_per_layer.get(layer_nr);
    if (! extruder_use.empty())
    {
        return last ? extruder_use.back().extruder_nr : extruder_use.front().extruder_nr;
    }
    else if (layer_nr <= -LayerIndex(Raft::getTotalExtraLayers()))
    {
        return self.getStartExtruder(storage);
    }
    else
    {
        return self.findUsedExtruderIndex(storage, layer_nr - 1, true);
    }
}

//= cura::FffGcodeWriter::processSpiralizedWall
void r36(const cura::FffGcodeWriter& self, const SliceDataStorage& storage, LayerPlan& gcode_layer, const MeshPathConfigs& mesh_config, const SliceLayerPart& part, const SliceMeshStorage& mesh)
{
    if (part.spiral_wall.empty())
    {
        return;
    }
    const Polygon* last_wall_outline = &(part.spiral_wall[0]); 
    int last_seam_vertex_idx = -1; 
    int layer_nr = gcode_layer.getLayerNr();
    if (layer_nr > 0)
    {
        if (storage.spiralize_wall_outlines[layer_nr - 1] != nullptr)
        {
            last_wall_outline = &(storage.spiralize_wall_outlines[layer_nr - 1]->front());
            last_seam_vertex_idx = storage.spiralize_seam_vertex_indices[layer_nr - 1];
        }
    }
    const bool is_bottom_layer = (layer_nr == mesh.settings.get<LayerIndex>("initial_bottom_layers"));
    const bool is_top_layer = ((size_t)layer_nr == (storage.spiralize_wall_outlines.size() - 1) || storage.spiralize_wall_outlines[layer_nr + 1] == nullptr);
    const int seam_vertex_idx = storage.spiralize_seam_vertex_indices[layer_nr]; 
    for (const Polygon& wall_outline : part.spiral_wall)
    {
        gcode_layer.spiralizeWallSlice(mesh_config.inset0_config, wall_outline, *last_wall_outline, seam_vertex_idx, last_seam_vertex_idx, is_top_layer, is_bottom_layer);
    }
}

//= cura::FffGcodeWriter::preProcessInsets
namespace n37
{
using InsetsPreprocessResult = cura::FffGcodeWriter::InsetsPreprocessResult;
FffGcodeWriter::InsetsPreprocessResult r37(const cura::FffGcodeWriter& self, const SliceDataStorage& storage, LayerPlan& gcode_layer, const SliceMeshStorage& mesh, const size_t extruder_nr, const MeshPathConfigs& mesh_config, SliceLayerPart& part, const bool end_infill_close_to_seam)
{
    if (extruder_nr != mesh.settings.get<ExtruderTrain&>("wall_0_extruder_nr").extruder_nr_ && extruder_nr != mesh.settings.get<ExtruderTrain&>("wall_x_extruder_nr").extruder_nr_)
    {
        return {};
    }
    if (mesh.settings.get<size_t>("wall_line_count") <= 0)
    {
        return {};
    }
    InsetsPreprocessResult result;
    if (Application::getInstance().current_slice_->scene.current_mesh_group->settings.get<bool>("magic_spiralize"))
    {
        const auto initial_bottom_layers = LayerIndex(mesh.settings.get<size_t>("initial_bottom_layers"));
        const auto layer_nr = gcode_layer.getLayerNr();
        if ((layer_nr < initial_bottom_layers && part.wall_toolpaths.empty()) 
            || (layer_nr >= initial_bottom_layers && part.spiral_wall.empty())) 
        {
            return {};
        }
        if (gcode_layer.getLayerNr() >= initial_bottom_layers)
        {
            result.spiralize = true;
        }
    }
    if (! result.spiralize && gcode_layer.getLayerNr() > 0)
    {
        Shape outlines_below;
        AABB boundaryBox(part.outline);
        for (const std::shared_ptr<SliceMeshStorage>& mesh_ptr : storage.meshes)
        {
            const auto& m = *mesh_ptr;
            if (m.isPrinted())
            {
                for (const SliceLayerPart& prevLayerPart : m.layers[gcode_layer.getLayerNr() - 1].parts)
                {
                    if (boundaryBox.hit(prevLayerPart.boundaryBox))
                    {
                        outlines_below.push_back(prevLayerPart.outline);
                    }
                }
            }
        }
        const Shape non_support_outlines_below = outlines_below;
        const coord_t layer_height = mesh_config.inset0_config.getLayerThickness();
        const auto& mesh_group = Application::getInstance().current_slice_->scene.current_mesh_group;
        const Settings& mesh_group_settings = mesh_group->settings;
        if (mesh_group_settings.get<bool>("support_enable") || mesh_group->has_painted_support)
        {
            const coord_t z_distance_top = mesh.settings.get<coord_t>("support_top_distance");
            const size_t z_distance_top_layers = (z_distance_top / layer_height) + 1;
            const int support_layer_nr = gcode_layer.getLayerNr() - z_distance_top_layers;
            if (support_layer_nr > 0)
            {
                const SupportLayer& support_layer = storage.support.supportLayers[support_layer_nr];
                if (! support_layer.support_roof.empty())
                {
                    AABB support_roof_bb(support_layer.support_roof);
                    if (boundaryBox.hit(support_roof_bb))
                    {
                        outlines_below.push_back(support_layer.support_roof);
                    }
                }
                else
                {
                    for (const SupportInfillPart& support_part : support_layer.support_infill_parts)
                    {
                        AABB support_part_bb(support_part.outline_);
                        if (boundaryBox.hit(support_part_bb))
                        {
                            outlines_below.push_back(support_part.outline_);
                        }
                    }
                }
            }
        }
        const int half_outer_wall_width = mesh_config.inset0_config.getLineWidth() / 2;
        outlines_below = outlines_below.offset(-half_outer_wall_width).offset(half_outer_wall_width);
        if (mesh.settings.get<bool>("bridge_settings_enabled"))
        {
            const coord_t max_air_gap = half_outer_wall_width;
            Shape compressed_air = part.outline.difference(outlines_below).offset(-max_air_gap);
            const coord_t compensate_outline_distance = (mesh_config.bridge_inset0_config.flow < 1.0) ? half_outer_wall_width : 0;
            Shape bridge_mask = compressed_air.offset(max_air_gap + compensate_outline_distance);
            gcode_layer.setBridgeWallMask(bridge_mask);
            const coord_t skin_overlap = mesh.settings.get<coord_t>("skin_overlap_mm");
            for (SkinPart& skin_part : part.skin_parts)
            {
                Shape moved_area = skin_part.flooring_fill.intersection(bridge_mask).offset(10);
                skin_part.skin_fill = skin_part.skin_fill.unionPolygons(moved_area);
                skin_part.flooring_fill = skin_part.flooring_fill.difference(skin_part.skin_fill).offset(-10).offset(skin_overlap + 10).intersection(skin_part.flooring_fill);
                skin_part.roofing_fill = skin_part.roofing_fill.difference(skin_part.skin_fill).offset(-10).offset(skin_overlap + 10).intersection(skin_part.roofing_fill);
            }
        }
        else
        {
            gcode_layer.setBridgeWallMask(Shape());
        }
        Shape model_supported_region = non_support_outlines_below.offset(-half_outer_wall_width);
        model_supported_region = model_supported_region.offset(-half_outer_wall_width).offset(half_outer_wall_width);
        const auto get_supported_region = [&model_supported_region, &layer_height](const AngleDegrees& overhang_angle) -> Shape
        {
            if (overhang_angle < 90.0)
            {
                const coord_t overhang_width = layer_height * std::tan(AngleRadians(overhang_angle));
                return model_supported_region.offset(overhang_width + 10);
            }
            return Shape();
        };
        std::vector<LayerPlan::OverhangMask> overhang_masks;
        const auto overhang_speed_factors = mesh.settings.get<std::vector<Ratio>>("wall_overhang_speed_factors");
        const size_t overhang_angles_count = overhang_speed_factors.size();
        const auto wall_overhang_angle = mesh.settings.get<AngleDegrees>("wall_overhang_angle");
        if (overhang_angles_count > 0 && wall_overhang_angle < 90.0)
        {
            struct SpeedRegion
            {
                AngleDegrees overhang_angle;
                Ratio speed_factor;
                bool chunk = true;
            };
            const AngleDegrees overhang_step = (90.0 - wall_overhang_angle) / static_cast<double>(overhang_angles_count);
            std::vector<SpeedRegion> speed_regions;
            speed_regions.reserve(overhang_angles_count + 2);
            constexpr bool dont_chunk_first = false; 
            speed_regions.push_back(SpeedRegion{ wall_overhang_angle, 1.0_r, dont_chunk_first }); 
            for (size_t angle_index = 1; angle_index <= overhang_angles_count; ++angle_index)
            {
                const AngleDegrees actual_wall_overhang_angle = wall_overhang_angle + static_cast<double>(angle_index) * overhang_step;
                const Ratio speed_factor = overhang_speed_factors[angle_index - 1];
                speed_regions.push_back(SpeedRegion{ actual_wall_overhang_angle, speed_factor });
            }
            speed_regions.push_back(SpeedRegion{ 90.0, overhang_speed_factors.back() }); 
            auto merged_regions = speed_regions
                                | ranges::views::chunk_by(
                                      [](const auto& region_a, const auto& region_b)
                                      {
                                          return region_a.chunk && region_b.chunk && region_a.speed_factor == region_b.speed_factor;
                                      });
            if (ranges::distance(merged_regions) > 1)
            {
                for (const auto& regions : merged_regions)
                {
                    const SpeedRegion& last_region = *ranges::prev(regions.end());
                    overhang_masks.push_back(LayerPlan::OverhangMask{ get_supported_region(last_region.overhang_angle), last_region.speed_factor });
                }
            }
        }
        result.overhang_masks = overhang_masks;
        const AngleDegrees seam_overhang_angle = mesh.settings.get<AngleDegrees>("seam_overhang_angle");
        if (seam_overhang_angle < 90.0)
        {
            const auto seam_overhang_mask
                = storage.getMachineBorder(mesh.settings.get<ExtruderTrain&>("wall_0_extruder_nr").extruder_nr_).difference(get_supported_region(seam_overhang_angle));
            gcode_layer.setSeamOverhangMask(seam_overhang_mask);
        }
        else
        {
            gcode_layer.setSeamOverhangMask(Shape());
        }
        const auto wall_line_width_0 = mesh.settings.get<coord_t>("wall_line_width_0");
        const auto roofing_mask_fn = [&]() -> Shape
        {
            const size_t roofing_layer_count = std::min(mesh.settings.get<size_t>("roofing_layer_count"), mesh.settings.get<size_t>("top_layers"));
            auto roofing_mask = storage.getMachineBorder(mesh.settings.get<ExtruderTrain&>("wall_0_extruder_nr").extruder_nr_);
            if (gcode_layer.getLayerNr() + roofing_layer_count >= mesh.layers.size())
            {
                return roofing_mask;
            }
            for (const auto& layer_part : mesh.layers[gcode_layer.getLayerNr() + roofing_layer_count].parts)
            {
                if (boundaryBox.hit(layer_part.boundaryBox))
                {
                    roofing_mask = roofing_mask.difference(layer_part.outline.offset(-wall_line_width_0 / 4));
                }
            }
            return roofing_mask;
        };
        gcode_layer.setRoofingMask(roofing_mask_fn());
        const auto flooring_mask_fn = [&]() -> Shape
        {
            const size_t flooring_layer_count = std::min(mesh.settings.get<size_t>("flooring_layer_count"), mesh.settings.get<size_t>("bottom_layers"));
            auto flooring_mask = storage.getMachineBorder(mesh.settings.get<ExtruderTrain&>("wall_0_extruder_nr").extruder_nr_);
            if (gcode_layer.getLayerNr() - flooring_layer_count < 0)
            {
                return flooring_mask;
            }
            for (const auto& layer_part : mesh.layers[gcode_layer.getLayerNr() - flooring_layer_count].parts)
            {
                if (boundaryBox.hit(layer_part.boundaryBox))
                {
                    flooring_mask = flooring_mask.difference(layer_part.outline.offset(-wall_line_width_0 / 4));
                }
            }
            return flooring_mask;
        };
        gcode_layer.setFlooringMask(flooring_mask_fn());
    }
    else
    {
        gcode_layer.setBridgeWallMask(Shape());
        gcode_layer.setOverhangMasks({});
        gcode_layer.setSeamOverhangMask(Shape());
        gcode_layer.setRoofingMask(Shape());
        gcode_layer.setFlooringMask(Shape());
    }
    if (! result.spiralize || extruder_nr != mesh.settings.get<ExtruderTrain&>("wall_0_extruder_nr").extruder_nr_ || part.spiral_wall.empty())
    {
        const coord_t wall_x_wipe_dist = 0;
        const ZSeamConfig z_seam_config(
            mesh.settings.get<EZSeamType>("z_seam_type"),
            mesh.getZSeamHint(),
            mesh.settings.get<EZSeamCornerPrefType>("z_seam_corner"),
            mesh.settings.get<coord_t>("wall_line_width_0") * 2);
        const Shape disallowed_areas_for_seams;
        constexpr bool scarf_seam = true;
        constexpr bool smooth_speed = true;
        result.walls_optimizer = std::make_shared<InsetOrderOptimizer>(
            storage,
            gcode_layer,
            mesh.settings,
            extruder_nr,
            mesh_config.inset0_config,
            mesh_config.insetX_config,
            mesh_config.inset0_roofing_config,
            mesh_config.insetX_roofing_config,
            mesh_config.inset0_flooring_config,
            mesh_config.insetX_flooring_config,
            mesh_config.bridge_inset0_config,
            mesh_config.bridge_insetX_config,
            mesh.settings.get<coord_t>("wall_0_wipe_dist"),
            wall_x_wipe_dist,
            mesh.settings.get<ExtruderTrain&>("wall_0_extruder_nr").extruder_nr_,
            mesh.settings.get<ExtruderTrain&>("wall_x_extruder_nr").extruder_nr_,
            z_seam_config,
            part.wall_toolpaths,
            mesh.bounding_box.flatten().getMiddle(),
            disallowed_areas_for_seams,
            scarf_seam,
            smooth_speed,
            gcode_layer.getSeamOverhangMask(),
            mesh.layers[gcode_layer.getLayerNr()].texture_data_provider_,
            end_infill_close_to_seam);
        result.walls_optimizer->optimize();
    }
    return result;
}
} // namespace n37

//= cura::FffGcodeWriter::endProcessInsets
namespace n38
{
using InsetsPreprocessResult = cura::FffGcodeWriter::InsetsPreprocessResult;
bool r38(const cura::FffGcodeWriter& self, InsetsPreprocessResult& preprocess_result, const SliceDataStorage& storage, LayerPlan& gcode_layer, const SliceMeshStorage& mesh, const size_t extruder_nr, const MeshPathConfigs& mesh_config, SliceLayerPart& part, const bool infill_added)
{
    if (preprocess_result.spiralize)
    {
        bool added_something = false;
        const auto initial_bottom_layers = LayerIndex(mesh.settings.get<size_t>("initial_bottom_layers"));
        if (gcode_layer.getLayerNr() == initial_bottom_layers && extruder_nr == mesh.settings.get<ExtruderTrain&>("wall_0_extruder_nr").extruder_nr_)
        { 
            added_something = true;
            gcode_layer.setIsInside(true); 
            const Polygon& spiral_inset = part.spiral_wall[0];
            const size_t spiral_start_vertex = storage.spiralize_seam_vertex_indices[static_cast<size_t>(initial_bottom_layers.value)];
            if (spiral_start_vertex < spiral_inset.size())
            {
                gcode_layer.addTravel(spiral_inset[spiral_start_vertex]);
            }
            int wall_0_wipe_dist(0);
            gcode_layer.addPolygonsByOptimizer(part.spiral_wall, mesh_config.inset0_config, mesh.settings, ZSeamConfig(), wall_0_wipe_dist);
        }
        if (extruder_nr == mesh.settings.get<ExtruderTrain&>("wall_0_extruder_nr").extruder_nr_ && ! part.spiral_wall.empty())
        {
            added_something = true;
            gcode_layer.setIsInside(true); 
            if (&mesh.layers[gcode_layer.getLayerNr()].parts[0] == &part)
            {
                self.processSpiralizedWall(storage, gcode_layer, mesh_config, part, mesh);
            }
            else
            {
                gcode_layer.addWalls(part.spiral_wall, mesh.settings, mesh_config.inset0_config, mesh_config.inset0_config, mesh_config.inset0_config, mesh_config.inset0_config);
            }
        }
        return added_something;
    }
    else if (preprocess_result.walls_optimizer != nullptr)
    {
        auto travel_retract_before_outer_wall = mesh.settings.get<RetractBeforeOuterWall>("travel_retract_before_outer_wall");
        if (travel_retract_before_outer_wall == RetractBeforeOuterWall::NOT_RETRACTED_FROM_INFILL && ! infill_added)
        {
            travel_retract_before_outer_wall = RetractBeforeOuterWall::AUTOMATIC;
        }
        gcode_layer.setOverhangMasks(preprocess_result.overhang_masks);
        const bool added = preprocess_result.walls_optimizer->addToLayer(travel_retract_before_outer_wall);
        gcode_layer.setOverhangMasks({});
        return added;
    }
    return false;
}
} // namespace n38

//= cura::FffGcodeWriter::getSeamAvoidingLocation
std::optional<Point2LL> r39(const cura::FffGcodeWriter& self, const Shape& filling_part, int filling_angle, Point2LL last_position)
{
    if (filling_part.empty())
    {
        return std::optional<Point2LL>();
    }
    AABB skin_part_bb(filling_part);
    PointMatrix rot((double)((-filling_angle + 90) % 360)); 
    const Point2LL bb_middle = skin_part_bb.getMiddle();
    const Point2LL vec = rot.apply(Point2LL(0, vSize(skin_part_bb.max_ - bb_middle) * 100));
    const PolygonsPointIndex pa = PolygonUtils::findNearestVert(bb_middle + vec, filling_part);
    const PolygonsPointIndex pb = PolygonUtils::findNearestVert(bb_middle - vec, filling_part);
    if (! pa.initialized() || ! pb.initialized())
    {
        return std::optional<Point2LL>();
    }
    if (vSize2(pa.p() - last_position) < vSize2(pb.p() - last_position))
    {
        return std::optional<Point2LL>(std::in_place, pa.p());
    }
    else
    {
        return std::optional<Point2LL>(std::in_place, pb.p());
    }
}

//= cura::FffGcodeWriter::processSkin
bool r40(const cura::FffGcodeWriter& self, const SliceDataStorage& storage, LayerPlan& gcode_layer, const SliceMeshStorage& mesh, const size_t extruder_nr, const MeshPathConfigs& mesh_config, const SliceLayerPart& part)
{
    const size_t top_bottom_extruder_nr = mesh.settings.get<ExtruderTrain&>("top_bottom_extruder_nr").extruder_nr_;
    const size_t roofing_extruder_nr = mesh.settings.get<ExtruderTrain&>("roofing_extruder_nr").extruder_nr_;
    const size_t flooring_extruder_nr = mesh.settings.get<ExtruderTrain&>("flooring_extruder_nr").extruder_nr_;
    const size_t wall_0_extruder_nr = mesh.settings.get<ExtruderTrain&>("wall_0_extruder_nr").extruder_nr_;
    const size_t roofing_layer_count = std::min(mesh.settings.get<size_t>("roofing_layer_count"), mesh.settings.get<size_t>("top_layers"));
    const size_t flooring_layer_count = std::min(mesh.settings.get<size_t>("flooring_layer_count"), mesh.settings.get<size_t>("bottom_layers"));
    if (extruder_nr != top_bottom_extruder_nr && extruder_nr != wall_0_extruder_nr && (extruder_nr != roofing_extruder_nr || roofing_layer_count == 0)
        && (extruder_nr != flooring_extruder_nr || flooring_layer_count == 0))
    {
        return false;
    }
    bool added_something = false;
    PathOrderOptimizer<const SkinPart*> part_order_optimizer(gcode_layer.getLastPlannedPositionOrStartingPosition());
    for (const SkinPart& skin_part : part.skin_parts)
    {
        part_order_optimizer.addPolygon(&skin_part);
    }
    part_order_optimizer.optimize();
    for (const PathOrdering<const SkinPart*>& path : part_order_optimizer.paths_)
    {
        const SkinPart& skin_part = *path.vertices_;
        added_something = added_something | self.processSkinPart(storage, gcode_layer, mesh, extruder_nr, mesh_config, skin_part);
    }
    return added_something;
}

//= cura::FffGcodeWriter::processSkinPart
bool r41(const cura::FffGcodeWriter& self, const SliceDataStorage& storage, LayerPlan& gcode_layer, const SliceMeshStorage& mesh, const size_t extruder_nr, const MeshPathConfigs& mesh_config, const SkinPart& skin_part)
{
    bool added_something = false;
    self.processRoofingFlooring(
        storage,
        gcode_layer,
        mesh,
        extruder_nr,
        self.roofing_settings_names,
        skin_part.roofing_fill,
        mesh_config.roofing_config,
        mesh.roofing_angles,
        added_something);
    self.processRoofingFlooring(
        storage,
        gcode_layer,
        mesh,
        extruder_nr,
        self.flooring_settings_names,
        skin_part.flooring_fill,
        mesh_config.flooring_config,
        mesh.flooring_angles,
        added_something);
    self.processTopBottom(storage, gcode_layer, mesh, extruder_nr, mesh_config, skin_part.skin_fill, added_something);
    return added_something;
}

//= cura::FffGcodeWriter::processRoofingFlooring
namespace n42
{
using RoofingFlooringSettingsNames = cura::FffGcodeWriter::RoofingFlooringSettingsNames;
void r42(const cura::FffGcodeWriter& self, const SliceDataStorage& storage, LayerPlan& gcode_layer, const SliceMeshStorage& mesh, const size_t extruder_nr, const RoofingFlooringSettingsNames& settings_names, const Shape& fill, const GCodePathConfig& config, const std::vector<AngleDegrees>& angles, bool& added_something)
{
    if (fill.empty())
    {
        return;
    }
    const size_t skin_extruder_nr = mesh.settings.get<ExtruderTrain&>(settings_names.extruder_nr).extruder_nr_;
    if (extruder_nr != skin_extruder_nr)
    {
        return;
    }
    const EFillMethod pattern = mesh.settings.get<EFillMethod>(settings_names.pattern);
    AngleDegrees roofing_angle = 45;
    if (angles.size() > 0)
    {
        roofing_angle = angles.at(gcode_layer.getLayerNr() % angles.size());
    }
    const Ratio skin_density = 1.0;
    const coord_t skin_overlap = 0; 
    const LinesOrderingMethod ordering = mesh.settings.get<bool>(settings_names.monotonic) ? LinesOrderingMethod::Monotonic : LinesOrderingMethod::Basic;
    constexpr bool is_roofing_flooring = true;
    self.processSkinPrintFeature(
        storage,
        gcode_layer,
        mesh,
        extruder_nr,
        fill,
        config,
        pattern,
        roofing_angle,
        skin_overlap,
        skin_density,
        ordering,
        is_roofing_flooring,
        added_something);
}
} // namespace n42

//= cura::FffGcodeWriter::processTopBottom
void r43(const cura::FffGcodeWriter& self, const SliceDataStorage& storage, LayerPlan& gcode_layer, const SliceMeshStorage& mesh, const size_t extruder_nr, const MeshPathConfigs& mesh_config, const Shape& skin_fill, bool& added_something)
{
    if (skin_fill.empty())
    {
        return; 
    }
    const size_t top_bottom_extruder_nr = mesh.settings.get<ExtruderTrain&>("top_bottom_extruder_nr").extruder_nr_;
    if (extruder_nr != top_bottom_extruder_nr)
    {
        return;
    }
    const auto& mesh_group = Application::getInstance().current_slice_->scene.current_mesh_group;
    const Settings& mesh_group_settings = mesh_group->settings;
    const size_t layer_nr = gcode_layer.getLayerNr();
    EFillMethod pattern = (layer_nr == 0) ? mesh.settings.get<EFillMethod>("top_bottom_pattern_0") : mesh.settings.get<EFillMethod>("top_bottom_pattern");
    AngleDegrees skin_angle = 45;
    if (mesh.skin_angles.size() > 0)
    {
        skin_angle = mesh.skin_angles.at(layer_nr % mesh.skin_angles.size());
    }
    const GCodePathConfig* skin_config = &mesh_config.skin_config;
    Ratio skin_density = 1.0;
    const coord_t skin_overlap = 0; 
    const bool bridge_settings_enabled = mesh.settings.get<bool>("bridge_settings_enabled");
    const bool bridge_enable_more_layers = bridge_settings_enabled && mesh.settings.get<bool>("bridge_enable_more_layers");
    const Ratio support_threshold = bridge_settings_enabled ? mesh.settings.get<Ratio>("bridge_skin_support_threshold") : 0.0_r;
    const size_t bottom_layers = mesh.settings.get<size_t>("bottom_layers");
    std::optional<coord_t> forced_small_area_width;
    int support_layer_nr = -1;
    const SupportLayer* support_layer = nullptr;
    if (mesh_group_settings.get<bool>("support_enable") || mesh_group->has_painted_support)
    {
        const coord_t layer_height = mesh_config.inset0_config.getLayerThickness();
        const coord_t z_distance_top = mesh.settings.get<coord_t>("support_top_distance");
        const size_t z_distance_top_layers = (z_distance_top / layer_height) + 1;
        support_layer_nr = layer_nr - z_distance_top_layers;
    }
    auto handle_bridge_skin = [&](const int bridge_layer, const GCodePathConfig* config, const double density) 
    {
        if (support_layer_nr >= (bridge_layer - 1))
        {
            support_layer = &storage.support.supportLayers[support_layer_nr - (bridge_layer - 1)];
        }
        Shape supported_skin_part_regions;
        const std::optional<AngleDegrees> bridge_angle = bridgeAngle(mesh, skin_fill, storage, layer_nr, bridge_layer, support_layer, supported_skin_part_regions);
        if (bridge_angle.has_value() || (support_threshold > 0 && (supported_skin_part_regions.area() / (skin_fill.area() + 1) < support_threshold)))
        {
            if (bridge_angle.has_value())
            {
                switch (bridge_layer)
                {
                default:
                case 1:
                    skin_angle = bridge_angle.value();
                    break;
                case 2:
                    if (bottom_layers > 2)
                    {
                        skin_angle = bridge_angle.value() + 45;
                    }
                    else
                    {
                        skin_angle = bridge_angle.value() + 90;
                    }
                    break;
                case 3:
                    skin_angle = bridge_angle.value() + 135;
                    break;
                }
            }
            forced_small_area_width = 0;
            pattern = EFillMethod::LINES; 
            if (bridge_settings_enabled)
            {
                skin_config = config;
                skin_density = density;
            }
            return true;
        }
        return false;
    };
    bool is_bridge_skin = false;
    if (layer_nr > 0)
    {
        is_bridge_skin = handle_bridge_skin(1, &mesh_config.bridge_skin_config, mesh.settings.get<Ratio>("bridge_skin_density"));
    }
    if (bridge_enable_more_layers && ! is_bridge_skin && layer_nr > 1 && bottom_layers > 1)
    {
        is_bridge_skin = handle_bridge_skin(2, &mesh_config.bridge_skin_config2, mesh.settings.get<Ratio>("bridge_skin_density_2"));
        if (! is_bridge_skin && layer_nr > 2 && bottom_layers > 2)
        {
            is_bridge_skin = handle_bridge_skin(3, &mesh_config.bridge_skin_config3, mesh.settings.get<Ratio>("bridge_skin_density_3"));
        }
    }
    double fan_speed = GCodePathConfig::FAN_SPEED_DEFAULT;
    if (layer_nr > 0 && skin_config == &mesh_config.skin_config && support_layer_nr >= 0 && mesh.settings.get<bool>("support_fan_enable")
        && mesh.settings.get<bool>("cool_fan_enabled"))
    {
        AABB skin_bb(skin_fill);
        support_layer = &storage.support.supportLayers[support_layer_nr];
        bool supported = false;
        if (! support_layer->support_roof.empty())
        {
            AABB support_roof_bb(support_layer->support_roof);
            if (skin_bb.hit(support_roof_bb))
            {
                supported = ! skin_fill.intersection(support_layer->support_roof).empty();
            }
        }
        else
        {
            for (auto support_part : support_layer->support_infill_parts)
            {
                AABB support_part_bb(support_part.outline_);
                if (skin_bb.hit(support_part_bb))
                {
                    supported = ! skin_fill.intersection(support_part.outline_).empty();
                    if (supported)
                    {
                        break;
                    }
                }
            }
        }
        if (supported)
        {
            fan_speed = mesh.settings.get<Ratio>("support_supported_skin_fan_speed") * 100.0;
        }
    }
    LinesOrderingMethod ordering;
    if (is_bridge_skin)
    {
        ordering = mesh.settings.get<bool>("bridge_interlace_lines") ? LinesOrderingMethod::Interlaced : LinesOrderingMethod::Basic;
    }
    else if (mesh.settings.get<bool>("skin_monotonic"))
    {
        ordering = LinesOrderingMethod::Monotonic;
    }
    else
    {
        ordering = LinesOrderingMethod::Basic;
    }
    constexpr bool is_roofing_flooring = false;
    self.processSkinPrintFeature(
        storage,
        gcode_layer,
        mesh,
        extruder_nr,
        skin_fill,
        *skin_config,
        pattern,
        skin_angle,
        skin_overlap,
        skin_density,
        ordering,
        is_roofing_flooring,
        added_something,
        fan_speed,
        forced_small_area_width);
}

//= cura::FffGcodeWriter::processSkinPrintFeature
void r44(const cura::FffGcodeWriter& self, const SliceDataStorage& storage, LayerPlan& gcode_layer, const SliceMeshStorage& mesh, const size_t extruder_nr, const Shape& area, const GCodePathConfig& config, EFillMethod pattern, const AngleDegrees skin_angle, const coord_t skin_overlap, const Ratio skin_density, const LinesOrderingMethod ordering, const bool is_roofing_flooring, bool& added_something, double fan_speed, std::optional<coord_t> forced_small_area_width)
{
    Shape skin_polygons;
    OpenLinesSet skin_lines;
    std::vector<VariableWidthLines> skin_paths;
    constexpr int infill_multiplier = 1;
    constexpr int extra_infill_shift = 0;
    const size_t wall_line_count = mesh.settings.get<size_t>("skin_outline_count");
    const bool zig_zaggify_infill = pattern == EFillMethod::ZIG_ZAG;
    const bool connect_polygons = mesh.settings.get<bool>("connect_skin_polygons");
    coord_t max_resolution = mesh.settings.get<coord_t>("meshfix_maximum_resolution");
    coord_t max_deviation = mesh.settings.get<coord_t>("meshfix_maximum_deviation");
    const Point2LL infill_origin;
    const bool skip_line_stitching = ordering == LinesOrderingMethod::Monotonic || ordering == LinesOrderingMethod::Interlaced;
    constexpr bool fill_gaps = true;
    constexpr bool connected_zigzags = false;
    constexpr bool use_endpieces = true;
    constexpr bool skip_some_zags = false;
    constexpr int zag_skip_count = 0;
    constexpr coord_t pocket_size = 0;
    const bool small_areas_on_surface = mesh.settings.get<bool>("small_skin_on_surface");
    const coord_t line_width = config.getLineWidth();
    const coord_t small_area_width
        = forced_small_area_width.value_or((small_areas_on_surface || ! is_roofing_flooring) ? mesh.settings.get<coord_t>("small_skin_width") : line_width / 4);
    const auto& current_layer = mesh.layers[gcode_layer.getLayerNr()];
    const auto& exposed_to_air = current_layer.top_surface.areas.unionPolygons(current_layer.bottom_surface);
    Infill infill_comp(
        pattern,
        zig_zaggify_infill,
        connect_polygons,
        area,
        config.getLineWidth(),
        config.getLineWidth() / skin_density,
        skin_overlap,
        infill_multiplier,
        skin_angle,
        gcode_layer.z_,
        extra_infill_shift,
        max_resolution,
        max_deviation,
        wall_line_count,
        small_area_width,
        infill_origin,
        skip_line_stitching,
        fill_gaps,
        connected_zigzags,
        use_endpieces,
        skip_some_zags,
        zag_skip_count,
        pocket_size);
    infill_comp.generate(
        skin_paths,
        skin_polygons,
        skin_lines,
        mesh.settings,
        gcode_layer.getLayerNr(),
        SectionType::SKIN,
        nullptr,
        nullptr,
        nullptr,
        small_areas_on_surface ? Shape() : exposed_to_air);
    if (! skin_polygons.empty() || ! skin_lines.empty() || ! skin_paths.empty())
    {
        added_something = true;
        gcode_layer.setIsInside(true); 
        if (! skin_paths.empty())
        {
            constexpr coord_t wipe_dist = 0;
            const ZSeamConfig z_seam_config(
                mesh.settings.get<EZSeamType>("z_seam_type"),
                mesh.getZSeamHint(),
                mesh.settings.get<EZSeamCornerPrefType>("z_seam_corner"),
                config.getLineWidth() * 2);
            InsetOrderOptimizer wall_orderer(
                storage,
                gcode_layer,
                mesh.settings,
                extruder_nr,
                config,
                config,
                config,
                config,
                config,
                config,
                config,
                config,
                wipe_dist,
                wipe_dist,
                extruder_nr,
                extruder_nr,
                z_seam_config,
                skin_paths,
                mesh.bounding_box.flatten().getMiddle());
            added_something |= wall_orderer.addToLayer();
        }
        if (! skin_polygons.empty())
        {
            gcode_layer.addTravel(skin_polygons[0][0]);
            gcode_layer.addPolygonsByOptimizer(skin_polygons, config, mesh.settings);
        }
        if (ordering == LinesOrderingMethod::Monotonic || ordering == LinesOrderingMethod::Interlaced)
        {
            const coord_t exclude_distance = config.getLineWidth() * 0.8;
            const bool interlaced = ordering == LinesOrderingMethod::Interlaced;
            const AngleRadians monotonic_direction = AngleRadians(skin_angle);
            constexpr Ratio flow = 1.0_r;
            const coord_t max_adjacent_distance
                = infill_comp.getLineDistance()
                * 1.1; 
            if (pattern == EFillMethod::GRID || pattern == EFillMethod::LINES || pattern == EFillMethod::TRIANGLES || pattern == EFillMethod::CUBIC
                || pattern == EFillMethod::TETRAHEDRAL || pattern == EFillMethod::QUARTER_CUBIC || pattern == EFillMethod::CUBICSUBDIV || pattern == EFillMethod::LIGHTNING)
            {
                gcode_layer.addLinesMonotonic(
                    area,
                    skin_lines,
                    config,
                    SpaceFillType::Lines,
                    monotonic_direction,
                    max_adjacent_distance,
                    exclude_distance,
                    mesh.settings.get<coord_t>("infill_wipe_dist"),
                    flow,
                    fan_speed,
                    interlaced);
            }
            else
            {
                const SpaceFillType space_fill_type = (pattern == EFillMethod::ZIG_ZAG) ? SpaceFillType::PolyLines : SpaceFillType::Lines;
                constexpr coord_t wipe_dist = 0;
                gcode_layer.addLinesMonotonic(
                    area,
                    skin_lines,
                    config,
                    space_fill_type,
                    monotonic_direction,
                    max_adjacent_distance,
                    exclude_distance,
                    wipe_dist,
                    flow,
                    fan_speed,
                    interlaced);
            }
        }
        else
        {
            std::optional<Point2LL> near_start_location;
            const EFillMethod actual_pattern
                = (gcode_layer.getLayerNr() == 0) ? mesh.settings.get<EFillMethod>("top_bottom_pattern_0") : mesh.settings.get<EFillMethod>("top_bottom_pattern");
            if (actual_pattern == EFillMethod::LINES || actual_pattern == EFillMethod::ZIG_ZAG)
            { 
                near_start_location = self.getSeamAvoidingLocation(area, skin_angle, gcode_layer.getLastPlannedPositionOrStartingPosition());
            }
            constexpr bool enable_travel_optimization = false;
            constexpr double flow = 1.0;
            if (actual_pattern == EFillMethod::GRID || actual_pattern == EFillMethod::LINES || actual_pattern == EFillMethod::TRIANGLES || actual_pattern == EFillMethod::CUBIC
                || actual_pattern == EFillMethod::TETRAHEDRAL || actual_pattern == EFillMethod::QUARTER_CUBIC || actual_pattern == EFillMethod::CUBICSUBDIV
                || actual_pattern == EFillMethod::LIGHTNING)
            {
                gcode_layer.addLinesByOptimizer(
                    skin_lines,
                    config,
                    SpaceFillType::Lines,
                    enable_travel_optimization,
                    mesh.settings.get<coord_t>("infill_wipe_dist"),
                    flow,
                    near_start_location,
                    fan_speed);
            }
            else
            {
                SpaceFillType space_fill_type = (actual_pattern == EFillMethod::ZIG_ZAG) ? SpaceFillType::PolyLines : SpaceFillType::Lines;
                constexpr coord_t wipe_dist = 0;
                gcode_layer.addLinesByOptimizer(skin_lines, config, space_fill_type, enable_travel_optimization, wipe_dist, flow, near_start_location, fan_speed);
            }
        }
    }
}

//= cura::FffGcodeWriter::processIroning
bool r45(const cura::FffGcodeWriter& self, const SliceDataStorage& storage, const SliceMeshStorage& mesh, const SliceLayer& layer, const GCodePathConfig& line_config, LayerPlan& gcode_layer)
{
    bool added_something = false;
    const bool ironing_enabled = mesh.settings.get<bool>("ironing_enabled");
    const bool ironing_only_highest_layer = mesh.settings.get<bool>("ironing_only_highest_layer");
    if (ironing_enabled && (! ironing_only_highest_layer || mesh.layer_nr_max_filled_layer == gcode_layer.getLayerNr()))
    {
        gcode_layer.setIsInside(true);
        added_something |= layer.top_surface.ironing(storage, mesh, line_config, gcode_layer);
        gcode_layer.setIsInside(false);
    }
    return added_something;
}

//= cura::FffGcodeWriter::addSupportToGCode
bool r46(const cura::FffGcodeWriter& self, const SliceDataStorage& storage, LayerPlan& gcode_layer, const size_t extruder_nr)
{
    bool support_added = false;
    if (! storage.support.generated || gcode_layer.getLayerNr() > storage.support.layer_nr_max_filled_layer)
    {
        return support_added;
    }
    const Settings& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    const size_t support_roof_extruder_nr = mesh_group_settings.get<ExtruderTrain&>("support_roof_extruder_nr").extruder_nr_;
    const size_t support_bottom_extruder_nr = mesh_group_settings.get<ExtruderTrain&>("support_bottom_extruder_nr").extruder_nr_;
    size_t support_infill_extruder_nr = (gcode_layer.getLayerNr() <= 0) ? mesh_group_settings.get<ExtruderTrain&>("support_extruder_nr_layer_0").extruder_nr_
                                                                        : mesh_group_settings.get<ExtruderTrain&>("support_infill_extruder_nr").extruder_nr_;
    const SupportLayer& support_layer = storage.support.supportLayers[std::max(LayerIndex{ 0 }, gcode_layer.getLayerNr())];
    if (support_layer.support_bottom.empty() && support_layer.support_roof.empty() && support_layer.support_infill_parts.empty())
    {
        return support_added;
    }
    if (extruder_nr == support_roof_extruder_nr)
    {
        support_added |= self.addSupportRoofsToGCode(storage, support_layer.support_fractional_roof, gcode_layer.configs_storage_.support_fractional_roof_config, gcode_layer);
    }
    if (extruder_nr == support_infill_extruder_nr)
    {
        support_added |= self.processSupportInfill(storage, gcode_layer);
    }
    if (extruder_nr == support_roof_extruder_nr)
    {
        support_added |= self.addSupportRoofsToGCode(
            storage,
            support_layer.support_roof.difference(support_layer.support_fractional_roof),
            gcode_layer.configs_storage_.support_roof_config,
            gcode_layer);
    }
    if (extruder_nr == support_bottom_extruder_nr)
    {
        support_added |= self.addSupportBottomsToGCode(storage, gcode_layer);
    }
    return support_added;
}

//= cura::FffGcodeWriter::addSupportRoofsToGCode
bool r48(const cura::FffGcodeWriter& self, const SliceDataStorage& storage, const Shape& support_roof_outlines, const GCodePathConfig& current_roof_config, LayerPlan& gcode_layer)
{
    const SupportLayer& support_layer = storage.support.supportLayers[std::max(LayerIndex{ 0 }, gcode_layer.getLayerNr())];
    if (! storage.support.generated || gcode_layer.getLayerNr() > storage.support.layer_nr_max_filled_layer || support_layer.support_roof.empty())
    {
        return false; 
    }
    const size_t roof_extruder_nr = Application::getInstance().current_slice_->scene.current_mesh_group->settings.get<ExtruderTrain&>("support_roof_extruder_nr").extruder_nr_;
    const ExtruderTrain& roof_extruder = Application::getInstance().current_slice_->scene.extruders[roof_extruder_nr];
    const EFillMethod pattern = roof_extruder.settings_.get<EFillMethod>("support_roof_pattern");
    AngleDegrees fill_angle = 0;
    if (! storage.support.support_roof_angles.empty())
    {
        int divisor = static_cast<int>(storage.support.support_roof_angles.size());
        int index = ((gcode_layer.getLayerNr() % divisor) + divisor) % divisor;
        fill_angle = storage.support.support_roof_angles.at(index);
    }
    const bool zig_zaggify_infill = pattern == EFillMethod::ZIG_ZAG;
    const bool connect_polygons = false; 
    constexpr coord_t support_roof_overlap = 0; 
    constexpr size_t infill_multiplier = 1;
    constexpr coord_t extra_infill_shift = 0;
    const auto wall_line_count = roof_extruder.settings_.get<size_t>("support_roof_wall_count");
    const coord_t small_area_width = roof_extruder.settings_.get<coord_t>("min_even_wall_line_width") * 2; 
    const Point2LL infill_origin;
    constexpr bool skip_stitching = false;
    constexpr bool fill_gaps = true;
    constexpr bool use_endpieces = true;
    constexpr bool connected_zigzags = false;
    constexpr bool skip_some_zags = false;
    constexpr size_t zag_skip_count = 0;
    constexpr coord_t pocket_size = 0;
    const coord_t max_resolution = roof_extruder.settings_.get<coord_t>("meshfix_maximum_resolution");
    const coord_t max_deviation = roof_extruder.settings_.get<coord_t>("meshfix_maximum_deviation");
    coord_t support_roof_line_distance = roof_extruder.settings_.get<coord_t>("support_roof_line_distance");
    const coord_t support_roof_line_width = roof_extruder.settings_.get<coord_t>("support_roof_line_width");
    if (gcode_layer.getLayerNr() == 0 && support_roof_line_distance < 2 * support_roof_line_width)
    { 
        support_roof_line_distance *= roof_extruder.settings_.get<Ratio>("initial_layer_line_width_factor");
    }
    Shape infill_outline = support_roof_outlines;
    Shape wall;
    if (gcode_layer.getLayerNr() == 0)
    {
        wall = support_roof_outlines.offset(-support_roof_line_width / 2);
        infill_outline = wall.offset(-support_roof_line_width / 2);
    }
    infill_outline = Simplify(roof_extruder.settings_).polygon(infill_outline);
    Infill roof_computation(
        pattern,
        zig_zaggify_infill,
        connect_polygons,
        infill_outline,
        current_roof_config.getLineWidth(),
        support_roof_line_distance,
        support_roof_overlap,
        infill_multiplier,
        fill_angle,
        gcode_layer.z_ + current_roof_config.z_offset,
        extra_infill_shift,
        max_resolution,
        max_deviation,
        wall_line_count,
        small_area_width,
        infill_origin,
        skip_stitching,
        fill_gaps,
        connected_zigzags,
        use_endpieces,
        skip_some_zags,
        zag_skip_count,
        pocket_size);
    Shape roof_polygons;
    std::vector<VariableWidthLines> roof_paths;
    OpenLinesSet roof_lines;
    roof_computation.generate(roof_paths, roof_polygons, roof_lines, roof_extruder.settings_, gcode_layer.getLayerNr(), SectionType::SUPPORT);
    if ((gcode_layer.getLayerNr() == 0 && wall.empty()) || (gcode_layer.getLayerNr() > 0 && roof_paths.empty() && roof_polygons.empty() && roof_lines.empty()))
    {
        return false; 
    }
    gcode_layer.setIsInside(false); 
    if (gcode_layer.getLayerNr() == 0)
    {
        gcode_layer.addPolygonsByOptimizer(wall, current_roof_config, roof_extruder.settings_);
    }
    if (! roof_polygons.empty())
    {
        gcode_layer.addTravel(roof_polygons[0][0]);
        gcode_layer.addPolygonsByOptimizer(roof_polygons, current_roof_config, roof_extruder.settings_);
    }
    if (! roof_paths.empty())
    {
        const GCodePathConfig& config = current_roof_config;
        constexpr coord_t wipe_dist = 0;
        const ZSeamConfig z_seam_config(EZSeamType::SHORTEST, gcode_layer.getLastPlannedPositionOrStartingPosition(), EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_INNER, false);
        InsetOrderOptimizer wall_orderer(
            storage,
            gcode_layer,
            roof_extruder.settings_,
            roof_extruder_nr,
            config,
            config,
            config,
            config,
            config,
            config,
            config,
            config,
            wipe_dist,
            wipe_dist,
            roof_extruder_nr,
            roof_extruder_nr,
            z_seam_config,
            roof_paths,
            storage.getModelBoundingBox().flatten().getMiddle());
        wall_orderer.addToLayer();
    }
    gcode_layer.addLinesByOptimizer(roof_lines, current_roof_config, (pattern == EFillMethod::ZIG_ZAG) ? SpaceFillType::PolyLines : SpaceFillType::Lines);
    return true;
}

//= cura::FffGcodeWriter::addSupportBottomsToGCode
bool r49(const cura::FffGcodeWriter& self, const SliceDataStorage& storage, LayerPlan& gcode_layer)
{
    const SupportLayer& support_layer = storage.support.supportLayers[std::max(LayerIndex{ 0 }, gcode_layer.getLayerNr())];
    if (! storage.support.generated || gcode_layer.getLayerNr() > storage.support.layer_nr_max_filled_layer || support_layer.support_bottom.empty())
    {
        return false; 
    }
    const size_t bottom_extruder_nr = Application::getInstance().current_slice_->scene.current_mesh_group->settings.get<ExtruderTrain&>("support_bottom_extruder_nr").extruder_nr_;
    const ExtruderTrain& bottom_extruder = Application::getInstance().current_slice_->scene.extruders[bottom_extruder_nr];
    const EFillMethod pattern = bottom_extruder.settings_.get<EFillMethod>("support_bottom_pattern");
    AngleDegrees fill_angle = 0;
    if (! storage.support.support_bottom_angles.empty())
    {
        int divisor = static_cast<int>(storage.support.support_bottom_angles.size());
        int index = ((gcode_layer.getLayerNr() % divisor) + divisor) % divisor;
        fill_angle = storage.support.support_bottom_angles.at(index);
    }
    const bool zig_zaggify_infill = pattern == EFillMethod::ZIG_ZAG;
    constexpr bool connect_polygons = false; 
    constexpr coord_t support_bottom_overlap = 0; 
    constexpr size_t infill_multiplier = 1;
    constexpr coord_t extra_infill_shift = 0;
    const auto wall_line_count = bottom_extruder.settings_.get<size_t>("support_bottom_wall_count");
    const coord_t small_area_width = bottom_extruder.settings_.get<coord_t>("min_even_wall_line_width") * 2; 
    const Point2LL infill_origin;
    constexpr bool skip_stitching = false;
    constexpr bool fill_gaps = true;
    constexpr bool use_endpieces = true;
    constexpr bool connected_zigzags = false;
    constexpr bool skip_some_zags = false;
    constexpr int zag_skip_count = 0;
    constexpr coord_t pocket_size = 0;
    const coord_t max_resolution = bottom_extruder.settings_.get<coord_t>("meshfix_maximum_resolution");
    const coord_t max_deviation = bottom_extruder.settings_.get<coord_t>("meshfix_maximum_deviation");
    const coord_t support_bottom_line_distance = bottom_extruder.settings_.get<coord_t>(
        "support_bottom_line_distance"); 
    Infill bottom_computation(
        pattern,
        zig_zaggify_infill,
        connect_polygons,
        support_layer.support_bottom,
        gcode_layer.configs_storage_.support_bottom_config.getLineWidth(),
        support_bottom_line_distance,
        support_bottom_overlap,
        infill_multiplier,
        fill_angle,
        gcode_layer.z_,
        extra_infill_shift,
        max_resolution,
        max_deviation,
        wall_line_count,
        small_area_width,
        infill_origin,
        skip_stitching,
        fill_gaps,
        connected_zigzags,
        use_endpieces,
        skip_some_zags,
        zag_skip_count,
        pocket_size);
    Shape bottom_polygons;
    std::vector<VariableWidthLines> bottom_paths;
    OpenLinesSet bottom_lines;
    bottom_computation.generate(bottom_paths, bottom_polygons, bottom_lines, bottom_extruder.settings_, gcode_layer.getLayerNr(), SectionType::SUPPORT);
    if (bottom_paths.empty() && bottom_polygons.empty() && bottom_lines.empty())
    {
        return false;
    }
    gcode_layer.setIsInside(false); 
    if (! bottom_polygons.empty())
    {
        gcode_layer.addTravel(bottom_polygons[0][0]);
        gcode_layer.addPolygonsByOptimizer(bottom_polygons, gcode_layer.configs_storage_.support_bottom_config, bottom_extruder.settings_);
    }
    if (! bottom_paths.empty())
    {
        const GCodePathConfig& config = gcode_layer.configs_storage_.support_bottom_config;
        constexpr coord_t wipe_dist = 0;
        const ZSeamConfig z_seam_config(EZSeamType::SHORTEST, gcode_layer.getLastPlannedPositionOrStartingPosition(), EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_INNER, false);
        InsetOrderOptimizer wall_orderer(
            storage,
            gcode_layer,
            bottom_extruder.settings_,
            bottom_extruder_nr,
            config,
            config,
            config,
            config,
            config,
            config,
            config,
            config,
            wipe_dist,
            wipe_dist,
            bottom_extruder_nr,
            bottom_extruder_nr,
            z_seam_config,
            bottom_paths,
            storage.getModelBoundingBox().flatten().getMiddle());
        wall_orderer.addToLayer();
    }
    gcode_layer.addLinesByOptimizer(
        bottom_lines,
        gcode_layer.configs_storage_.support_bottom_config,
        (pattern == EFillMethod::ZIG_ZAG) ? SpaceFillType::PolyLines : SpaceFillType::Lines);
    return true;
}

//= cura::FffGcodeWriter::setExtruder_addPrime
void r50(const cura::FffGcodeWriter& self, const SliceDataStorage& storage, LayerPlan& gcode_layer, const size_t extruder_nr, const bool append_to_prime_tower)
{
    const size_t previous_extruder = gcode_layer.getExtruder();
    const bool extruder_changed = gcode_layer.setExtruder(extruder_nr);
    if (extruder_changed)
    {
        if (self.extruder_prime_layer_nr[extruder_nr] == gcode_layer.getLayerNr())
        {
            const ExtruderTrain& train = Application::getInstance().current_slice_->scene.extruders[extruder_nr];
            if (train.settings_.get<bool>("prime_blob_enable")) 
            {
                bool prime_pos_is_abs = train.settings_.get<bool>("extruder_prime_pos_abs");
                Point2LL prime_pos = Point2LL(train.settings_.get<coord_t>("extruder_prime_pos_x"), train.settings_.get<coord_t>("extruder_prime_pos_y"));
                gcode_layer.addTravel(prime_pos_is_abs ? prime_pos : gcode_layer.getLastPlannedPositionOrStartingPosition() + prime_pos);
                gcode_layer.planPrime();
            }
            else
            {
                gcode_layer.planPrime(0.0);
            }
        }
        if (! gcode_layer.getSkirtBrimIsPlanned(extruder_nr))
        {
            self.processSkirtBrim(storage, gcode_layer, extruder_nr, gcode_layer.getLayerNr());
            self.processSupportBrim(storage, gcode_layer, extruder_nr, gcode_layer.getLayerNr());
        }
    }
    if (append_to_prime_tower)
    {
        self.addPrimeTower(storage, gcode_layer, previous_extruder);
    }
}

//= cura::FffGcodeWriter::addPrimeTower
void r51(const cura::FffGcodeWriter& self, const SliceDataStorage& storage, LayerPlan& gcode_layer, const size_t prev_extruder)
{
    if (! storage.prime_tower_)
    {
        return;
    }
    const LayerIndex layer_nr = gcode_layer.getLayerNr();
    const std::vector<ExtruderUse> extruder_order = self.extruder_order_per_layer.get(layer_nr);
    storage.prime_tower_->addToGcode(storage, gcode_layer, extruder_order, prev_extruder, gcode_layer.getExtruder());
}

//= cura::FffGcodeWriter::finalize
void r52(cura::FffGcodeWriter& self)
{
    const Settings& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    if (mesh_group_settings.get<std::string>("print_sequence") == "one_at_a_time")
    {
        self.gcode.setZ(self.max_object_height + MM2INT(5));
        Application::getInstance().communication_->sendCurrentPosition(self.gcode.getPosition());
        self.gcode.writeTravel(self.gcode.getPositionXY(), Application::getInstance().current_slice_->scene.extruders[self.gcode.getExtruderNr()].settings_.get<Velocity>("speed_z_hop"));
    }
    const Scene& scene = Application::getInstance().current_slice_->scene;
    const Settings& extruder_settings = scene.extruders[self.gcode.getExtruderNr()].settings_;
    const auto extruder_end_code = extruder_settings.get<std::string>("machine_extruder_end_code");
    if (! extruder_end_code.empty())
    {
        self.gcode.finalizeExtruder(extruder_end_code);
    }
    if (mesh_group_settings.get<bool>("machine_heated_bed"))
    {
        self.gcode.writeBedTemperatureCommand(0); 
    }
    if (mesh_group_settings.get<bool>("machine_heated_build_volume") && mesh_group_settings.get<Temperature>("build_volume_temperature") != 0)
    {
        self.gcode.writeBuildVolumeTemperatureCommand(0); 
    }
    Application::getInstance().communication_->sendSliceUUID(self.slice_uuid);
    if (mesh_group_settings.get<bool>("acceleration_enabled"))
    {
        self.gcode.writePrintAcceleration(mesh_group_settings.get<Acceleration>("machine_acceleration"));
        self.gcode.writeTravelAcceleration(mesh_group_settings.get<Acceleration>("machine_acceleration"));
    }
    if (mesh_group_settings.get<bool>("jerk_enabled"))
    {
        self.gcode.writeJerk(mesh_group_settings.get<Velocity>("machine_max_jerk_xy"));
    }
    const auto machine_end_gcode = mesh_group_settings.get<std::string>("machine_end_gcode");
    if (! machine_end_gcode.empty() && mesh_group_settings.get<bool>("relative_extrusion"))
    {
        self.gcode.writeExtrusionMode(false); 
    }
    self.gcode.finalize(machine_end_gcode, self.print_info_);
    self.gcode.resetExtrusionMode();
    for (size_t e = 0; e < Application::getInstance().current_slice_->scene.extruders.size(); e++)
    {
        self.gcode.writeTemperatureCommand(e, 0, false);
    }
    self.gcode.writeComment("End of Gcode");
    self.gcode.flushOutputStream();
}

//= cura::FffPolygonGenerator::generateAreas
bool r53(cura::FffPolygonGenerator& self, SliceDataStorage& storage, MeshGroup* meshgroup, TimeKeeper& timeKeeper)
{
    MeshMaterialSplitter::makePaintingModifierMeshes(meshgroup);
    if (! self.sliceModel(meshgroup, timeKeeper, storage))
    {
        return false;
    }
    self.slices2polygons(storage, timeKeeper);
    return true;
}

//= cura::FffPolygonGenerator::getDraftShieldLayerCount
size_t r54(const cura::FffPolygonGenerator& self, const size_t total_layers)
{
    const Settings& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    if (! mesh_group_settings.get<bool>("draft_shield_enabled"))
    {
        return 0;
    }
    switch (mesh_group_settings.get<DraftShieldHeightLimitation>("draft_shield_height_limitation"))
    {
    case DraftShieldHeightLimitation::FULL:
        return total_layers;
    case DraftShieldHeightLimitation::LIMITED:
        return std::max(
            (coord_t)0,
            (mesh_group_settings.get<coord_t>("draft_shield_height") - mesh_group_settings.get<coord_t>("layer_height_0")) / mesh_group_settings.get<coord_t>("layer_height") + 1);
    default:
        return total_layers;
    }
}

//= cura::FffPolygonGenerator::processBasicWallsSkinInfill
void r57(cura::FffPolygonGenerator& self, SliceDataStorage& storage, const size_t mesh_order_idx, const std::vector<size_t>& mesh_order, ProgressStageEstimator& inset_skin_progress_estimate)
{
    size_t mesh_idx = mesh_order[mesh_order_idx];
    SliceMeshStorage& mesh = *storage.meshes[mesh_idx];
    size_t mesh_layer_count = mesh.layers.size();
    if (mesh.settings.get<bool>("infill_mesh"))
    {
        self.processInfillMesh(storage, mesh_order_idx, mesh_order);
    }
    std::vector<double> walls_vs_skin_timing({ 22.953, 48.858 });
    ProgressStageEstimator* mesh_inset_skin_progress_estimator = new ProgressStageEstimator(walls_vs_skin_timing);
    inset_skin_progress_estimate.nextStage(mesh_inset_skin_progress_estimator); 
    ProgressEstimatorLinear* inset_estimator = new ProgressEstimatorLinear(mesh_layer_count);
    mesh_inset_skin_progress_estimator->nextStage(inset_estimator);
    struct
    {
        ProgressStageEstimator& progress_estimator;
        std::mutex mutex{};
        std::atomic<size_t> processed_layer_count = 0;
        void operator++(int)
        {
            std::unique_lock<std::mutex> lock(mutex, std::try_to_lock);
            if (lock)
            { 
                size_t processed_layer_count_ = processed_layer_count.fetch_add(1, std::memory_order_relaxed);
                double progress = progress_estimator.progress(processed_layer_count_);
                Progress::messageProgress(Progress::Stage::INSET_SKIN, progress * 100, 100);
            }
            else
            {
                processed_layer_count.fetch_add(1, std::memory_order_release);
            }
        }
        void reset()
        {
            processed_layer_count.store(0, std::memory_order_relaxed);
        }
    } guarded_progress = { inset_skin_progress_estimate };
    cura::parallel_for<size_t>(
        0,
        mesh_layer_count,
        [&](size_t layer_number)
        {
            self.processWalls(mesh, layer_number);
            guarded_progress++;
        });
    ProgressEstimatorLinear* skin_estimator = new ProgressEstimatorLinear(mesh_layer_count);
    mesh_inset_skin_progress_estimator->nextStage(skin_estimator);
    bool process_infill = mesh.settings.get<coord_t>("infill_line_distance") > 0;
    if (! process_infill)
    { 
        const Scene& scene = Application::getInstance().current_slice_->scene;
        for (size_t other_mesh_order_idx = mesh_order_idx + 1; other_mesh_order_idx < mesh_order.size(); ++other_mesh_order_idx)
        {
            const size_t other_mesh_idx = mesh_order[other_mesh_order_idx];
            SliceMeshStorage& other_mesh = *storage.meshes[other_mesh_idx];
            if (other_mesh.settings.get<bool>("infill_mesh"))
            {
                AABB3D aabb = scene.current_mesh_group->meshes[mesh_idx].getAABB();
                AABB3D other_aabb = scene.current_mesh_group->meshes[other_mesh_idx].getAABB();
                if (aabb.hit(other_aabb))
                {
                    process_infill = true;
                }
            }
        }
    }
    const Settings& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    bool magic_spiralize = mesh_group_settings.get<bool>("magic_spiralize");
    size_t mesh_max_initial_bottom_layer_count = 0;
    if (magic_spiralize)
    {
        mesh_max_initial_bottom_layer_count = std::max(mesh_max_initial_bottom_layer_count, mesh.settings.get<size_t>("initial_bottom_layers"));
    }
    guarded_progress.reset();
    cura::parallel_for<size_t>(
        0,
        mesh_layer_count,
        [&](size_t layer_number)
        {
            if (! magic_spiralize || layer_number < mesh_max_initial_bottom_layer_count) 
            {
                self.processSkinsAndInfill(mesh, layer_number, process_infill);
            }
            guarded_progress++;
        });
}

//= cura::FffPolygonGenerator::processDerivedWallsSkinInfill
void r61(cura::FffPolygonGenerator& self, SliceMeshStorage& mesh)
{
    if (mesh.settings.get<bool>("infill_support_enabled"))
    { 
        SkinInfillAreaComputation::generateInfillSupport(mesh);
    }
    SkinInfillAreaComputation::generateGradualInfill(mesh);
    if (mesh.settings.get<coord_t>("infill_line_distance") > 0 && mesh.settings.get<EFillMethod>("infill_pattern") == EFillMethod::CUBICSUBDIV)
    {
        const Point3LL mesh_middle = mesh.bounding_box.getMiddle();
        const Point2LL infill_origin(mesh_middle.x_ + mesh.settings.get<coord_t>("infill_offset_x"), mesh_middle.y_ + mesh.settings.get<coord_t>("infill_offset_y"));
        SubDivCube::precomputeOctree(mesh, infill_origin);
    }
    if (mesh.settings.get<coord_t>("infill_line_distance") > 0
        && (mesh.settings.get<EFillMethod>("infill_pattern") == EFillMethod::CROSS || mesh.settings.get<EFillMethod>("infill_pattern") == EFillMethod::CROSS_3D))
    {
        const std::string cross_subdivision_spec_image_file = mesh.settings.get<std::string>("cross_infill_density_image");
        std::ifstream cross_fs(cross_subdivision_spec_image_file.c_str());
        if (! cross_subdivision_spec_image_file.empty() && cross_fs.good())
        {
            mesh.cross_fill_provider = std::make_shared<SierpinskiFillProvider>(
                mesh.bounding_box,
                mesh.settings.get<coord_t>("infill_line_distance"),
                mesh.settings.get<coord_t>("infill_line_width"),
                cross_subdivision_spec_image_file);
        }
        else
        {
            if (! cross_subdivision_spec_image_file.empty() && cross_subdivision_spec_image_file != " ")
            {
            }
            mesh.cross_fill_provider
                = std::make_shared<SierpinskiFillProvider>(mesh.bounding_box, mesh.settings.get<coord_t>("infill_line_distance"), mesh.settings.get<coord_t>("infill_line_width"));
        }
    }
    if (mesh.settings.get<coord_t>("infill_line_distance") > 0 && mesh.settings.get<EFillMethod>("infill_pattern") == EFillMethod::LIGHTNING)
    {
        mesh.lightning_generator = std::make_shared<LightningGenerator>(mesh);
    }
    SkinInfillAreaComputation::combineInfillLayers(mesh);
    if (mesh.settings.get<bool>("magic_fuzzy_skin_enabled") && ! mesh.settings.get<bool>("interlocking_enable"))
    {
        self.processFuzzyWalls(mesh);
    }
}

//= cura::FffPolygonGenerator::processWalls
void r62(cura::FffPolygonGenerator& self, SliceMeshStorage& mesh, size_t layer_nr)
{
    SliceLayer* layer = &mesh.layers[layer_nr];
    WallsComputation walls_computation(mesh.settings, layer_nr);
    walls_computation.generateWalls(layer, SectionType::WALL);
}

//= cura::FffPolygonGenerator::isEmptyLayer
bool r63(cura::FffPolygonGenerator& self, SliceDataStorage& storage, const LayerIndex& layer_idx)
{
    if (storage.support.generated && layer_idx < storage.support.supportLayers.size())
    {
        SupportLayer& support_layer = storage.support.supportLayers[layer_idx];
        if (! support_layer.support_infill_parts.empty() || ! support_layer.support_bottom.empty() || ! support_layer.support_roof.empty())
        {
            return false;
        }
    }
    for (std::shared_ptr<SliceMeshStorage>& mesh_ptr : storage.meshes)
    {
        auto& mesh = *mesh_ptr;
        if (layer_idx >= mesh.layers.size())
        {
            continue;
        }
        SliceLayer& layer = mesh.layers[layer_idx];
        if (mesh.settings.get<ESurfaceMode>("magic_mesh_surface_mode") != ESurfaceMode::NORMAL && layer.open_polylines.size() > 0)
        {
            return false;
        }
        for (const SliceLayerPart& part : layer.parts)
        {
            if (part.print_outline.size() > 0)
            {
                return false;
            }
        }
    }
    return true;
}

//= cura::FffPolygonGenerator::processSkinsAndInfill
void r65(cura::FffPolygonGenerator& self, SliceMeshStorage& mesh, const LayerIndex layer_nr, bool process_infill)
{
    if (mesh.settings.get<ESurfaceMode>("magic_mesh_surface_mode") == ESurfaceMode::SURFACE)
    {
        return;
    }
    SkinInfillAreaComputation skin_infill_area_computation(layer_nr, mesh, process_infill);
    skin_infill_area_computation.generateSkinsAndInfill();
    if (((mesh.settings.get<bool>("ironing_enabled") && (! mesh.settings.get<bool>("ironing_only_highest_layer"))) || mesh.layer_nr_max_filled_layer == layer_nr)
        || ! mesh.settings.get<bool>("small_skin_on_surface"))
    {
        mesh.layers[layer_nr].top_surface.setAreasFromMeshAndLayerNumber(mesh, layer_nr);
    }
    if (layer_nr >= 0 && ! mesh.settings.get<bool>("small_skin_on_surface"))
    {
        mesh.layers[layer_nr].bottom_surface = mesh.layers[layer_nr].getOutlines();
        if (layer_nr > 0)
        {
            mesh.layers[layer_nr].bottom_surface = mesh.layers[layer_nr].bottom_surface.difference(mesh.layers[layer_nr - 1].getOutlines());
        }
    }
}

//= cura::FffPolygonGenerator::computePrintHeightStatistics
void r66(cura::FffPolygonGenerator& self, SliceDataStorage& storage)
{
    const size_t extruder_count = Application::getInstance().current_slice_->scene.extruders.size();
    std::vector<int>& max_print_height_per_extruder = storage.max_print_height_per_extruder;
    const int raft_layers = Raft::getTotalExtraLayers();
    max_print_height_per_extruder.resize(extruder_count, -(raft_layers + 1)); 
    { 
        for (std::shared_ptr<SliceMeshStorage>& mesh_ptr : storage.meshes)
        {
            auto& mesh = *mesh_ptr;
            if (! mesh.isPrinted() || mesh.settings.get<bool>("support_mesh"))
            {
                continue; 
            }
            for (size_t extruder_nr = 0; extruder_nr < extruder_count; extruder_nr++)
            {
                for (LayerIndex layer_nr = LayerIndex(mesh.layers.size()) - 1; layer_nr > max_print_height_per_extruder[extruder_nr]; layer_nr--)
                {
                    if (mesh.getExtruderIsUsed(extruder_nr, layer_nr))
                    {
                        max_print_height_per_extruder[extruder_nr] = layer_nr;
                    }
                }
            }
        }
        Scene& scene = Application::getInstance().current_slice_->scene;
        const Settings& mesh_group_settings = scene.current_mesh_group->settings;
        const size_t support_infill_extruder_nr
            = mesh_group_settings.get<ExtruderTrain&>("support_infill_extruder_nr").extruder_nr_; 
        max_print_height_per_extruder[support_infill_extruder_nr] = std::max(max_print_height_per_extruder[support_infill_extruder_nr], storage.support.layer_nr_max_filled_layer);
        const size_t support_roof_extruder_nr
            = mesh_group_settings.get<ExtruderTrain&>("support_roof_extruder_nr").extruder_nr_; 
        max_print_height_per_extruder[support_roof_extruder_nr] = std::max(max_print_height_per_extruder[support_roof_extruder_nr], storage.support.layer_nr_max_filled_layer);
        const size_t support_bottom_extruder_nr
            = mesh_group_settings.get<ExtruderTrain&>("support_bottom_extruder_nr").extruder_nr_; 
        max_print_height_per_extruder[support_bottom_extruder_nr] = std::max(max_print_height_per_extruder[support_bottom_extruder_nr], storage.support.layer_nr_max_filled_layer);
        const EPlatformAdhesion adhesion_type = mesh_group_settings.get<EPlatformAdhesion>("adhesion_type");
        switch (adhesion_type)
        {
        case EPlatformAdhesion::SKIRT:
        case EPlatformAdhesion::BRIM:
        {
            const std::vector<ExtruderTrain*> skirt_brim_extruder_trains = mesh_group_settings.get<std::vector<ExtruderTrain*>>("skirt_brim_extruder_nr");
            for (ExtruderTrain* train : skirt_brim_extruder_trains)
            {
                const size_t skirt_brim_extruder_nr = train->extruder_nr_;
                max_print_height_per_extruder[skirt_brim_extruder_nr] = std::max(0, max_print_height_per_extruder[skirt_brim_extruder_nr]); 
            }
            break;
        }
        case EPlatformAdhesion::RAFT:
        {
            const size_t base_extruder_nr = mesh_group_settings.get<ExtruderTrain&>("raft_base_extruder_nr").extruder_nr_;
            max_print_height_per_extruder[base_extruder_nr] = std::max(-raft_layers, max_print_height_per_extruder[base_extruder_nr]); 
            const size_t interface_extruder_nr = mesh_group_settings.get<ExtruderTrain&>("raft_interface_extruder_nr").extruder_nr_;
            max_print_height_per_extruder[interface_extruder_nr]
                = std::max(-raft_layers + 1, max_print_height_per_extruder[interface_extruder_nr]); 
            const size_t surface_extruder_nr = mesh_group_settings.get<ExtruderTrain&>("raft_surface_extruder_nr").extruder_nr_;
            max_print_height_per_extruder[surface_extruder_nr]
                = std::max(-1, max_print_height_per_extruder[surface_extruder_nr]); 
            break;
        }
        default:
            break; 
        }
    }
    storage.max_print_height_order = order(max_print_height_per_extruder);
    if (extruder_count >= 2)
    {
        int second_highest_extruder = storage.max_print_height_order[extruder_count - 2];
        storage.max_print_height_second_to_last_extruder = max_print_height_per_extruder[second_highest_extruder];
    }
    else
    {
        storage.max_print_height_second_to_last_extruder = -(raft_layers + 1);
    }
}

//= cura::FffPolygonGenerator::processOozeShield
void r67(cura::FffPolygonGenerator& self, SliceDataStorage& storage)
{
    const Settings& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    if (! mesh_group_settings.get<bool>("ooze_shield_enabled"))
    {
        return;
    }
    const coord_t ooze_shield_dist = mesh_group_settings.get<coord_t>("ooze_shield_dist");
    for (int layer_nr = 0; layer_nr <= storage.max_print_height_second_to_last_extruder; layer_nr++)
    {
        constexpr bool around_support = true;
        constexpr bool around_prime_tower = false;
        storage.ooze_shield.push_back(storage.getLayerOutlines(layer_nr, around_support, around_prime_tower).offset(ooze_shield_dist, ClipperLib::jtRound).getOutsidePolygons());
    }
    const AngleDegrees angle = mesh_group_settings.get<AngleDegrees>("ooze_shield_angle");
    if (angle <= 89)
    {
        const coord_t allowed_angle_offset
            = tan(mesh_group_settings.get<AngleRadians>("ooze_shield_angle")) * mesh_group_settings.get<coord_t>("layer_height"); 
        for (LayerIndex layer_nr = 1; layer_nr <= storage.max_print_height_second_to_last_extruder; layer_nr++)
        {
            storage.ooze_shield[layer_nr] = storage.ooze_shield[layer_nr].unionPolygons(storage.ooze_shield[layer_nr - 1].offset(-allowed_angle_offset));
        }
        for (LayerIndex layer_nr = storage.max_print_height_second_to_last_extruder; layer_nr > 0; layer_nr--)
        {
            storage.ooze_shield[layer_nr - 1] = storage.ooze_shield[layer_nr - 1].unionPolygons(storage.ooze_shield[layer_nr].offset(-allowed_angle_offset));
        }
    }
    const double largest_printed_area = 1.0; 
    for (LayerIndex layer_nr = 0; layer_nr <= storage.max_print_height_second_to_last_extruder; layer_nr++)
    {
        storage.ooze_shield[layer_nr].removeSmallAreas(largest_printed_area);
    }
    if (storage.prime_tower_)
    {
        coord_t max_line_width = 0;
        { 
            const std::vector<bool> extruder_is_used = storage.getExtrudersUsed();
            const auto& extruders = Application::getInstance().current_slice_->scene.extruders;
            for (int extruder_nr = 0; extruder_nr < int(extruders.size()); extruder_nr++)
            {
                if (! extruder_is_used[extruder_nr])
                    continue;
                max_line_width = std::max(max_line_width, extruders[extruder_nr].settings_.get<coord_t>("skirt_brim_line_width"));
            }
        }
        for (LayerIndex layer_nr = 0; layer_nr <= storage.max_print_height_second_to_last_extruder; layer_nr++)
        {
            storage.ooze_shield[layer_nr] = storage.ooze_shield[layer_nr].difference(storage.prime_tower_->getOccupiedOutline(layer_nr).offset(max_line_width / 2));
        }
    }
}

//= cura::FffPolygonGenerator::processDraftShield
void r68(cura::FffPolygonGenerator& self, SliceDataStorage& storage)
{
    const size_t draft_shield_layers = self.getDraftShieldLayerCount(storage.print_layer_count);
    if (draft_shield_layers <= 0)
    {
        return;
    }
    const Settings& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    const coord_t layer_height = mesh_group_settings.get<coord_t>("layer_height");
    const LayerIndex layer_skip{ 500 / layer_height + 1 };
    Shape& draft_shield = storage.draft_protection_shield;
    for (LayerIndex layer_nr = 0; layer_nr < storage.print_layer_count && layer_nr < draft_shield_layers; layer_nr += layer_skip)
    {
        constexpr bool around_support = true;
        constexpr bool around_prime_tower = false;
        draft_shield = draft_shield.unionPolygons(storage.getLayerOutlines(layer_nr, around_support, around_prime_tower));
    }
    draft_shield.makeConvex();
    const coord_t draft_shield_dist = mesh_group_settings.get<coord_t>("draft_shield_dist");
    storage.draft_protection_shield = draft_shield.offset(draft_shield_dist);
    coord_t maximum_resolution = 0; 
    coord_t maximum_deviation = std::numeric_limits<coord_t>::max();
    for (const ExtruderTrain& extruder : Application::getInstance().current_slice_->scene.extruders)
    {
        maximum_resolution = std::max(maximum_resolution, extruder.settings_.get<coord_t>("meshfix_maximum_resolution"));
        maximum_deviation = std::min(maximum_deviation, extruder.settings_.get<coord_t>("meshfix_maximum_deviation"));
    }
    storage.draft_protection_shield = Simplify(maximum_resolution, maximum_deviation, 0).polygon(storage.draft_protection_shield);
    if (storage.prime_tower_)
    {
        coord_t max_line_width = 0;
        { 
            const std::vector<bool> extruder_is_used = storage.getExtrudersUsed();
            const auto& extruders = Application::getInstance().current_slice_->scene.extruders;
            for (int extruder_nr = 0; extruder_nr < int(extruders.size()); extruder_nr++)
            {
                if (! extruder_is_used[extruder_nr])
                    continue;
                max_line_width = std::max(max_line_width, extruders[extruder_nr].settings_.get<coord_t>("skirt_brim_line_width"));
            }
        }
        storage.draft_protection_shield = storage.draft_protection_shield.difference(storage.prime_tower_->getOccupiedGroundOutline().offset(max_line_width / 2));
    }
}

//= cura::FffPolygonGenerator::processPlatformAdhesion
void r69(cura::FffPolygonGenerator& self, SliceDataStorage& storage)
{
    const Settings& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    EPlatformAdhesion adhesion_type = mesh_group_settings.get<EPlatformAdhesion>("adhesion_type");
    if (adhesion_type == EPlatformAdhesion::RAFT)
    {
        Raft::generate(storage);
        return;
    }
    SkirtBrim skirt_brim(storage);
    if (adhesion_type != EPlatformAdhesion::NONE)
    {
        skirt_brim.generate();
    }
    skirt_brim.generateSupportBrim();
}

//= cura::FffProcessor::finalize
void r71(cura::FffProcessor& self)
{
    self.gcode_writer.finalize();
}

//= cura::InfillOrderOptimizer::InfillOrderOptimizer
void r72(cura::InfillOrderOptimizer& self)
{
}

//= cura::InfillOrderOptimizer::addPart
namespace n73
{
using InfillPartArea = cura::InfillOrderOptimizer::InfillPartArea;
using InfillPartType = cura::InfillOrderOptimizer::InfillPartType;
void r73(cura::InfillOrderOptimizer& self, InfillPartArea part_area, OpenLinesSet& lines)
{
    if (! lines.empty())
    {
        self.infill_parts_.push_back({ part_area, InfillPartType::Lines, { .lines = &lines } });
    }
}
} // namespace n73

//= cura::InfillOrderOptimizer::addPart
namespace n74
{
using InfillPartArea = cura::InfillOrderOptimizer::InfillPartArea;
using InfillPartType = cura::InfillOrderOptimizer::InfillPartType;
void r74(cura::InfillOrderOptimizer& self, InfillPartArea part_area, const Shape& polygons)
{
    if (! polygons.empty())
    {
        self.infill_parts_.push_back({ part_area, InfillPartType::Polygons, { .polygons = &polygons } });
    }
}
} // namespace n74

//= cura::InfillOrderOptimizer::addPart
namespace n75
{
using InfillPartArea = cura::InfillOrderOptimizer::InfillPartArea;
using InfillPartType = cura::InfillOrderOptimizer::InfillPartType;
void r75(cura::InfillOrderOptimizer& self, InfillPartArea part_area, const std::vector<std::vector<VariableWidthLines>>& walls)
{
    const bool has_walls = ranges::any_of(
        walls,
        [](const std::vector<VariableWidthLines>& tp)
        {
            return ! (
                tp.empty()
                || ranges::all_of(
                    tp,
                    [](const VariableWidthLines& vwl)
                    {
                        return vwl.empty();
                    }));
        });
    if (has_walls)
    {
        self.infill_parts_.push_back({ part_area, InfillPartType::ExtrusionLines, { .extrusion_lines = &walls } });
    }
}
} // namespace n75

//= cura::InfillOrderOptimizer::addToLayer
namespace n77
{
using InfillPart = cura::InfillOrderOptimizer::InfillPart;
using InfillPartArea = cura::InfillOrderOptimizer::InfillPartArea;
using InfillPartType = cura::InfillOrderOptimizer::InfillPartType;
bool r77(const cura::InfillOrderOptimizer& self, LayerPlan& layer_plan, const Settings& settings, const std::optional<Point2LL>& near_end_location, const EFillMethod infill_pattern, const MeshPathConfigs& mesh_config, const SliceDataStorage& storage, const SliceMeshStorage& mesh, const size_t extruder_nr, const coord_t start_move_inwards_length, const coord_t end_move_inwards_length, const Shape& infill_inner_contour, const coord_t skin_support_line_distance, const Shape& infill_below_skin, const AngleDegrees& skin_support_angle)
{
    if (self.infill_parts_.empty())
    {
        return false;
    }
    layer_plan.setIsInside(true); 
    std::optional<Point2LL> near_start_location;
    if (settings.get<InfillStartEndPreference>("infill_start_end_preference") == InfillStartEndPreference::START_RANDOM)
    {
        srand(layer_plan.getLayerNr());
        const InfillPart& first_part = self.infill_parts_.front();
        if (first_part.area == InfillPartArea::Infill)
        {
            switch (first_part.type)
            {
            case InfillPartType::Lines:
                near_start_location = first_part.paths.lines->at(rand() % first_part.paths.lines->size())[0];
                break;
            case InfillPartType::Polygons:
            {
                const Polygon& start_poly = first_part.paths.polygons->at(rand() % first_part.paths.polygons->size());
                near_start_location = start_poly[rand() % start_poly.size()];
                break;
            }
            case InfillPartType::ExtrusionLines:
            {
                const std::vector<VariableWidthLines>* start_paths;
                do
                {
                    start_paths = &first_part.paths.extrusion_lines->at(rand() % first_part.paths.extrusion_lines->size());
                } while (start_paths->empty() || start_paths->front().empty()); 
                near_start_location = (*start_paths)[0][0].junctions_[0].p_;
                break;
            }
            }
        }
    }
    MixedLinesSet all_infill_lines;
    for (const auto& [part_index, part] : self.infill_parts_ | ranges::views::enumerate)
    {
        const bool is_first = part_index == 0;
        const bool is_last = part_index == self.infill_parts_.size() - 1;
        bool reverse_print_direction = false;
        std::optional<Point2LL> near_start_location_here;
        if (is_last && near_end_location.has_value())
        {
            near_start_location_here = near_end_location;
            reverse_print_direction = true;
        }
        else if (is_first)
        {
            near_start_location_here = near_start_location;
        }
        self.addToLayer(
            part,
            layer_plan,
            settings,
            near_start_location_here,
            reverse_print_direction,
            infill_pattern,
            mesh_config,
            storage,
            mesh,
            extruder_nr,
            start_move_inwards_length,
            end_move_inwards_length,
            infill_inner_contour,
            skin_support_line_distance,
            infill_below_skin,
            skin_support_angle);
        if (part.area == InfillPartArea::Infill)
        {
            switch (part.type)
            {
            case InfillPartType::Lines:
                all_infill_lines.push_back(*part.paths.lines);
                break;
            case InfillPartType::Polygons:
                all_infill_lines.push_back(*part.paths.polygons);
                break;
            case InfillPartType::ExtrusionLines:
                break;
            }
        }
    }
    layer_plan.setGeneratedInfillLines(&mesh, all_infill_lines);
    return true;
}
} // namespace n77

//= cura::InfillOrderOptimizer::addToLayer
namespace n78
{
using InfillPart = cura::InfillOrderOptimizer::InfillPart;
using InfillPartArea = cura::InfillOrderOptimizer::InfillPartArea;
using InfillPartType = cura::InfillOrderOptimizer::InfillPartType;
void r78(const cura::InfillOrderOptimizer& self, const InfillPart& part, LayerPlan& layer_plan, const Settings& settings, const std::optional<Point2LL>& near_start_location, const bool reverse_print_direction, const EFillMethod infill_pattern, const MeshPathConfigs& mesh_config, const SliceDataStorage& storage, const SliceMeshStorage& mesh, const size_t extruder_nr, const coord_t start_move_inwards_length, const coord_t end_move_inwards_length, const Shape& infill_inner_contour, const coord_t skin_support_line_distance, const Shape& infill_below_skin, const AngleDegrees& skin_support_angle)
{
    const bool enable_travel_optimization = settings.get<bool>("infill_enable_travel_optimization");
    constexpr Ratio flow_ratio = 1.0_r;
    constexpr double fan_speed = GCodePathConfig::FAN_SPEED_DEFAULT;
    const std::unordered_multimap<const Polyline*, const Polyline*> order_requirements = PathOrderOptimizer<const Polyline*>::no_order_requirements_;
    switch (part.area)
    {
    case InfillPartArea::Infill:
        switch (part.type)
        {
        case InfillPartType::Lines:
        {
            self.addInfillLinesToLayer(
                *part.paths.lines,
                layer_plan,
                settings,
                near_start_location,
                reverse_print_direction,
                infill_pattern,
                mesh_config,
                start_move_inwards_length,
                end_move_inwards_length,
                infill_inner_contour,
                enable_travel_optimization,
                flow_ratio,
                fan_speed,
                order_requirements);
            break;
        }
        case InfillPartType::Polygons:
        {
            OpenLinesSet remaining_lines;
            layer_plan.addInfillPolygonsByOptimizer(
                *part.paths.polygons,
                remaining_lines,
                mesh_config.infill_config[0],
                settings,
                start_move_inwards_length > 0 || end_move_inwards_length > 0,
                near_start_location,
                reverse_print_direction);
            if (! remaining_lines.empty())
            {
                self.addInfillLinesToLayer(
                    remaining_lines,
                    layer_plan,
                    settings,
                    near_start_location,
                    reverse_print_direction,
                    infill_pattern,
                    mesh_config,
                    start_move_inwards_length,
                    end_move_inwards_length,
                    infill_inner_contour,
                    enable_travel_optimization,
                    flow_ratio,
                    fan_speed,
                    order_requirements);
            }
            break;
        }
        case InfillPartType::ExtrusionLines:
        {
            for (const std::vector<VariableWidthLines>& tool_paths : *part.paths.extrusion_lines)
            {
                constexpr coord_t wipe_dist = 0;
                const ZSeamConfig z_seam_config(EZSeamType::USER_SPECIFIED, near_start_location.value_or(mesh.getZSeamHint()));
                InsetOrderOptimizer wall_orderer(
                    storage,
                    layer_plan,
                    settings,
                    extruder_nr,
                    mesh_config.infill_config[0],
                    mesh_config.infill_config[0],
                    mesh_config.infill_config[0],
                    mesh_config.infill_config[0],
                    mesh_config.infill_config[0],
                    mesh_config.infill_config[0],
                    mesh_config.infill_config[0],
                    mesh_config.infill_config[0],
                    wipe_dist,
                    wipe_dist,
                    extruder_nr,
                    extruder_nr,
                    z_seam_config,
                    tool_paths,
                    mesh.bounding_box.flatten().getMiddle());
                wall_orderer.addToLayer();
            }
            break;
        }
        }
        break;
    case InfillPartArea::SkinSupport:
    {
        switch (part.type)
        {
        case InfillPartType::Lines:
        {
            self.addSkinSupportLinesToLayer(
                *part.paths.lines,
                layer_plan,
                settings,
                near_start_location,
                reverse_print_direction,
                mesh_config,
                skin_support_line_distance,
                infill_below_skin,
                skin_support_angle,
                enable_travel_optimization,
                flow_ratio);
            break;
        }
        case InfillPartType::Polygons:
        {
            OpenLinesSet remaining_lines;
            constexpr bool extra_inwards_move = false;
            layer_plan.addInfillPolygonsByOptimizer(*part.paths.polygons, remaining_lines, mesh_config.skin_support_config, settings, extra_inwards_move, near_start_location);
            if (! remaining_lines.empty())
            {
                self.addSkinSupportLinesToLayer(
                    remaining_lines,
                    layer_plan,
                    settings,
                    near_start_location,
                    reverse_print_direction,
                    mesh_config,
                    skin_support_line_distance,
                    infill_below_skin,
                    skin_support_angle,
                    enable_travel_optimization,
                    flow_ratio);
            }
            break;
        }
        }
        break;
    }
    }
}
} // namespace n78

//= cura::InfillOrderOptimizer::addInfillLinesToLayer
void r79(const cura::InfillOrderOptimizer& self, const OpenLinesSet& lines, LayerPlan& layer_plan, const Settings& settings, const std::optional<Point2LL>& near_start_location, const bool reverse_print_direction, const EFillMethod infill_pattern, const MeshPathConfigs& mesh_config, const coord_t start_move_inwards_length, const coord_t end_move_inwards_length, const Shape& infill_inner_contour, const bool enable_travel_optimization, const Ratio& flow_ratio, const double fan_speed, const std::unordered_multimap<const Polyline*, const Polyline*>& order_requirements)
{
    SpaceFillType space_fill_type;
    coord_t wipe_dist;
    if (infill_pattern == EFillMethod::GRID || infill_pattern == EFillMethod::LINES || infill_pattern == EFillMethod::TRIANGLES || infill_pattern == EFillMethod::CUBIC
        || infill_pattern == EFillMethod::TETRAHEDRAL || infill_pattern == EFillMethod::QUARTER_CUBIC || infill_pattern == EFillMethod::CUBICSUBDIV
        || infill_pattern == EFillMethod::LIGHTNING)
    {
        space_fill_type = SpaceFillType::Lines;
        wipe_dist = settings.get<coord_t>("infill_wipe_dist");
    }
    else
    {
        space_fill_type = (infill_pattern == EFillMethod::ZIG_ZAG) ? SpaceFillType::PolyLines : SpaceFillType::Lines;
        wipe_dist = 0;
    }
    layer_plan.addLinesByOptimizer(
        lines,
        mesh_config.infill_config[0],
        space_fill_type,
        enable_travel_optimization,
        wipe_dist,
        flow_ratio,
        near_start_location,
        fan_speed,
        reverse_print_direction,
        order_requirements,
        start_move_inwards_length,
        end_move_inwards_length,
        MendedShape(&settings, SectionType::INFILL, &infill_inner_contour));
}

//= cura::InfillOrderOptimizer::addSkinSupportLinesToLayer
void r80(const cura::InfillOrderOptimizer& self, const OpenLinesSet& lines, LayerPlan& layer_plan, const Settings& settings, const std::optional<Point2LL>& near_start_location, const bool reverse_print_direction, const MeshPathConfigs& mesh_config, const coord_t skin_support_line_distance, const Shape& infill_below_skin, const AngleDegrees& skin_support_angle, const bool enable_travel_optimization, const Ratio& flow_ratio)
{
    const auto skin_support_fan_speed = settings.get<bool>("cool_fan_enabled") ? settings.get<double>("skin_support_fan_speed") : GCodePathConfig::FAN_SPEED_DEFAULT;
    constexpr SpaceFillType skin_support_space_fill_type = SpaceFillType::Lines;
    constexpr coord_t skin_support_wipe_dist = 0;
    const auto skin_support_interlace_lines = settings.get<bool>("skin_support_interlace_lines");
    if (skin_support_interlace_lines)
    {
        const coord_t max_adjacent_distance = skin_support_line_distance * 1.1;
        constexpr coord_t exclude_distance = 0;
        constexpr bool skin_support_interlaced = true;
        layer_plan.addLinesMonotonic(
            infill_below_skin,
            lines,
            mesh_config.skin_support_config,
            skin_support_space_fill_type,
            skin_support_angle,
            max_adjacent_distance,
            exclude_distance,
            skin_support_wipe_dist,
            flow_ratio,
            skin_support_fan_speed,
            skin_support_interlaced);
    }
    else
    {
        layer_plan.addLinesByOptimizer(
            lines,
            mesh_config.skin_support_config,
            skin_support_space_fill_type,
            enable_travel_optimization,
            skin_support_wipe_dist,
            flow_ratio,
            near_start_location,
            skin_support_fan_speed,
            reverse_print_direction);
    }
}

//= cura::InfillOrderOptimizer::shouldPrintBefore
namespace n81
{
using InfillPart = cura::InfillOrderOptimizer::InfillPart;
bool r81(const InfillPart& part1, const InfillPart& part2)
{
    if (part1.area == part2.area)
    {
        return part1.type < part2.type;
    }
    else
    {
        return part1.area < part2.area;
    }
}
} // namespace n81

//= cura::InfillOrderOptimizer::isCloserTo | ta=cura::OpenLinesSet
namespace n82
{
using LinesSetType = cura::OpenLinesSet;
bool r82(cura::InfillOrderOptimizer& self, const LinesSetType& line_set, const Point2LL& location, std::optional<std::pair<size_t, size_t>>& closest_point, coord_t& closest_distance_squared)
{
    bool closer_found = false;
    for (const auto& [line_index, line] : line_set | ranges::views::enumerate)
    {
        for (const auto& [point_index, point] : line | ranges::views::enumerate)
        {
            const coord_t distance_squared = vSize2(point - location);
            if (! closest_point.has_value() || distance_squared < closest_distance_squared)
            {
                closer_found = true;
                closest_point = std::make_optional(std::make_pair(line_index, point_index));
                closest_distance_squared = distance_squared;
            }
        }
    }
    return closer_found;
}
} // namespace n82

//= cura::InfillOrderOptimizer::isCloserTo | ta=cura::Shape
namespace n83
{
using LinesSetType = cura::Shape;
bool r83(cura::InfillOrderOptimizer& self, const LinesSetType& line_set, const Point2LL& location, std::optional<std::pair<size_t, size_t>>& closest_point, coord_t& closest_distance_squared)
{
    bool closer_found = false;
    for (const auto& [line_index, line] : line_set | ranges::views::enumerate)
    {
        for (const auto& [point_index, point] : line | ranges::views::enumerate)
        {
            const coord_t distance_squared = vSize2(point - location);
            if (! closest_point.has_value() || distance_squared < closest_distance_squared)
            {
                closer_found = true;
                closest_point = std::make_optional(std::make_pair(line_index, point_index));
                closest_distance_squared = distance_squared;
            }
        }
    }
    return closer_found;
}
} // namespace n83

//= cura::InsetOrderOptimizer::addToLayer
bool r86(cura::InsetOrderOptimizer& self, const RetractBeforeOuterWall retract_before_outer_wall)
{
    if (self.path_optimizer_ == nullptr)
    {
        self.optimize();
    }
    const auto alternate_walls = self.settings_.get<bool>("material_alternate_walls");
    constexpr Ratio flow = 1.0_r;
    bool added_something = false;
    ForceRetract force_retract = ForceRetract::AUTOMATIC;
    switch (retract_before_outer_wall)
    {
    case RetractBeforeOuterWall::AUTOMATIC:
        force_retract = ForceRetract::AUTOMATIC;
        break;
    case RetractBeforeOuterWall::RETRACTED:
        force_retract = ForceRetract::RETRACTED;
        break;
    case RetractBeforeOuterWall::NOT_RETRACTED:
    case RetractBeforeOuterWall::NOT_RETRACTED_FROM_INFILL:
        force_retract = ForceRetract::NOT_RETRACTED;
        break;
    }
    for (const PathOrdering<const ExtrusionLine*>& path : self.path_optimizer_->paths_)
    {
        if (path.vertices_->empty())
        {
            continue;
        }
        const bool is_outer_wall = path.vertices_->inset_idx_ == 0; 
        const bool is_gap_filler = path.vertices_->is_odd_;
        const GCodePathConfig& default_config = is_outer_wall ? self.inset_0_default_config_ : self.inset_X_default_config_;
        const GCodePathConfig& roofing_config = is_outer_wall ? self.inset_0_roofing_config_ : self.inset_X_roofing_config_;
        const GCodePathConfig& flooring_config = is_outer_wall ? self.inset_0_flooring_config_ : self.inset_X_flooring_config_;
        const GCodePathConfig& bridge_config = is_outer_wall ? self.inset_0_bridge_config_ : self.inset_X_bridge_config_;
        const coord_t wipe_dist = is_outer_wall && ! is_gap_filler ? self.wall_0_wipe_dist_ : self.wall_x_wipe_dist_;
        const ForceRetract retract_before = is_outer_wall ? force_retract : ForceRetract::AUTOMATIC;
        const bool scarf_seam = self.scarf_seam_ && is_outer_wall;
        const bool smooth_speed = self.smooth_speed_ && is_outer_wall;
        const bool revert_inset = alternate_walls && (path.vertices_->inset_idx_ % 2 != 0);
        const bool revert_layer = alternate_walls && (self.layer_nr_ % 2 != 0);
        const bool backwards = path.backwards_ != (revert_inset != revert_layer);
        const size_t start_index = (backwards != path.backwards_) ? path.vertices_->size() - (path.start_vertex_ + 1) : path.start_vertex_;
        const bool linked_path = ! path.is_closed_;
        self.gcode_layer_.setIsInside(true); 
        self.gcode_layer_.addWall(
            *path.vertices_,
            start_index,
            self.settings_,
            default_config,
            roofing_config,
            flooring_config,
            bridge_config,
            wipe_dist,
            flow,
            retract_before,
            path.is_closed_,
            backwards,
            linked_path,
            scarf_seam,
            smooth_speed);
        added_something = true;
        if (retract_before_outer_wall == RetractBeforeOuterWall::NOT_RETRACTED_FROM_INFILL)
        {
            force_retract = ForceRetract::AUTOMATIC;
        }
    }
    return added_something;
}

//= cura::InsetOrderOptimizer::insertSeamPoint
std::optional<size_t> r87(cura::InsetOrderOptimizer& self, ExtrusionLine& closed_line)
{
    Point2LL request_point;
    switch (self.z_seam_config_.type_)
    {
    case EZSeamType::USER_SPECIFIED:
        request_point = self.z_seam_config_.pos_;
        break;
    case EZSeamType::SHORTEST:
        request_point = self.gcode_layer_.getLastPlannedPositionOrStartingPosition();
        break;
    default:
        return std::nullopt;
    }
    Point2LL closest_point;
    size_t closest_junction_idx = 0;
    coord_t closest_distance_sqd = std::numeric_limits<coord_t>::max();
    bool should_recalculate_closest = false;
    if (self.z_seam_config_.type_ == EZSeamType::USER_SPECIFIED)
    {
        const Point2LL ray_origin = self.model_center_point_;
        request_point = ray_origin + (request_point - ray_origin) * 10;
        for (const auto& [i, junction] : closed_line.junctions_ | ranges::views::enumerate)
        {
            const auto& next_junction = closed_line.junctions_[(i + 1) % closed_line.junctions_.size()];
            float t, u;
            if (LinearAlg2D::segmentSegmentIntersection(ray_origin, request_point, junction.p_, next_junction.p_, t, u))
            {
                const Point2LL intersection = ray_origin + (request_point - ray_origin) * t;
                const coord_t distance_sqd = vSize2(request_point - intersection);
                if (distance_sqd < closest_distance_sqd)
                {
                    closest_point = intersection;
                    closest_distance_sqd = distance_sqd;
                    closest_junction_idx = i;
                }
            }
        }
    }
    if (closest_distance_sqd >= std::numeric_limits<coord_t>::max())
    {
        for (const auto& [i, junction] : closed_line.junctions_ | ranges::views::enumerate)
        {
            const auto& next_junction = closed_line.junctions_[(i + 1) % closed_line.junctions_.size()];
            const coord_t distance_sqd = LinearAlg2D::getDist2FromLineSegment(junction.p_, request_point, next_junction.p_);
            if (distance_sqd < closest_distance_sqd)
            {
                closest_distance_sqd = distance_sqd;
                closest_junction_idx = i;
            }
        }
        should_recalculate_closest = true;
    }
    const auto& start_pt = closed_line.junctions_[closest_junction_idx];
    const auto& end_pt = closed_line.junctions_[(closest_junction_idx + 1) % closed_line.junctions_.size()];
    if (should_recalculate_closest)
    {
        closest_point = LinearAlg2D::getClosestOnLineSegment(request_point, start_pt.p_, end_pt.p_);
    }
    constexpr coord_t smallest_dist_sqd = 25;
    if (vSize2(closest_point - start_pt.p_) <= smallest_dist_sqd)
    {
        return closest_junction_idx;
    }
    if (vSize2(closest_point - end_pt.p_) <= smallest_dist_sqd)
    {
        return (closest_junction_idx + 1) % closed_line.junctions_.size();
    }
    const coord_t total_dist = vSize(end_pt.p_ - start_pt.p_);
    const coord_t start_dist = vSize(closest_point - start_pt.p_);
    const coord_t end_dist = vSize(closest_point - end_pt.p_);
    const coord_t w = ((end_pt.w_ * end_dist) / total_dist) + ((start_pt.w_ * start_dist) / total_dist);
    closed_line.junctions_.insert(closed_line.junctions_.begin() + closest_junction_idx + 1, ExtrusionJunction(closest_point, w, start_pt.perimeter_index_));
    return closest_junction_idx + 1;
}

//= cura::InsetOrderOptimizer::getRegionOrder
namespace n88
{
using value_type = cura::InsetOrderOptimizer::value_type;
InsetOrderOptimizer::value_type r88(const std::vector<ExtrusionLine>& extrusion_lines, const bool outer_to_inner)
{
    if (extrusion_lines.empty())
    {
        return {};
    }
    const std::vector<const ExtrusionLine*> sorted_extrusion_lines = [&extrusion_lines]()
    {
        auto extrusion_lines_area = extrusion_lines | ranges::views::addressof
                                  | ranges::views::transform(
                                        [](const ExtrusionLine* line)
                                        {
                                            const Polygon poly = line->toPolygon();
                                            AABB aabb;
                                            aabb.include(poly);
                                            return std::make_pair(line, aabb.area());
                                        })
                                  | ranges::to_vector;
        ranges::stable_sort(
            extrusion_lines_area,
            [](const auto& lhs, const auto& rhs)
            {
                return std::get<1>(lhs) < std::get<1>(rhs);
            });
        return extrusion_lines_area
             | ranges::views::transform(
                   [](const auto& pair)
                   {
                       return std::get<0>(pair);
                   })
             | ranges::to_vector;
    }();
    std::unordered_multimap<const ExtrusionLine*, const ExtrusionLine*> graph;
    std::unordered_set<const ExtrusionLine*> invariant_outer_parents;
    for (const auto& extrusion_line : sorted_extrusion_lines)
    {
        Shape hole_polygons;
        if (extrusion_line->is_closed_)
        {
            hole_polygons.push_back(extrusion_line->toPolygon());
        }
        if (hole_polygons.empty())
        {
            invariant_outer_parents.emplace(extrusion_line);
            continue;
        }
        std::vector<const ExtrusionLine*> removed_parent_invariants;
        for (const ExtrusionLine* invariant_parent : invariant_outer_parents)
        {
            if (hole_polygons.inside(invariant_parent->junctions_[0].p_, false))
            {
                graph.emplace(extrusion_line, invariant_parent);
                graph.emplace(invariant_parent, extrusion_line);
                removed_parent_invariants.emplace_back(invariant_parent);
            }
        }
        for (const auto& node : removed_parent_invariants)
        {
            invariant_outer_parents.erase(node);
        }
        invariant_outer_parents.emplace(extrusion_line);
    }
    const std::vector<const ExtrusionLine*> outer_walls = extrusion_lines | ranges::views::filter(&ExtrusionLine::is_outer_wall) | ranges::views::addressof | ranges::to_vector;
    std::unordered_map<const ExtrusionLine*, const ExtrusionLine*> closest_outer_wall_line;
    std::unordered_map<const ExtrusionLine*, unsigned int> min_depth;
    for (const ExtrusionLine* outer_wall : outer_walls)
    {
        const std::function<void(const ExtrusionLine*, const unsigned int)> update_nodes
            = [&outer_wall, &min_depth, &closest_outer_wall_line](const ExtrusionLine* current_line, const unsigned int depth)
        {
            if (min_depth.find(current_line) == min_depth.end() || depth < min_depth[current_line])
            {
                min_depth[current_line] = depth;
                closest_outer_wall_line[current_line] = outer_wall;
            }
        };
        actions::dfs_depth_state(outer_wall, graph, update_nodes);
    }
    std::unordered_multimap<const ExtrusionLine*, const ExtrusionLine*> order;
    for (const ExtrusionLine* outer_wall : outer_walls)
    {
        const std::function<void(const ExtrusionLine*, const ExtrusionLine*)> set_order_constraints
            = [&order, &closest_outer_wall_line, &outer_wall, &outer_to_inner](const auto& current_line, const auto& parent_line)
        {
            if (closest_outer_wall_line[current_line] == outer_wall && parent_line != nullptr)
            {
                if (outer_to_inner)
                {
                    order.insert(std::make_pair(parent_line, current_line));
                }
                else
                {
                    order.insert(std::make_pair(current_line, parent_line));
                }
            }
        };
        actions::dfs_parent_state(outer_wall, graph, set_order_constraints);
    }
    return order;
}
} // namespace n88

//= cura::InsetOrderOptimizer::getStartPosition
std::optional<Point2LL> r89(const cura::InsetOrderOptimizer& self)
{
    if (self.path_optimizer_ == nullptr || self.path_optimizer_->paths_.empty())
    {
        return std::nullopt;
    }
    PathOrdering<const ExtrusionLine*>& first_path = self.path_optimizer_->paths_.front();
    const auto& vert_data = first_path.getVertexData();
    return vert_data.at(first_path.start_vertex_);
}

//= cura::InsetOrderOptimizer::shouldReversePath
bool r91(cura::InsetOrderOptimizer& self, const bool use_one_extruder, const bool current_extruder_is_wall_x, const bool outer_to_inner)
{
    if (use_one_extruder && current_extruder_is_wall_x)
    {
        return ! outer_to_inner;
    }
    return current_extruder_is_wall_x;
}

//= cura::AreaSupport::handleSupportModifierMesh
bool r93(SliceDataStorage& storage, const Settings& mesh_settings, const Slicer* slicer)
{
    const bool is_anti_overhang_mesh = mesh_settings.get<bool>("anti_overhang_mesh");
    const bool is_support_mesh = mesh_settings.get<bool>("support_mesh");
    const bool is_force_support_overhang_mesh = mesh_settings.has("force_support_overhang_mesh") && mesh_settings.get<bool>("force_support_overhang_mesh");
    if (! is_anti_overhang_mesh && ! is_support_mesh && ! is_force_support_overhang_mesh)
    {
        return false;
    }
    enum class ModifierType
    {
        ANTI_OVERHANG,
        SUPPORT_DROP_DOWN,
        SUPPORT_VANILLA,
        FORCE_OVERHANG,
    };
    ModifierType modifier_type;
    if (is_anti_overhang_mesh)
    {
        modifier_type = ModifierType::ANTI_OVERHANG;
    }
    else if (is_force_support_overhang_mesh)
    {
        modifier_type = ModifierType::FORCE_OVERHANG;
    }
    else if (mesh_settings.get<bool>("support_mesh_drop_down"))
    {
        modifier_type = ModifierType::SUPPORT_DROP_DOWN;
    }
    else
    {
        modifier_type = ModifierType::SUPPORT_VANILLA;
    }
    for (LayerIndex layer_nr = 0; layer_nr < slicer->layers.size(); ++layer_nr)
    {
        SupportLayer& support_layer = storage.support.supportLayers[layer_nr];
        const SlicerLayer& slicer_layer = slicer->layers[layer_nr];
        switch (modifier_type)
        {
        case ModifierType::ANTI_OVERHANG:
            support_layer.anti_overhang.push_back(slicer_layer.polygons_);
            break;
        case ModifierType::SUPPORT_DROP_DOWN:
            support_layer.support_mesh_drop_down.push_back(slicer_layer.polygons_);
            break;
        case ModifierType::SUPPORT_VANILLA:
            support_layer.support_mesh.push_back(slicer_layer.polygons_);
            break;
        case ModifierType::FORCE_OVERHANG:
            support_layer.force_overhang.push_back(slicer_layer.polygons_);
            break;
        }
    }
    return true;
}

//= cura::AreaSupport::splitGlobalSupportAreasIntoSupportInfillParts
void r94(SliceDataStorage& storage, const std::vector<Shape>& global_support_areas_per_layer, unsigned int total_layer_count)
{
    if (total_layer_count == 0)
    {
        return;
    }
    size_t min_layer = 0;
    size_t max_layer = total_layer_count - 1;
    const Settings& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    const ExtruderTrain& infill_extruder = mesh_group_settings.get<ExtruderTrain&>("support_infill_extruder_nr");
    const EFillMethod support_pattern = infill_extruder.settings_.get<EFillMethod>("support_pattern");
    const coord_t support_line_width = infill_extruder.settings_.get<coord_t>("support_line_width");
    const auto wall_thickness = infill_extruder.settings_.get<coord_t>("support_wall_thickness");
    for (LayerIndex layer_nr = 0; layer_nr < total_layer_count - 1; ++layer_nr)
    {
        unsigned int wall_thickness_this_layer = wall_thickness;
        if (layer_nr == 0 && (support_pattern == EFillMethod::LINES || support_pattern == EFillMethod::ZIG_ZAG))
        { 
            wall_thickness_this_layer += support_line_width;
        }
        const Shape& global_support_areas = global_support_areas_per_layer[layer_nr];
        if (global_support_areas.size() == 0 || layer_nr < min_layer || layer_nr > max_layer)
        {
            storage.support.supportLayers[layer_nr].support_infill_parts.clear();
            continue;
        }
        coord_t support_line_width_here = support_line_width;
        if (layer_nr == 0 && mesh_group_settings.get<EPlatformAdhesion>("adhesion_type") != EPlatformAdhesion::RAFT)
        {
            support_line_width_here *= infill_extruder.settings_.get<Ratio>("initial_layer_line_width_factor");
        }
        const coord_t layer_height = infill_extruder.settings_.get<coord_t>("layer_height");
        storage.support.supportLayers[layer_nr]
            .fillInfillParts(layer_nr, global_support_areas_per_layer, layer_height, storage.meshes, support_line_width_here, wall_thickness_this_layer);
    }
}

//= cura::AreaSupport::generateSupportInfillFeatures
void r95(SliceDataStorage& storage)
{
    AreaSupport::generateGradualSupport(storage);
    AreaSupport::combineSupportInfillLayers(storage);
    AreaSupport::cleanup(storage);
}

//= cura::AreaSupport::generateGradualSupport
void r97(SliceDataStorage& storage)
{
    const Settings& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    const size_t total_layer_count = storage.print_layer_count;
    const ExtruderTrain& infill_extruder = mesh_group_settings.get<ExtruderTrain&>("support_infill_extruder_nr");
    const coord_t gradual_support_step_height = infill_extruder.settings_.get<coord_t>("gradual_support_infill_step_height");
    const size_t max_density_steps = infill_extruder.settings_.get<size_t>("gradual_support_infill_steps");
    const coord_t wall_width = infill_extruder.settings_.get<coord_t>("support_line_width");
    const bool is_connected = infill_extruder.settings_.get<bool>("zig_zaggify_infill") || infill_extruder.settings_.get<EFillMethod>("infill_pattern") == EFillMethod::ZIG_ZAG;
    const Simplify simplifier(infill_extruder.settings_);
    double layer_skip_count{ 8.0 }; 
    size_t gradual_support_step_layer_count
        = round_divide(gradual_support_step_height, mesh_group_settings.get<coord_t>("layer_height")); 
    const auto n_skip_steps_per_gradual_step
        = std::max(1.0, std::ceil(gradual_support_step_layer_count / layer_skip_count)); 
    layer_skip_count = gradual_support_step_layer_count / n_skip_steps_per_gradual_step;
    LayerIndex min_layer = 0;
    LayerIndex max_layer = total_layer_count - 1;
    for (LayerIndex layer_nr = 0; layer_nr < total_layer_count - 1; layer_nr++)
    {
        if (layer_nr < min_layer || layer_nr > max_layer)
        {
            continue;
        }
        std::vector<SupportInfillPart>& support_infill_parts = storage.support.supportLayers[layer_nr].support_infill_parts;
        for (unsigned int part_idx = 0; part_idx < support_infill_parts.size(); ++part_idx)
        {
            SupportInfillPart& support_infill_part = support_infill_parts[part_idx];
            Shape original_area = support_infill_part.outline_;
            if (original_area.empty())
            {
                continue;
            }
            const Shape wall_inside_area = Infill::generateWallToolPaths(
                support_infill_part.wall_toolpaths_,
                original_area,
                support_infill_part.inset_width_to_generate_,
                wall_width,
                infill_extruder.settings_,
                layer_nr,
                SectionType::SUPPORT,
                WallToolPathGenerator::NaiveInset);
            const AABB& this_part_boundary_box = support_infill_part.outline_boundary_box_;
            const Shape infill_area = support_infill_part.base_inside_contour_.value_or(wall_inside_area);
            Shape less_dense_support = infill_area; 
            Shape sum_more_dense; 
            for (unsigned int density_step = 0; density_step < max_density_steps; ++density_step)
            {
                LayerIndex actual_min_layer{ layer_nr + density_step * gradual_support_step_layer_count + static_cast<LayerIndex::value_type>(layer_skip_count) };
                LayerIndex actual_max_layer{ layer_nr + (density_step + 1) * gradual_support_step_layer_count };
                for (double upper_layer_idx = actual_min_layer; upper_layer_idx <= actual_max_layer; upper_layer_idx += layer_skip_count)
                {
                    if (static_cast<unsigned int>(upper_layer_idx) >= total_layer_count)
                    {
                        less_dense_support.clear();
                        break;
                    }
                    const std::vector<SupportInfillPart> upper_infill_parts = storage.support.supportLayers[upper_layer_idx].support_infill_parts;
                    Shape relevant_upper_polygons;
                    for (unsigned int upper_part_idx = 0; upper_part_idx < upper_infill_parts.size(); ++upper_part_idx)
                    {
                        if (support_infill_part.outline_.empty())
                        {
                            continue;
                        }
                        const AABB& upper_part_boundary_box = upper_infill_parts[upper_part_idx].outline_boundary_box_;
                        if (upper_part_boundary_box.hit(this_part_boundary_box))
                        {
                            relevant_upper_polygons.push_back(upper_infill_parts[upper_part_idx].outline_);
                        }
                    }
                    less_dense_support = less_dense_support.intersection(relevant_upper_polygons);
                }
                if (less_dense_support.size() == 0)
                {
                    break;
                }
                support_infill_part.infill_area_per_combine_per_density_.emplace_back();
                std::vector<Shape>& support_area_current_density = support_infill_part.infill_area_per_combine_per_density_.back();
                const Shape more_dense_support = infill_area.difference(less_dense_support);
                support_area_current_density.push_back(simplifier.polygon(more_dense_support.difference(sum_more_dense)));
                if (is_connected)
                {
                    sum_more_dense = sum_more_dense.unionPolygons(more_dense_support);
                }
            }
            support_infill_part.infill_area_per_combine_per_density_.emplace_back();
            std::vector<Shape>& support_area_current_density = support_infill_part.infill_area_per_combine_per_density_.back();
            support_area_current_density.push_back(simplifier.polygon(infill_area.difference(sum_more_dense)));
#ifdef DEBUG
            for (unsigned int part_i = 0; part_i < support_infill_part.infill_area_per_combine_per_density_.size(); ++part_i)
            {
            }
#endif 
        }
    }
}

//= cura::AreaSupport::combineSupportInfillLayers
void r98(SliceDataStorage& storage)
{
    const Settings& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    const unsigned int total_layer_count = storage.print_layer_count;
    const coord_t layer_height = mesh_group_settings.get<coord_t>("layer_height");
    const ExtruderTrain& infill_extruder = mesh_group_settings.get<ExtruderTrain&>("support_infill_extruder_nr");
    const size_t combine_layers_amount
        = std::max(uint64_t(1), round_divide(infill_extruder.settings_.get<coord_t>("support_infill_sparse_thickness"), std::max(layer_height, coord_t(1))));
    if (combine_layers_amount <= 1)
    {
        return;
    }
    size_t min_layer = combine_layers_amount - 1;
    min_layer -= min_layer % combine_layers_amount; 
    size_t max_layer = total_layer_count < storage.support.supportLayers.size() ? total_layer_count : storage.support.supportLayers.size();
    max_layer = max_layer - 1;
    max_layer -= max_layer % combine_layers_amount; 
    for (size_t layer_idx = min_layer; layer_idx <= max_layer; layer_idx += combine_layers_amount) 
    {
        if (layer_idx >= storage.support.supportLayers.size())
        {
            break;
        }
        SupportLayer& layer = storage.support.supportLayers[layer_idx];
        for (unsigned int combine_count_here = 1; combine_count_here < combine_layers_amount; ++combine_count_here)
        {
            if (layer_idx < combine_count_here)
            {
                break;
            }
            size_t lower_layer_idx = layer_idx - combine_count_here;
            if (lower_layer_idx < min_layer)
            {
                break;
            }
            SupportLayer& lower_layer = storage.support.supportLayers[lower_layer_idx];
            for (SupportInfillPart& part : layer.support_infill_parts)
            {
                if (part.outline_.empty())
                {
                    continue;
                }
                for (unsigned int density_idx = 0; density_idx < part.infill_area_per_combine_per_density_.size(); ++density_idx)
                { 
                    std::vector<Shape>& infill_area_per_combine = part.infill_area_per_combine_per_density_[density_idx];
                    Shape result;
                    for (SupportInfillPart& lower_layer_part : lower_layer.support_infill_parts)
                    {
                        if (! part.outline_boundary_box_.hit(lower_layer_part.outline_boundary_box_))
                        {
                            continue;
                        }
                        Shape intersection = infill_area_per_combine[combine_count_here - 1].intersection(lower_layer_part.outline_).offset(-200).offset(200);
                        if (intersection.size() <= 0)
                        {
                            continue;
                        }
                        result.push_back(intersection); 
                        infill_area_per_combine[combine_count_here - 1]
                            = infill_area_per_combine[combine_count_here - 1].difference(intersection); 
                        unsigned int max_lower_density_idx = density_idx;
                        if (density_idx == part.infill_area_per_combine_per_density_.size() - 1)
                        {
                            max_lower_density_idx = lower_layer_part.infill_area_per_combine_per_density_.size() - 1;
                        }
                        for (unsigned int lower_density_idx = density_idx;
                             lower_density_idx <= max_lower_density_idx && lower_density_idx < lower_layer_part.infill_area_per_combine_per_density_.size();
                             lower_density_idx++)
                        {
                            std::vector<Shape>& lower_infill_area_per_combine = lower_layer_part.infill_area_per_combine_per_density_[lower_density_idx];
                            lower_infill_area_per_combine[0]
                                = lower_infill_area_per_combine[0].difference(intersection); 
                        }
                    }
                    infill_area_per_combine.push_back(result);
                }
            }
        }
    }
}

//= cura::AreaSupport::cleanup
void r99(SliceDataStorage& storage)
{
    const coord_t support_line_width = Application::getInstance().current_slice_->scene.current_mesh_group->settings.get<coord_t>("support_line_width");
    for (LayerIndex layer_nr = 0; layer_nr < storage.support.supportLayers.size(); layer_nr++)
    {
        SupportLayer& layer = storage.support.supportLayers[layer_nr];
        for (unsigned int part_idx = 0; part_idx < layer.support_infill_parts.size(); part_idx++)
        {
            SupportInfillPart& part = layer.support_infill_parts[part_idx];
            bool can_be_removed = true;
            if (part.inset_width_to_generate_ > 0)
            {
                can_be_removed = false;
            }
            else
            {
                for (const std::vector<Shape>& infill_area_per_combine_this_density : part.infill_area_per_combine_per_density_)
                {
                    for (const Shape& infill_area_this_combine_this_density : infill_area_per_combine_this_density)
                    {
                        if (! infill_area_this_combine_this_density.empty() && infill_area_this_combine_this_density.area() > support_line_width * support_line_width)
                        {
                            can_be_removed = false;
                            break;
                        }
                    }
                    if (! can_be_removed)
                    { 
                        break;
                    }
                }
            }
            if (can_be_removed)
            {
                part = std::move(layer.support_infill_parts.back());
                layer.support_infill_parts.pop_back();
                part_idx--;
            }
        }
    }
}

//= cura::AreaSupport::join
Shape r100(const SliceDataStorage& storage, const Shape& supportLayer_up, Shape& supportLayer_this)
{
    Shape joined;
    const Settings& infill_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings.get<ExtruderTrain&>("support_infill_extruder_nr").settings_;
    const AngleRadians conical_support_angle = infill_settings.get<AngleRadians>("support_conical_angle");
    const coord_t layer_thickness = infill_settings.get<coord_t>("layer_height");
    coord_t conical_support_offset;
    if (conical_support_angle > 0)
    { 
        conical_support_offset = -boundedTan(conical_support_angle) * layer_thickness;
    }
    else
    { 
        conical_support_offset = boundedTan(-conical_support_angle) * layer_thickness;
    }
    const bool conical_support = infill_settings.get<bool>("support_conical_enabled") && conical_support_angle != 0;
    if (conical_support)
    {
        const Settings& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
        Shape machine_volume_border;
        switch (mesh_group_settings.get<BuildPlateShape>("machine_shape"))
        {
        case BuildPlateShape::ELLIPTIC:
        {
            const coord_t width = storage.machine_size.max_.x_ - storage.machine_size.min_.x_;
            const coord_t depth = storage.machine_size.max_.y_ - storage.machine_size.min_.y_;
            Polygon border_circle;
            constexpr unsigned int circle_resolution = 50;
            for (unsigned int i = 0; i < circle_resolution; i++)
            {
                const AngleRadians angle = TAU * i / circle_resolution;
                const Point3LL machine_middle = storage.machine_size.getMiddle();
                const coord_t x = machine_middle.x_ + cos(angle) * width / 2;
                const coord_t y = machine_middle.y_ + sin(angle) * depth / 2;
                border_circle.emplace_back(x, y);
            }
            machine_volume_border.push_back(border_circle);
            break;
        }
        case BuildPlateShape::RECTANGULAR:
        default:
            machine_volume_border.push_back(storage.machine_size.flatten().toPolygon());
            break;
        }
        coord_t adhesion_size = 0; 
        coord_t extra_skirt_line_width = 0;
        const std::vector<bool> is_extruder_used = storage.getExtrudersUsed();
        for (size_t extruder_nr = 0; extruder_nr < Application::getInstance().current_slice_->scene.extruders.size(); extruder_nr++)
        {
            if (! is_extruder_used[extruder_nr]) 
            {
                continue;
            }
            const ExtruderTrain& other_extruder = Application::getInstance().current_slice_->scene.extruders[extruder_nr];
            extra_skirt_line_width += other_extruder.settings_.get<coord_t>("skirt_brim_line_width") * other_extruder.settings_.get<Ratio>("initial_layer_line_width_factor");
        }
        const std::vector<ExtruderTrain*> skirt_brim_extruders = mesh_group_settings.get<std::vector<ExtruderTrain*>>("skirt_brim_extruder_nr");
        auto adhesion_width_str{ "brim_width" };
        auto adhesion_line_count_str{ "brim_line_count" };
        switch (mesh_group_settings.get<EPlatformAdhesion>("adhesion_type"))
        {
        case EPlatformAdhesion::SKIRT:
            adhesion_width_str = "skirt_gap";
            adhesion_line_count_str = "skirt_line_count";
            [[fallthrough]];
        case EPlatformAdhesion::BRIM:
            for (ExtruderTrain* skirt_brim_extruder_p : skirt_brim_extruders)
            {
                ExtruderTrain& skirt_brim_extruder = *skirt_brim_extruder_p;
                adhesion_size = std::max(
                    adhesion_size,
                    coord_t(
                        skirt_brim_extruder.settings_.get<coord_t>(adhesion_width_str)
                        + skirt_brim_extruder.settings_.get<coord_t>("skirt_brim_line_width")
                              * (skirt_brim_extruder.settings_.get<size_t>(adhesion_line_count_str) - 1) 
                              * skirt_brim_extruder.settings_.get<Ratio>("initial_layer_line_width_factor")
                        + extra_skirt_line_width));
            }
            break;
        case EPlatformAdhesion::RAFT:
        {
            adhesion_size = std::max({ mesh_group_settings.get<ExtruderTrain&>("raft_base_extruder_nr").settings_.get<coord_t>("raft_base_margin"),
                                       mesh_group_settings.get<ExtruderTrain&>("raft_interface_extruder_nr").settings_.get<coord_t>("raft_interface_margin"),
                                       mesh_group_settings.get<ExtruderTrain&>("raft_surface_extruder_nr").settings_.get<coord_t>("raft_surface_margin") });
            break;
        }
        case EPlatformAdhesion::NONE:
            adhesion_size = 0;
            break;
        default: 
            break;
        }
        machine_volume_border = machine_volume_border.offset(-adhesion_size);
        const coord_t conical_smallest_breadth = infill_settings.get<coord_t>("support_conical_min_width");
        Shape insetted = supportLayer_up.offset(-conical_smallest_breadth / 2);
        Shape small_parts = supportLayer_up.difference(insetted.offset(conical_smallest_breadth / 2 + 20));
        joined = supportLayer_this.unionPolygons(supportLayer_up.offset(conical_support_offset)).unionPolygons(small_parts).intersection(machine_volume_border);
    }
    else
    {
        joined = supportLayer_this.unionPolygons(supportLayer_up);
    }
    const coord_t join_distance = infill_settings.get<coord_t>("support_join_distance");
    if (join_distance > 0)
    {
        const coord_t min_even_wall_line_width = infill_settings.get<coord_t>("min_even_wall_line_width");
        auto half_min_feature_width = min_even_wall_line_width + 10;
        joined = joined.offset(-half_min_feature_width)
                     .offset(join_distance + half_min_feature_width, ClipperLib::jtRound)
                     .offset(-join_distance, ClipperLib::jtRound)
                     .unionPolygons(joined);
    }
    const Simplify simplify(infill_settings);
    joined = simplify.polygon(joined);
    return joined;
}

//= cura::AreaSupport::generateSupportAreas
void r102(SliceDataStorage& storage)
{
    std::vector<Shape> global_support_areas_per_layer;
    global_support_areas_per_layer.resize(storage.print_layer_count);
    int max_layer_nr_support_mesh_filled;
    for (max_layer_nr_support_mesh_filled = storage.support.supportLayers.size() - 1; max_layer_nr_support_mesh_filled >= 0; max_layer_nr_support_mesh_filled--)
    {
        const SupportLayer& support_layer = storage.support.supportLayers[max_layer_nr_support_mesh_filled];
        if (support_layer.support_mesh.size() > 0 || support_layer.support_mesh_drop_down.size() > 0)
        {
            break;
        }
    }
    storage.support.layer_nr_max_filled_layer = max_layer_nr_support_mesh_filled;
    for (int layer_nr = 0; layer_nr < max_layer_nr_support_mesh_filled; layer_nr++)
    {
        SupportLayer& support_layer = storage.support.supportLayers[layer_nr];
        support_layer.anti_overhang = support_layer.anti_overhang.unionPolygons();
        support_layer.force_overhang = support_layer.force_overhang.unionPolygons();
        support_layer.support_mesh_drop_down = support_layer.support_mesh_drop_down.unionPolygons();
        support_layer.support_mesh = support_layer.support_mesh.unionPolygons();
    }
    if (storage.print_layer_count > storage.support.supportLayers.size())
    { 
        storage.support.supportLayers.resize(storage.print_layer_count);
    }
    bool support_meshes_drop_down_handled = false;
    bool support_meshes_handled = false;
    const Settings& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    for (unsigned int mesh_idx = 0; mesh_idx < storage.meshes.size(); mesh_idx++)
    {
        const SliceMeshStorage& mesh = *storage.meshes[mesh_idx];
        if (! mesh.isModelMesh())
        {
            continue;
        }
        Settings* infill_settings = &storage.meshes[mesh_idx]->settings;
        Settings* roof_settings = &storage.meshes[mesh_idx]->settings;
        Settings* bottom_settings = &storage.meshes[mesh_idx]->settings;
        if (mesh.settings.get<bool>("support_mesh"))
        {
            if ((mesh.settings.get<bool>("support_mesh_drop_down") && support_meshes_drop_down_handled)
                || (! mesh.settings.get<bool>("support_mesh_drop_down") && support_meshes_handled))
            { 
                continue;
            }
            infill_settings = &mesh_group_settings.get<ExtruderTrain&>("support_infill_extruder_nr").settings_;
            roof_settings = &mesh_group_settings.get<ExtruderTrain&>("support_roof_extruder_nr").settings_;
            bottom_settings = &mesh_group_settings.get<ExtruderTrain&>("support_bottom_extruder_nr").settings_;
            if (mesh.settings.get<bool>("support_mesh_drop_down"))
            {
                support_meshes_drop_down_handled = true;
            }
            else
            {
                support_meshes_handled = true;
            }
        }
        std::vector<Shape> mesh_support_areas_per_layer;
        mesh_support_areas_per_layer.resize(storage.print_layer_count, Shape());
        cura::AreaSupport::generateSupportAreasForMesh(storage, *infill_settings, *roof_settings, *bottom_settings, mesh_idx, storage.print_layer_count, mesh_support_areas_per_layer);
        for (size_t layer_idx = 0; layer_idx < storage.print_layer_count; layer_idx++)
        {
            global_support_areas_per_layer[layer_idx].push_back(mesh_support_areas_per_layer[layer_idx]);
        }
    }
    for (Shape& support_areas : global_support_areas_per_layer)
    {
        support_areas = support_areas.unionPolygons();
    }
    for (auto& mesh : storage.meshes)
    {
        if (! mesh->isModelMesh())
        {
            continue;
        }
        if (mesh->settings.get<bool>("support_roof_enable"))
        {
            cura::AreaSupport::generateSupportRoof(storage, *mesh, global_support_areas_per_layer);
        }
        if (mesh->settings.get<bool>("support_bottom_enable"))
        {
            cura::AreaSupport::generateSupportBottom(storage, *mesh, global_support_areas_per_layer);
        }
    }
    AreaSupport::splitGlobalSupportAreasIntoSupportInfillParts(storage, global_support_areas_per_layer, storage.print_layer_count);
    cura::AreaSupport::precomputeCrossInfillTree(storage);
}

//= cura::AreaSupport::generateOverhangAreasForMesh
void r104(SliceDataStorage& storage, SliceMeshStorage& mesh)
{
    const bool mesh_group_support_paint = Application::getInstance().current_slice_->scene.current_mesh_group->has_painted_support;
    if (! (mesh.settings.get<bool>("support_enable") || mesh.settings.get<bool>("support_mesh") || mesh_group_support_paint))
    {
        return;
    }
    mesh.full_overhang_areas.resize(storage.print_layer_count);
    for (size_t layer_idx = 0; layer_idx < storage.print_layer_count; layer_idx++)
    {
        mesh.overhang_areas.emplace_back();
    }
    const bool is_support_modifier = mesh.settings.get<bool>("support_mesh");
    if (is_support_modifier)
    {
        return;
    }
    const coord_t layer_height = Application::getInstance().current_slice_->scene.current_mesh_group->settings.get<coord_t>("layer_height");
    const coord_t z_distance_top = mesh.settings.get<coord_t>("support_top_distance");
    const size_t z_distance_top_layers = (z_distance_top / layer_height) + 1;
    if (z_distance_top_layers + 1 > storage.print_layer_count)
    {
        return;
    }
    const coord_t max_supported_diameter = mesh.settings.get<coord_t>("support_tower_maximum_supported_diameter");
    const bool use_towers = mesh.settings.get<bool>("support_use_towers") && max_supported_diameter > 0;
    if (use_towers)
    {
        AreaSupport::detectOverhangPoints(storage, mesh);
    }
    cura::parallel_for<size_t>(
        1,
        storage.print_layer_count,
        [&](const size_t layer_idx)
        {
            std::pair<Shape, Shape> basic_and_full_overhang = cura::AreaSupport::computeBasicAndFullOverhang(storage, mesh, layer_idx);
            mesh.overhang_areas[layer_idx] = basic_and_full_overhang.first; 
            mesh.full_overhang_areas[layer_idx] = basic_and_full_overhang.second;
            scripta::log("support_basic_overhang_area", basic_and_full_overhang.first, SectionType::SUPPORT, layer_idx);
            scripta::log("support_full_overhang_area", basic_and_full_overhang.second, SectionType::SUPPORT, layer_idx);
        });
}

//= cura::AreaSupport::moveUpFromModel
void r107(const SliceDataStorage& storage, Shape& stair_removal, Shape& sloped_areas, Shape& support_areas, const size_t layer_idx, const size_t bottom_empty_layer_count, const size_t bottom_stair_step_layer_count, const coord_t support_bottom_stair_step_width)
{
    if (layer_idx < bottom_empty_layer_count)
    {
        return;
    }
    if (bottom_empty_layer_count <= 0 && bottom_stair_step_layer_count <= 1)
    {
        return;
    }
    const size_t bottom_layer_nr = layer_idx - bottom_empty_layer_count;
    constexpr bool no_support = false;
    constexpr bool no_prime_tower = false;
    const Shape bottom_outline = storage.getLayerOutlines(bottom_layer_nr, no_support, no_prime_tower);
    Shape to_be_removed;
    if (bottom_stair_step_layer_count <= 1)
    {
        to_be_removed = bottom_outline;
    }
    else
    {
        to_be_removed = stair_removal.unionPolygons(bottom_outline);
        if (layer_idx % bottom_stair_step_layer_count == 0)
        { 
            const Shape supporting_bottom = storage.getLayerOutlines(LayerIndex(bottom_layer_nr) - 1, no_support, no_prime_tower);
            const Shape allowed_step_width = supporting_bottom.offset(support_bottom_stair_step_width).intersection(sloped_areas);
            const int64_t step_bottom_layer_nr = static_cast<int64_t>(bottom_layer_nr) - static_cast<int64_t>(bottom_stair_step_layer_count) + 1;
            if (step_bottom_layer_nr >= 0)
            {
                const Shape step_bottom_outline = storage.getLayerOutlines(step_bottom_layer_nr, no_support, no_prime_tower);
                stair_removal = step_bottom_outline.intersection(allowed_step_width);
            }
            else
            {
                stair_removal = allowed_step_width;
            }
        }
    }
    support_areas = support_areas.difference(to_be_removed);
}

//= cura::AreaSupport::computeBasicAndFullOverhang
std::pair<Shape, Shape> r108(const SliceDataStorage& storage, const SliceMeshStorage& mesh, const LayerIndex& layer_idx)
{
    const Shape outlines = mesh.layers[layer_idx].getOutlines();
    constexpr bool no_support = false;
    constexpr bool no_prime_tower = false;
    constexpr double smooth_height = 0.4; 
    const LayerIndex layers_below{ static_cast<LayerIndex::value_type>(std::round(smooth_height / mesh.settings.get<double>("layer_height"))) };
    const coord_t layer_height = mesh.settings.get<coord_t>("layer_height");
    const AngleRadians support_angle = mesh.settings.get<AngleRadians>("support_angle");
    const double tan_angle = boundedTan(support_angle); 
    const coord_t max_dist_from_lower_layer = tan_angle * layer_height; 
    Shape outlines_below = storage.getLayerOutlines(layer_idx - 1, no_support, no_prime_tower).offset(max_dist_from_lower_layer);
    for (int layer_idx_offset = 2; layer_idx - layer_idx_offset >= 0 && layer_idx_offset <= layers_below; layer_idx_offset++)
    {
        auto outlines_below_ = storage.getLayerOutlines(layer_idx - layer_idx_offset, no_support, no_prime_tower).offset(max_dist_from_lower_layer * layer_idx_offset);
        outlines_below = outlines_below.unionPolygons(outlines_below_);
    }
    Shape basic_overhang = mesh.settings.get<bool>("support_enable") ? outlines.difference(outlines_below) : Shape{};
    const SupportLayer& support_layer = storage.support.supportLayers[layer_idx];
    if (! support_layer.anti_overhang.empty())
    {
        Shape merged_polygons = support_layer.anti_overhang.unionPolygons();
        basic_overhang = basic_overhang.difference(merged_polygons);
    }
    if (! support_layer.force_overhang.empty())
    {
        basic_overhang = basic_overhang.unionPolygons(support_layer.force_overhang);
    }
    Shape overhang_extended = basic_overhang
                                  .offset(max_dist_from_lower_layer * layers_below + MM2INT(0.1));
    Shape full_overhang = overhang_extended.intersection(outlines);
    return std::make_pair(basic_overhang, full_overhang);
}

//= cura::AreaSupport::detectOverhangPoints
void r109(const SliceDataStorage& storage, SliceMeshStorage& mesh)
{
    const coord_t max_tower_supported_diameter = mesh.settings.get<coord_t>("support_tower_maximum_supported_diameter");
    const coord_t max_tower_supported_area = max_tower_supported_diameter * max_tower_supported_diameter;
    mesh.overhang_points.resize(storage.print_layer_count);
    for (size_t layer_idx = 1; layer_idx < storage.print_layer_count; layer_idx++)
    {
        const SliceLayer& layer = mesh.layers[layer_idx];
        const SliceLayer& layer_below = mesh.layers[layer_idx - 1];
        for (const SliceLayerPart& part : layer.parts)
        {
            if (part.outline.empty())
            {
                continue;
            }
            if (part.outline.outerPolygon().area() >= max_tower_supported_area)
            {
                continue;
            }
            auto has_support_below = ! layer_below.getOutlines().intersection(part.outline).empty();
            if (has_support_below)
            {
                continue;
            }
            const Shape overhang = part.outline.difference(storage.support.supportLayers[layer_idx].anti_overhang);
            if (! overhang.empty())
            {
                scripta::log("support_overhangs", overhang, SectionType::SUPPORT, layer_idx);
                mesh.overhang_points[layer_idx].push_back(overhang);
            }
        }
    }
}

//= cura::AreaSupport::handleTowers
void r110(const Settings& settings, const Shape& xy_disallowed_area, Shape& supportLayer_this, std::vector<Shape>& tower_roofs, std::vector<std::vector<Shape>>& overhang_points, LayerIndex layer_idx, size_t layer_count)
{
    LayerIndex layer_overhang_point = layer_idx + 1; 
    if (layer_overhang_point >= static_cast<LayerIndex>(layer_count) - 1)
    {
        return;
    }
    std::vector<Shape>& overhang_points_here = overhang_points[layer_overhang_point]; 
    if (overhang_points_here.size() > 0)
    {
        if (layer_overhang_point < static_cast<LayerIndex>(layer_count) && ! overhang_points[layer_overhang_point - 1].empty())
        {
            const auto max_tower_supported_diameter = settings.get<coord_t>("support_tower_maximum_supported_diameter");
            std::vector<Shape>& overhang_points_below = overhang_points[layer_overhang_point - 1];
            for (Shape& poly_here : overhang_points_here)
            {
                for (const Shape& poly_below : overhang_points_below)
                {
                    poly_here = poly_here.difference(poly_below.offset(max_tower_supported_diameter * 2));
                }
            }
        }
        for (Shape& poly : overhang_points_here)
        {
            if (poly.size() > 0)
            {
                tower_roofs.push_back(poly);
            }
        }
    }
    const coord_t layer_thickness = settings.get<coord_t>("layer_height");
    const AngleRadians tower_roof_angle = settings.get<AngleRadians>("support_tower_roof_angle");
    const coord_t tower_diameter = settings.get<coord_t>("support_tower_diameter");
    const auto support_line_width = settings.get<coord_t>("support_line_width");
    coord_t tower_roof_expansion_distance;
    if (tower_roof_angle == 0)
    {
        tower_roof_expansion_distance = tower_diameter / 2;
    }
    else
    {
        const double tan_tower_roof_angle = boundedTan(tower_roof_angle);
        tower_roof_expansion_distance = layer_thickness / tan_tower_roof_angle;
    }
    for (Shape& tower_roof : tower_roofs
                                 | ranges::views::filter(
                                     [](const auto& poly)
                                     {
                                         return ! poly.empty();
                                     }))
    {
        supportLayer_this = supportLayer_this.unionPolygons(tower_roof);
        if (tower_roof.area() < tower_diameter * tower_diameter)
        {
            Shape model_outline = xy_disallowed_area;
            const coord_t offset_per_step = std::max(support_line_width / 2, tower_roof_expansion_distance);
            for (coord_t offset_cumulative = 0; offset_cumulative <= tower_roof_expansion_distance; offset_cumulative += offset_per_step)
            {
                tower_roof = tower_roof.offset(offset_per_step, ClipperLib::jtRound);
                model_outline = model_outline.difference(tower_roof);
                model_outline = model_outline.offset(offset_per_step, ClipperLib::jtRound);
                tower_roof = tower_roof.difference(model_outline);
                if (tower_roof.empty())
                {
                    break;
                }
                if (tower_roof.area() >= tower_diameter * tower_diameter)
                {
                    supportLayer_this = supportLayer_this.unionPolygons(tower_roof);
                    tower_roof.clear();
                    break;
                }
            }
        }
        else
        {
            tower_roof.clear();
        }
    }
}

//= cura::AreaSupport::handleWallStruts
void r111(const Settings& settings, Shape& supportLayer_this)
{
    const coord_t max_tower_supported_diameter = settings.get<coord_t>("support_tower_maximum_supported_diameter");
    const coord_t tower_diameter = settings.get<coord_t>("support_tower_diameter");
    for (unsigned int p = 0; p < supportLayer_this.size(); p++)
    {
        const Polygon& poly = supportLayer_this[p];
        if (poly.size() < 6) 
        {
            int best = -1;
            coord_t best_length2 = -1;
            for (unsigned int i = 0; i < poly.size(); i++)
            {
                const coord_t length2 = vSize2(poly[i] - poly[(i + 1) % poly.size()]);
                if (length2 > best_length2)
                {
                    best = i;
                    best_length2 = length2;
                }
            }
            if (best_length2 < max_tower_supported_diameter * max_tower_supported_diameter)
            {
                break; 
            }
            int width = sqrt(poly.area() * poly.area() / best_length2); 
            if (width < max_tower_supported_diameter)
            {
                Point2LL mid = (poly[best] + poly[(best + 1) % poly.size()]) / 2;
                Shape struts;
                Polygon& strut = struts.newLine();
                strut.push_back(mid + Point2LL(tower_diameter / 2, tower_diameter / 2));
                strut.push_back(mid + Point2LL(-tower_diameter / 2, tower_diameter / 2));
                strut.push_back(mid + Point2LL(-tower_diameter / 2, -tower_diameter / 2));
                strut.push_back(mid + Point2LL(tower_diameter / 2, -tower_diameter / 2));
                supportLayer_this = supportLayer_this.unionPolygons(struts);
            }
        }
    }
}

//= cura::AreaSupport::generateSupportBottom
void r112(SliceDataStorage& storage, const SliceMeshStorage& mesh, std::vector<Shape>& global_support_areas_per_layer)
{
    const Settings& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    const coord_t layer_height = mesh_group_settings.get<coord_t>("layer_height");
    const size_t bottom_layer_count = round_divide(mesh.settings.get<coord_t>("support_bottom_height"), layer_height); 
    if (bottom_layer_count <= 0)
    {
        return;
    }
    const coord_t z_distance_bottom = round_up_divide(mesh.settings.get<coord_t>("support_bottom_distance"), layer_height); 
    const coord_t bottom_line_width = mesh_group_settings.get<ExtruderTrain&>("support_bottom_extruder_nr").settings_.get<coord_t>("support_bottom_line_width");
    const coord_t bottom_outline_offset = mesh_group_settings.get<ExtruderTrain&>("support_bottom_extruder_nr").settings_.get<coord_t>("support_bottom_offset");
    const double minimum_bottom_area = mesh.settings.get<double>("minimum_bottom_area");
    std::vector<SupportLayer>& support_layers = storage.support.supportLayers;
    for (LayerIndex layer_idx = support_layers.size() - 1; layer_idx >= static_cast<int>(z_distance_bottom); --layer_idx)
    {
        const unsigned int bottom_layer_idx_below = std::max(0, int(layer_idx) - int(bottom_layer_count) - int(z_distance_bottom));
        Shape mesh_outlines;
        for (auto layer_idx_below = bottom_layer_idx_below; layer_idx_below < layer_idx - z_distance_bottom + 1; layer_idx_below += 1)
        {
            mesh_outlines.push_back(mesh.layers[layer_idx_below].getOutlines());
        }
        Shape bottoms;
        cura::AreaSupport::generateSupportInterfaceLayer(global_support_areas_per_layer[layer_idx], mesh_outlines, bottom_line_width, bottom_outline_offset, minimum_bottom_area, bottoms);
        support_layers[layer_idx].support_bottom.push_back(bottoms);
        scripta::log("support_interface_bottoms", bottoms, SectionType::SUPPORT, layer_idx);
    }
}

//= cura::AreaSupport::generateSupportInterfaceLayer
void r114(Shape& support_areas, const Shape colliding_mesh_outlines, const coord_t safety_offset, const coord_t outline_offset, const double minimum_interface_area, Shape& interface_polygons)
{
    Shape model = colliding_mesh_outlines.unionPolygons();
    interface_polygons = support_areas.offset(safety_offset / 2).intersection(model);
    interface_polygons = interface_polygons.offset(safety_offset).intersection(support_areas); 
    if (outline_offset != 0)
    {
        interface_polygons = interface_polygons.offset(outline_offset);
        if (outline_offset > 0) 
        {
            interface_polygons = interface_polygons.intersection(support_areas);
        }
    }
    if (minimum_interface_area > 0.0)
    {
        interface_polygons.removeSmallAreas(minimum_interface_area);
    }
    support_areas = support_areas.difference(interface_polygons);
}

//= cura::FffProcessor::getInstance
FffProcessor* r115()
{
    return &cura::FffProcessor::instance;
}

//END
}  // namespace ref
