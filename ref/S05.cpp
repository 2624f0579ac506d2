// Feature configurations.
#include <algorithm>
#include <array>
#include <unordered_set>
#include <unordered_map>
#include <set>
#include <map>
#include <list>
#include <vector>
#include <deque>
#include <memory>
#include <numeric>
#include <optional>
#include <functional>
#include <string>
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "geometry/Polygon.h"
#include "geometry/OpenPolyline.h"
#include "geometry/SingleShape.h"
#include "geometry/MixedLinesSet.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "raft.h"
#include "Application.h"
#include "ExtruderTrain.h"
#include "GCodePathConfig.h"
#include "PrintFeature.h"
#include "Slice.h"
#include "geometry/Point2LL.h"
#include "pathPlanning/GCodePath.h"
#include "raft.h"
#include "settings/EnumSettings.h"
#include "settings/MeshPathConfigs.h"
#include "settings/PathConfigStorage.h"
#include "settings/Settings.h"
#include "settings/ZSeamConfig.h"
#include "sliceDataStorage.h"
#include <range/v3/view/iota.hpp>
#include "ref.h"

namespace ref
{
using namespace cura;

//= cura::PathConfigStorage::getLineWidthFactorPerExtruder
std::vector<Ratio> r2(const LayerIndex& layer_nr)
{
    std::vector<Ratio> ret;
    for (const ExtruderTrain& train : Application::getInstance().current_slice_->scene.extruders)
    {
        if (layer_nr <= 0)
        {
            const Ratio factor = train.settings_.get<Ratio>("initial_layer_line_width_factor");
            ret.push_back(factor);
        }
        else
        {
            ret.push_back(1.0);
        }
    }
    return ret;
}

//= cura::MeshPathConfigs::smoothAllSpeeds
void r4(cura::MeshPathConfigs& self, const SpeedDerivatives& first_layer_config, const LayerIndex layer_nr, const LayerIndex max_speed_layer)
{
    self.inset0_config.speed_derivatives.smoothSpeed(first_layer_config, layer_nr, max_speed_layer);
    self.insetX_config.speed_derivatives.smoothSpeed(first_layer_config, layer_nr, max_speed_layer);
    self.skin_config.speed_derivatives.smoothSpeed(first_layer_config, layer_nr, max_speed_layer);
    self.ironing_config.speed_derivatives.smoothSpeed(first_layer_config, layer_nr, max_speed_layer);
    for (size_t idx = 0; idx < MAX_INFILL_COMBINE; idx++)
    {
        self.infill_config[idx].speed_derivatives.smoothSpeed(first_layer_config, layer_nr, max_speed_layer);
    }
}

//= cura::PathConfigStorage::handleInitialLayerSpeedup
void r5(cura::PathConfigStorage& self, const SliceDataStorage& storage, const LayerIndex& layer_nr, const size_t initial_speedup_layer_count)
{
    std::vector<SpeedDerivatives> global_first_layer_config_per_extruder;
    global_first_layer_config_per_extruder.reserve(Application::getInstance().current_slice_->scene.extruders.size());
    for (const ExtruderTrain& extruder : Application::getInstance().current_slice_->scene.extruders)
    {
        global_first_layer_config_per_extruder.emplace_back(SpeedDerivatives{ .speed = extruder.settings_.get<Velocity>("speed_print_layer_0"),
                                                                              .acceleration = extruder.settings_.get<Acceleration>("acceleration_print_layer_0"),
                                                                              .jerk = extruder.settings_.get<Velocity>("jerk_print_layer_0") });
    }
    { 
        if (layer_nr < static_cast<LayerIndex>(initial_speedup_layer_count))
        {
            const Settings& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
            const size_t extruder_nr_support_infill
                = mesh_group_settings.get<ExtruderTrain&>((layer_nr <= 0) ? "support_extruder_nr_layer_0" : "support_infill_extruder_nr").extruder_nr_;
            for (unsigned int idx = 0; idx < MAX_INFILL_COMBINE; idx++)
            {
                self.support_infill_config[idx].speed_derivatives.smoothSpeed(
                    global_first_layer_config_per_extruder[extruder_nr_support_infill],
                    std::max(LayerIndex(0), layer_nr),
                    initial_speedup_layer_count);
            }
            const size_t extruder_nr_support_roof = mesh_group_settings.get<ExtruderTrain&>("support_roof_extruder_nr").extruder_nr_;
            self.support_roof_config.speed_derivatives.smoothSpeed(
                global_first_layer_config_per_extruder[extruder_nr_support_roof],
                std::max(LayerIndex(0), layer_nr),
                initial_speedup_layer_count);
            const size_t extruder_nr_support_bottom = mesh_group_settings.get<ExtruderTrain&>("support_bottom_extruder_nr").extruder_nr_;
            self.support_bottom_config.speed_derivatives.smoothSpeed(
                global_first_layer_config_per_extruder[extruder_nr_support_bottom],
                std::max(LayerIndex(0), layer_nr),
                initial_speedup_layer_count);
        }
    }
    { 
        for (size_t extruder_nr = 0; extruder_nr < Application::getInstance().current_slice_->scene.extruders.size(); extruder_nr++)
        {
            const ExtruderTrain& train = Application::getInstance().current_slice_->scene.extruders[extruder_nr];
            const SpeedDerivatives initial_layer_travel_speed_config{ .speed = train.settings_.get<Velocity>("speed_travel_layer_0"),
                                                                      .acceleration = train.settings_.get<Acceleration>("acceleration_travel_layer_0"),
                                                                      .jerk = train.settings_.get<Velocity>("jerk_travel_layer_0") };
            GCodePathConfig& travel = self.travel_config_per_extruder[extruder_nr];
            travel.speed_derivatives.smoothSpeed(initial_layer_travel_speed_config, std::max(LayerIndex(0), layer_nr), initial_speedup_layer_count);
            GCodePathConfig& prime_tower = self.prime_tower_config_per_extruder[extruder_nr];
            prime_tower.speed_derivatives.smoothSpeed(global_first_layer_config_per_extruder[extruder_nr], std::max(LayerIndex(0), layer_nr), initial_speedup_layer_count);
        }
    }
    { 
        for (size_t mesh_idx = 0; mesh_idx < storage.meshes.size(); mesh_idx++)
        {
            const SliceMeshStorage& mesh = *storage.meshes[mesh_idx];
            const SpeedDerivatives initial_layer_speed_config{ .speed = mesh.settings.get<Velocity>("speed_print_layer_0"),
                                                               .acceleration = mesh.settings.get<Acceleration>("acceleration_print_layer_0"),
                                                               .jerk = mesh.settings.get<Velocity>("jerk_print_layer_0") };
            self.mesh_configs[mesh_idx].smoothAllSpeeds(initial_layer_speed_config, layer_nr, initial_speedup_layer_count);
            self.mesh_configs[mesh_idx].roofing_config.speed_derivatives.smoothSpeed(initial_layer_speed_config, layer_nr, initial_speedup_layer_count);
        }
    }
}

//= cura::ZSeamConfig::ZSeamConfig
void r6(cura::ZSeamConfig& self, const EZSeamType type, const Point2LL pos, const EZSeamCornerPrefType corner_pref, const coord_t simplify_curvature)
{
        member(self.type_) = type;
        member(self.pos_) = pos;
        member(self.corner_pref_) = corner_pref;
        member(self.simplify_curvature_) = simplify_curvature;
}

//= cura::GCodePathConfig::getExtrusionMM3perMM
double r7(const cura::GCodePathConfig& self)
{
    return self.extrusion_mm3_per_mm;
}

//= cura::GCodePathConfig::getSpeed
Velocity r8(const cura::GCodePathConfig& self)
{
    return self.speed_derivatives.speed;
}

//= cura::GCodePathConfig::getAcceleration
Acceleration r9(const cura::GCodePathConfig& self)
{
    return self.speed_derivatives.acceleration;
}

//= cura::GCodePathConfig::getJerk
Velocity r10(const cura::GCodePathConfig& self)
{
    return self.speed_derivatives.jerk;
}

//= cura::GCodePathConfig::getLineWidth
coord_t r11(const cura::GCodePathConfig& self)
{
    return self.line_width;
}

//= cura::GCodePathConfig::getLayerThickness
coord_t r12(const cura::GCodePathConfig& self)
{
    return self.layer_thickness;
}

//= cura::GCodePathConfig::getPrintFeatureType
PrintFeatureType r13(const cura::GCodePathConfig& self)
{
    return self.type;
}

//= cura::GCodePathConfig::getTemperatureDelta
const Temperature& r14(const cura::GCodePathConfig& self)
{
    return self.temperature_delta;
}

//= cura::GCodePathConfig::isTravelPath
bool r15(const cura::GCodePathConfig& self)
{
    return self.line_width == 0;
}

//= cura::GCodePathConfig::isBridgePath
bool r16(const cura::GCodePathConfig& self)
{
    return self.is_bridge_path;
}

//= cura::GCodePathConfig::getFanSpeed
double r17(const cura::GCodePathConfig& self)
{
    return self.fan_speed;
}

//= cura::GCodePathConfig::getFlowRatio
Ratio r18(const cura::GCodePathConfig& self)
{
    return self.flow;
}

//= cura::GCodePathConfig::calculateExtrusion
double r19(const cura::GCodePathConfig& self)
{
    return INT2MM(self.line_width) * INT2MM(self.layer_thickness) * double(self.flow);
}

//= cura::GCodePath::isTravelPath
bool r20(const cura::GCodePath& self)
{
    return self.config.isTravelPath();
}

//= cura::GCodePath::getExtrusionMM3perMM
double r21(const cura::GCodePath& self)
{
    return self.flow * self.width_factor * self.config.getExtrusionMM3perMM();
}

//= cura::GCodePath::getLineWidthForLayerView
coord_t r22(const cura::GCodePath& self)
{
    return static_cast<coord_t>(self.flow * self.width_factor * static_cast<double>(self.config.getLineWidth()) * self.config.getFlowRatio());
}

//= cura::GCodePath::setFanSpeed
void r23(cura::GCodePath& self, const double fanspeed)
{
    self.fan_speed = fanspeed;
}

//= cura::GCodePath::getFanSpeed
double r24(const cura::GCodePath& self)
{
    return (self.fan_speed >= 0 && self.fan_speed <= 100) ? self.fan_speed : self.config.getFanSpeed();
}

//END
}  // namespace ref
