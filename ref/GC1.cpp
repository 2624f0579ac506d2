// G-code export.
#include <algorithm>
#include <array>
#include <unordered_set>
#include <unordered_map>
#include <set>
#include <map>
#include <list>
#include <vector>
#include <deque>
#include <memory>
#include <numeric>
#include <optional>
#include <functional>
#include <string>
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "geometry/Polygon.h"
#include "geometry/OpenPolyline.h"
#include "geometry/SingleShape.h"
#include "geometry/MixedLinesSet.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "raft.h"
#include "Application.h"
#include "ExtruderTrain.h"
#include "PrintFeature.h"
#include "PrintInformation.h"
#include "RetractionConfig.h"
#include "Slice.h"
#include "TravelAntiOozing.h"
#include "WipeScriptConfig.h"
#include "communication/Communication.h"
#include "gcode_export/FixedGCodePart.h"
#include "gcode_export/GCodePart.h"
#include "gcode_export/GcodeTemplateResolver.h"
#include "gcode_export/ResolvedGCodePart.h"
#include "gcode_export/ResolvingExtruderContext.h"
#include "gcode_export/gcodeExport.h"
#include "geometry/Point2LL.h"
#include "settings/EnumSettings.h"
#include "settings/SettingContainersEnvironmentAdapter.h"
#include "settings/Settings.h"
#include "settings/types/LayerIndex.h"
#include "settings/types/Temperature.h"
#include "settings/types/Velocity.h"
#include "sliceDataStorage.h"
#include "timeEstimate.h"
#include "utils/AABB3D.h"
#include "utils/Date.h"
#include "utils/NoCopy.h"
#include "utils/ThreadPool.h"
#include "utils/math.h"
#include "utils/string.h"
#include <boost/regex.hpp>
#include <cassert>
#include <chrono>
#include <cmath>
#include <cura-formulae-engine/eval.h>
#include <cura-formulae-engine/parser/parser.h>
#include <deque> // for extrusionAmountAtPreviousRetractions
#include <fmt/chrono.h>
#include <gtest/gtest_prod.h> //To allow tests to use protected members.
#include <iomanip>
#include <memory>
#include <numbers>
#include <optional>
#include <range/v3/algorithm/contains.hpp>
#include <range/v3/view/enumerate.hpp>
#include <range/v3/view/map.hpp>
#include <regex>
#include <spdlog/spdlog.h>
#include <sstream>
#include <sstream> // for stream.str()
#include <stddef.h>
#include <stdio.h>
#include <string>
#include <unordered_map>
#include <variant>
#include "gcode_export/FixedGCodePart.h"
#include "gcode_export/GCodePart.h"
#include "gcode_export/GcodeTemplateResolver.h"
#include "gcode_export/ResolvedGCodePart.h"
#include "gcode_export/ResolvingExtruderContext.h"
#include "gcode_export/gcodeExport.h"
#include "ref.h"

namespace ref
{
using namespace cura;

//= cura::FixedGCodePart::FixedGCodePart
void r1(cura::FixedGCodePart& self)
{
    self.stream_ << std::fixed;
}

//= cura::FixedGCodePart::str
std::string r2(const cura::FixedGCodePart& self)
{
    return self.stream_.str();
}

//= cura::FixedGCodePart::stream
std::ostringstream& r3(cura::FixedGCodePart& self)
{
    return self.stream_;
}

//= cura::GcodeTemplateResolver::processStatement
namespace n6
{
using GcodeConditionState = cura::GcodeTemplateResolver::GcodeConditionState;
void r6(std::string& output, const GcodeConditionState condition_state, const std::string_view& statement)
{
    if (condition_state == GcodeConditionState::OutsideCondition || condition_state == GcodeConditionState::ConditionTrue)
    {
        output += statement;
    }
}
} // namespace n6

//= cura::ResolvedGCodePart::ResolvedGCodePart
void r9(cura::ResolvedGCodePart& self, const std::shared_ptr<GcodeTemplateResolver>& template_resolver, const std::string& raw_string, const ResolvingExtruderContext& context_extruder_nr, const std::unordered_map<std::string, CuraFormulaeEngine::eval::Value>& extra_settings)
{
        member(self.template_resolver_) = template_resolver;
        member(self.raw_string_) = raw_string;
        member(self.context_extruder_nr_) = context_extruder_nr;
        member(self.extra_settings_) = extra_settings;
}

//= cura::ResolvedGCodePart::str
std::string r10(const cura::ResolvedGCodePart& self)
{
    return self.template_resolver_->resolveGCodeTemplate(self.raw_string_, self.context_extruder_nr_, self.extra_settings_);
}

//= cura::transliterate
std::string r11(const std::string& text)
{
    std::ostringstream stream;
    for (const char& c : text)
    {
        stream << ((c >= 0) ? c : '?');
    }
    return stream.str();
}

//= cura::GCodeExport::preSetup
void r13(cura::GCodeExport& self, const size_t start_extruder)
{
    self.current_extruder_ = start_extruder;
    const Scene& scene = Application::getInstance().current_slice_->scene;
    std::vector<MeshGroup>::iterator mesh_group = scene.current_mesh_group;
    self.setFlavor(mesh_group->settings.get<EGCodeFlavor>("machine_gcode_flavor"));
    self.use_extruder_offset_to_offset_coords_ = mesh_group->settings.get<bool>("machine_use_extruder_offset_to_offset_coords");
    const size_t extruder_count = Application::getInstance().current_slice_->scene.extruders.size();
    self.ppr_enable_ = mesh_group->settings.get<bool>("ppr_enable");
    for (size_t extruder_nr = 0; extruder_nr < extruder_count; extruder_nr++)
    {
        const ExtruderTrain& train = scene.extruders[extruder_nr];
        self.setFilamentDiameter(extruder_nr, train.settings_.get<coord_t>("material_diameter"));
        self.extruder_attr_[extruder_nr].last_retraction_prime_speed_
            = train.settings_.get<Velocity>("retraction_prime_speed"); 
        self.extruder_attr_[extruder_nr].fan_number_ = train.settings_.get<size_t>("machine_extruder_cooling_fan_number");
        self.fans_count_ = std::max(self.fans_count_, self.extruder_attr_[extruder_nr].fan_number_ + 1);
        const Settings& extruder_settings = Application::getInstance().current_slice_->scene.extruders[extruder_nr].settings_;
        if (self.use_extruder_offset_to_offset_coords_)
        {
            self.extruder_attr_[extruder_nr].nozzle_offset_
                = Point2LL(extruder_settings.get<coord_t>("machine_nozzle_offset_x"), extruder_settings.get<coord_t>("machine_nozzle_offset_y"));
        }
        else
        {
            self.extruder_attr_[extruder_nr].nozzle_offset_ = Point2LL(0, 0);
        }
        self.extruder_attr_[extruder_nr].machine_firmware_retract_ = extruder_settings.get<bool>("machine_firmware_retract");
    }
    self.machine_name_ = mesh_group->settings.get<std::string>("machine_name");
    self.relative_extrusion_ = mesh_group->settings.get<bool>("relative_extrusion");
    self.always_write_active_tool_ = mesh_group->settings.get<bool>("machine_always_write_active_tool");
    if (self.flavor_ == EGCodeFlavor::BFB)
    {
        self.new_line_ = "\r\n";
    }
    else
    {
        self.new_line_ = "\n";
    }
    self.estimate_calculator_.setFirmwareDefaults(mesh_group->settings);
    if (mesh_group == scene.mesh_groups.begin())
    {
        if (! scene.current_mesh_group->settings.get<bool>("material_bed_temp_prepend"))
        {
            self.bed_temperature_ = scene.current_mesh_group->settings.get<Temperature>("material_bed_temperature_layer_0");
        }
        else
        {
        }
    }
    else
    {
        self.bed_temperature_ = (scene.current_mesh_group - 1)->settings.get<Temperature>("material_bed_temperature");
    }
}

//= cura::GCodeExport::setInitialAndBuildVolumeTemps
void r14(cura::GCodeExport& self, const unsigned int start_extruder_nr)
{
    const Scene& scene = Application::getInstance().current_slice_->scene;
    const size_t extruder_count = Application::getInstance().current_slice_->scene.extruders.size();
    for (size_t extruder_nr = 0; extruder_nr < extruder_count; extruder_nr++)
    {
        const ExtruderTrain& train = scene.extruders[extruder_nr];
        const Temperature print_temp_0 = train.settings_.get<Temperature>("material_print_temperature_layer_0");
        const Temperature print_temp_here = (print_temp_0 != 0) ? print_temp_0 : train.settings_.get<Temperature>("material_print_temperature");
        const Temperature temp = (extruder_nr == start_extruder_nr) ? print_temp_here : train.settings_.get<Temperature>("material_standby_temperature");
        self.setInitialTemp(extruder_nr, temp);
    }
    self.initial_bed_temp_ = scene.current_mesh_group->settings.get<Temperature>("material_bed_temperature_layer_0");
    self.machine_heated_build_volume_ = scene.current_mesh_group->settings.get<bool>("machine_heated_build_volume");
    self.build_volume_temperature_ = self.machine_heated_build_volume_ ? scene.current_mesh_group->settings.get<Temperature>("build_volume_temperature") : Temperature(0);
}

//= cura::GCodeExport::setInitialTemp
void r15(cura::GCodeExport& self, int extruder_nr, double temp)
{
    self.extruder_attr_[extruder_nr].initial_temp_ = temp;
    if (self.flavor_ == EGCodeFlavor::GRIFFIN || self.flavor_ == EGCodeFlavor::CHEETAH || self.flavor_ == EGCodeFlavor::ULTIGCODE)
    {
        self.extruder_attr_[extruder_nr].current_temperature_ = temp;
    }
}

//= cura::GCodeExport::flavorToString
std::string r16(const EGCodeFlavor& flavor)
{
    switch (flavor)
    {
    case EGCodeFlavor::BFB:
        return "BFB";
    case EGCodeFlavor::MACH3:
        return "Mach3";
    case EGCodeFlavor::MAKERBOT:
        return "Makerbot";
    case EGCodeFlavor::ULTIGCODE:
        return "UltiGCode";
    case EGCodeFlavor::MARLIN_VOLUMATRIC:
        return "Marlin(Volumetric)";
    case EGCodeFlavor::GRIFFIN:
        return "Griffin";
    case EGCodeFlavor::CHEETAH:
        return "Cheetah";
    case EGCodeFlavor::REPETIER:
        return "Repetier";
    case EGCodeFlavor::REPRAP:
        return "RepRap";
    case EGCodeFlavor::MARLIN:
    default:
        return "Marlin";
    }
}

//= cura::GCodeExport::setLayerNr
void r18(cura::GCodeExport& self, const LayerIndex& layer_nr)
{
    self.layer_nr_ = layer_nr;
    self.prepareNewFixedGCodePart(); 
}

//= cura::GCodeExport::getExtruderIsUsed
bool r19(const cura::GCodeExport& self, const int extruder_nr)
{
    return self.extruder_attr_[extruder_nr].is_used_;
}

//= cura::GCodeExport::getGcodePos
Point2LL r20(const cura::GCodeExport& self, const coord_t x, const coord_t y, const int extruder_train)
{
    return Point2LL(x, y) - self.getNozzleOffset(extruder_train);
}

//= cura::GCodeExport::getNozzleOffset
Point2LL r21(const cura::GCodeExport& self, const int extruder_train)
{
    return self.extruder_attr_[extruder_train].nozzle_offset_;
}

//= cura::GCodeExport::setFlavor
void r22(cura::GCodeExport& self, EGCodeFlavor flavor)
{
    self.flavor_ = flavor;
    if (flavor == EGCodeFlavor::MACH3)
    {
        for (int n = 0; n < MAX_EXTRUDERS; n++)
        {
            self.extruder_attr_[n].extruder_character_ = 'A' + n;
        }
    }
    else
    {
        for (int n = 0; n < MAX_EXTRUDERS; n++)
        {
            self.extruder_attr_[n].extruder_character_ = 'E';
        }
    }
    if (flavor == EGCodeFlavor::ULTIGCODE || flavor == EGCodeFlavor::MARLIN_VOLUMATRIC)
    {
        self.is_volumetric_ = true;
    }
    else
    {
        self.is_volumetric_ = false;
    }
}

//= cura::GCodeExport::getFlavor
EGCodeFlavor r23(const cura::GCodeExport& self)
{
    return self.flavor_;
}

//= cura::GCodeExport::setZ
void r24(cura::GCodeExport& self, int z)
{
    self.current_layer_z_ = z;
}

//= cura::GCodeExport::addExtraPrimeAmount
void r25(cura::GCodeExport& self, double extra_prime_volume)
{
    self.extruder_attr_[self.current_extruder_].prime_volume_ += extra_prime_volume;
}

//= cura::GCodeExport::setFlowRateExtrusionSettings
void r26(cura::GCodeExport& self, double max_extrusion_offset, double extrusion_offset_factor)
{
    self.max_extrusion_offset_ = max_extrusion_offset;
    self.extrusion_offset_factor_ = extrusion_offset_factor;
}

//= cura::GCodeExport::getPosition
const Point3LL& r27(const cura::GCodeExport& self)
{
    return self.current_position_;
}

//= cura::GCodeExport::getPositionXY
Point2LL r28(const cura::GCodeExport& self)
{
    return self.current_position_.toPoint2LL();
}

//= cura::GCodeExport::getPositionZ
coord_t r29(const cura::GCodeExport& self)
{
    return self.current_position_.z_;
}

//= cura::GCodeExport::getExtruderNr
size_t r30(const cura::GCodeExport& self)
{
    return self.current_extruder_;
}

//= cura::GCodeExport::setFilamentDiameter
void r31(cura::GCodeExport& self, const size_t extruder, const coord_t diameter)
{
    const double r = INT2MM(diameter) / 2.0;
    const double area = std::numbers::pi * r * r;
    self.extruder_attr_[extruder].filament_area_ = area;
}

//= cura::GCodeExport::getCurrentExtrudedVolume
double r32(const cura::GCodeExport& self)
{
    double extrusion_amount = self.current_e_value_;
    if (! self.extruder_attr_[self.current_extruder_].machine_firmware_retract_)
    { 
        extrusion_amount
            -= self.extruder_attr_[self.current_extruder_].retraction_e_amount_at_e_start_; 
        extrusion_amount
            += self.extruder_attr_[self.current_extruder_].retraction_e_amount_current_; 
    }
    if (self.is_volumetric_)
    {
        return extrusion_amount;
    }
    else
    {
        return extrusion_amount * self.extruder_attr_[self.current_extruder_].filament_area_;
    }
}

//= cura::GCodeExport::eToMm
double r33(cura::GCodeExport& self, double e)
{
    if (self.is_volumetric_)
    {
        return e / self.extruder_attr_[self.current_extruder_].filament_area_;
    }
    else
    {
        return e;
    }
}

//= cura::GCodeExport::setZHopPrimeLeftover
void r34(cura::GCodeExport& self, const ZHopAntiOozing& z_hop_prime_leftover)
{
    self.z_hop_prime_leftover_ = z_hop_prime_leftover;
}

//= cura::GCodeExport::machineHandlesRetraction
bool r35(const cura::GCodeExport& self)
{
    return self.extruder_attr_[0].machine_firmware_retract_ || self.flavor_ == EGCodeFlavor::BFB;
}

//= cura::GCodeExport::mm3ToE
double r36(const cura::GCodeExport& self, double mm3)
{
    if (self.is_volumetric_)
    {
        return mm3;
    }
    else
    {
        return mm3 / self.extruder_attr_[self.current_extruder_].filament_area_;
    }
}

//= cura::GCodeExport::mmToE
double r37(const cura::GCodeExport& self, double mm)
{
    if (self.is_volumetric_)
    {
        return mm * self.extruder_attr_[self.current_extruder_].filament_area_;
    }
    else
    {
        return mm;
    }
}

//= cura::GCodeExport::eToMm3
double r38(cura::GCodeExport& self, double e, size_t extruder)
{
    if (self.is_volumetric_)
    {
        return e;
    }
    else
    {
        return e * self.extruder_attr_[extruder].filament_area_;
    }
}

//= cura::GCodeExport::getTotalFilamentUsed
double r39(const cura::GCodeExport& self, size_t extruder_nr)
{
    if (extruder_nr == self.current_extruder_)
        return self.extruder_attr_[extruder_nr].total_filament_ + self.getCurrentExtrudedVolume();
    return self.extruder_attr_[extruder_nr].total_filament_;
}

//= cura::GCodeExport::getSumTotalPrintTimes
double r40(cura::GCodeExport& self)
{
    double sum = 0.0;
    for (double item : self.total_print_times_)
    {
        sum += item;
    }
    return sum;
}

//= cura::GCodeExport::resetTotalPrintTimeAndFilament
void r41(cura::GCodeExport& self)
{
    for (size_t i = 0; i < self.total_print_times_.size(); i++)
    {
        self.total_print_times_[i] = 0.0;
    }
    for (unsigned int e = 0; e < MAX_EXTRUDERS; e++)
    {
        self.extruder_attr_[e].total_filament_ = 0.0;
        self.extruder_attr_[e].current_temperature_ = 0;
        self.extruder_attr_[e].waited_for_temperature_ = false;
    }
    self.current_e_value_ = 0.0;
    self.estimate_calculator_.reset();
}

//= cura::GCodeExport::updateTotalPrintTime
void r42(cura::GCodeExport& self)
{
    std::vector<Duration> estimates = self.estimate_calculator_.calculate();
    for (size_t i = 0; i < estimates.size(); i++)
    {
        self.total_print_times_[i] += estimates[i];
    }
    self.estimate_calculator_.reset();
    self.writeTimeComment(self.getSumTotalPrintTimes());
}

//= cura::GCodeExport::writeTimeComment
void r44(cura::GCodeExport& self, const Duration time)
{
    *self.output_stream_ << ";TIME_ELAPSED:" << time << self.new_line_;
}

//= cura::GCodeExport::writeTypeComment
void r45(cura::GCodeExport& self, const PrintFeatureType& type)
{
    switch (type)
    {
    case PrintFeatureType::OuterWall:
        *self.output_stream_ << ";TYPE:WALL-OUTER" << self.new_line_;
        break;
    case PrintFeatureType::InnerWall:
        *self.output_stream_ << ";TYPE:WALL-INNER" << self.new_line_;
        break;
    case PrintFeatureType::Skin:
        *self.output_stream_ << ";TYPE:SKIN" << self.new_line_;
        break;
    case PrintFeatureType::Support:
        *self.output_stream_ << ";TYPE:SUPPORT" << self.new_line_;
        break;
    case PrintFeatureType::SkirtBrim:
        *self.output_stream_ << ";TYPE:SKIRT" << self.new_line_;
        break;
    case PrintFeatureType::Infill:
        *self.output_stream_ << ";TYPE:FILL" << self.new_line_;
        break;
    case PrintFeatureType::SupportInfill:
        *self.output_stream_ << ";TYPE:SUPPORT" << self.new_line_;
        break;
    case PrintFeatureType::SupportInterface:
        *self.output_stream_ << ";TYPE:SUPPORT-INTERFACE" << self.new_line_;
        break;
    case PrintFeatureType::PrimeTower:
        *self.output_stream_ << ";TYPE:PRIME-TOWER" << self.new_line_;
        break;
    case PrintFeatureType::MoveUnretracted:
    case PrintFeatureType::MoveRetracted:
    case PrintFeatureType::MoveWhileRetracting:
    case PrintFeatureType::MoveWhileUnretracting:
    case PrintFeatureType::StationaryRetractUnretract:
    case PrintFeatureType::NoneType:
    case PrintFeatureType::NumPrintFeatureTypes:
        break;
    }
}

//= cura::GCodeExport::writeLayerComment
void r46(cura::GCodeExport& self, const LayerIndex layer_nr)
{
    *self.output_stream_ << ";LAYER:" << layer_nr << self.new_line_;
}

//= cura::GCodeExport::writeLayerCountComment
void r47(cura::GCodeExport& self, const size_t layer_count)
{
    *self.output_stream_ << ";LAYER_COUNT:" << layer_count << self.new_line_;
}

//= cura::GCodeExport::writeLine
void r48(cura::GCodeExport& self, const std::string& line)
{
    *self.output_stream_ << line << self.new_line_;
}

//= cura::GCodeExport::writeRaw
void r49(cura::GCodeExport& self, const std::string& gcode)
{
    *self.output_stream_ << gcode;
}

//= cura::GCodeExport::resetExtrusionMode
void r50(cura::GCodeExport& self)
{
    const bool set_relative_extrusion_mode = self.getFlavor() == EGCodeFlavor::REPRAP;
    self.writeExtrusionMode(set_relative_extrusion_mode);
}

//= cura::GCodeExport::writeExtrusionMode
void r51(cura::GCodeExport& self, bool set_relative_extrusion_mode)
{
    if (set_relative_extrusion_mode)
    {
        *self.output_stream_ << "M83 ;relative extrusion mode" << self.new_line_;
    }
    else
    {
        *self.output_stream_ << "M82 ;absolute extrusion mode" << self.new_line_;
    }
}

//= cura::GCodeExport::resetExtrusionValue
void r52(cura::GCodeExport& self)
{
    if (! self.relative_extrusion_)
    {
        *self.output_stream_ << "G92 " << self.extruder_attr_[self.current_extruder_].extruder_character_ << "0" << self.new_line_;
    }
    double current_extruded_volume = self.getCurrentExtrudedVolume();
    self.extruder_attr_[self.current_extruder_].total_filament_ += current_extruded_volume;
    for (double& extruded_volume_at_retraction : self.extruder_attr_[self.current_extruder_].extruded_volume_at_previous_n_retractions_)
    { 
        extruded_volume_at_retraction -= current_extruded_volume;
    }
    self.current_e_value_ = 0.0;
    self.extruder_attr_[self.current_extruder_].retraction_e_amount_at_e_start_ = self.extruder_attr_[self.current_extruder_].retraction_e_amount_current_;
}

//= cura::GCodeExport::initializeExtruderTrains
bool r53(cura::GCodeExport& self, const SliceDataStorage& storage, const size_t start_extruder_nr)
{
    bool should_prime_extruder = true;
    const Settings& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    self.writeComment("Generated with Cura_SteamEngine " CURA_ENGINE_VERSION);
    const auto machine_start_gcode = mesh_group_settings.get<std::string>("machine_start_gcode");
    if (mesh_group_settings.get<bool>("machine_start_gcode_first"))
    {
        self.writeResolvableGCode(machine_start_gcode, DynamicExtruderContext::Initial);
    }
    if (self.getFlavor() == EGCodeFlavor::GRIFFIN || self.getFlavor() == EGCodeFlavor::CHEETAH)
    {
        std::ostringstream tmp;
        tmp << "T" << start_extruder_nr;
        self.writeLine(tmp.str());
    }
    else
    {
        self.processInitialLayerTemperature(storage, start_extruder_nr);
    }
    if (! mesh_group_settings.get<bool>("machine_start_gcode_first"))
    {
        self.writeResolvableGCode(machine_start_gcode, DynamicExtruderContext::Initial);
    }
    self.writeExtrusionMode(false); 
    if (Application::getInstance().current_slice_->scene.settings.get<bool>("machine_extruders_share_nozzle"))
    {
        for (const ExtruderTrain& train : Application::getInstance().current_slice_->scene.extruders)
        {
            self.resetExtruderToPrimed(train.extruder_nr_, train.settings_.get<double>("machine_extruders_shared_nozzle_initial_retraction"));
        }
    }
    if (mesh_group_settings.get<bool>("machine_heated_build_volume"))
    {
        self.writeBuildVolumeTemperatureCommand(mesh_group_settings.get<Temperature>("build_volume_temperature"));
    }
    Application::getInstance().communication_->sendCurrentPosition(self.getPositionXY());
    self.startExtruder(start_extruder_nr);
    if (self.getFlavor() == EGCodeFlavor::BFB)
    {
        self.writeComment("enable auto-retraction");
        std::ostringstream tmp;
        tmp << "M227 S" << (mesh_group_settings.get<coord_t>("retraction_amount") * 2560 / 1000) << " P" << (mesh_group_settings.get<coord_t>("retraction_amount") * 2560 / 1000);
        self.writeLine(tmp.str());
    }
    else if (self.getFlavor() == EGCodeFlavor::GRIFFIN || self.getFlavor() == EGCodeFlavor::CHEETAH)
    { 
        ExtruderTrain& train = Application::getInstance().current_slice_->scene.extruders[start_extruder_nr];
        self.processInitialLayerTemperature(storage, start_extruder_nr);
        self.writePrimeTrain(train.settings_.get<Velocity>("speed_travel"));
        should_prime_extruder = false;
        const RetractionConfig& retraction_config = storage.retraction_wipe_config_per_extruder[start_extruder_nr].retraction_config;
        self.writeRetraction(retraction_config);
    }
    if (mesh_group_settings.get<bool>("relative_extrusion"))
    {
        self.writeExtrusionMode(true);
    }
    if (self.getFlavor() != EGCodeFlavor::GRIFFIN && self.getFlavor() != EGCodeFlavor::CHEETAH)
    {
        if (mesh_group_settings.get<bool>("retraction_enable"))
        {
            self.resetExtrusionValue();
            self.writeRetraction(storage.retraction_wipe_config_per_extruder[start_extruder_nr].retraction_config);
        }
    }
    return should_prime_extruder;
}

//= cura::GCodeExport::processInitialLayerBedTemperature
void r54(cura::GCodeExport& self)
{
    const Scene& scene = Application::getInstance().current_slice_->scene;
    const bool heated = scene.current_mesh_group->settings.get<bool>("machine_heated_bed");
    const Temperature bed_temp = scene.current_mesh_group->settings.get<Temperature>("material_bed_temperature_layer_0");
    if (heated && bed_temp != 0)
    {
        self.writeBedTemperatureCommand(bed_temp, scene.current_mesh_group->settings.get<bool>("material_bed_temp_wait"));
    }
}

//= cura::GCodeExport::processInitialLayerExtrudersTemperatures
void r55(cura::GCodeExport& self, const SliceDataStorage& storage, const bool wait_start_extruder, const size_t start_extruder_nr)
{
    Scene& scene = Application::getInstance().current_slice_->scene;
    const bool material_print_temp_prepend = scene.current_mesh_group->settings.get<bool>("material_print_temp_prepend");
    const bool material_print_temp_wait = scene.current_mesh_group->settings.get<bool>("material_print_temp_wait");
    if (! material_print_temp_prepend && (scene.current_mesh_group == scene.mesh_groups.begin()))
    {
        return;
    }
    struct ExtruderInitialize
    {
        size_t nr;
        Temperature temperature;
    };
    std::vector<ExtruderInitialize> all_extruders;
    std::vector<bool> extruders_used = storage.getExtrudersUsed();
    for (size_t extruder_nr = 0; extruder_nr < extruders_used.size(); ++extruder_nr)
    {
        if (extruders_used[extruder_nr])
        {
            const ExtruderTrain& train = scene.extruders[extruder_nr];
            Temperature extruder_temp;
            if (extruder_nr == start_extruder_nr)
            {
                const Temperature print_temp_0 = train.settings_.get<Temperature>("material_print_temperature_layer_0");
                extruder_temp = (print_temp_0 != 0) ? print_temp_0 : train.settings_.get<Temperature>("material_print_temperature");
            }
            else
            {
                extruder_temp = train.settings_.get<Temperature>("material_standby_temperature");
            }
            all_extruders.push_back({ extruder_nr, extruder_temp });
        }
    }
    for (ExtruderInitialize& extruder : all_extruders)
    {
        self.writeTemperatureCommand(extruder.nr, extruder.temperature, false, true);
    }
    for (ExtruderInitialize& extruder : all_extruders)
    {
        if (material_print_temp_wait || ((extruder.nr == start_extruder_nr) && wait_start_extruder))
        {
            self.writeTemperatureCommand(extruder.nr, extruder.temperature, true, true);
        }
    }
}

//= cura::GCodeExport::writeRawRetract
namespace n56
{
using ExtruderTrainAttributes = cura::GCodeExport::ExtruderTrainAttributes;
using RetractionAmounts = cura::GCodeExport::RetractionAmounts;
void r56(cura::GCodeExport& self, const RetractionAmounts& retraction_amounts)
{
    ExtruderTrainAttributes& extr_attr = self.extruder_attr_[self.current_extruder_];
    self.current_e_value_ += retraction_amounts.diff_e;
    const double output_e = (self.relative_extrusion_) ? retraction_amounts.diff_e : self.current_e_value_;
    *self.output_stream_ << " " << extr_attr.extruder_character_ << PrecisionedDouble{ 5, output_e };
    extr_attr.retraction_e_amount_current_ = retraction_amounts.new_e;
}
} // namespace n56

//= cura::GCodeExport::computeRetractionAmounts
namespace n57
{
using ExtruderTrainAttributes = cura::GCodeExport::ExtruderTrainAttributes;
using RetractionAmounts = cura::GCodeExport::RetractionAmounts;
GCodeExport::RetractionAmounts r57(const cura::GCodeExport& self, const ExtruderTrainAttributes& extruder_attributes, const double distance)
{
    RetractionAmounts amounts;
    amounts.old_e = extruder_attributes.retraction_e_amount_current_;
    amounts.new_e = self.mmToE(distance);
    amounts.diff_e = amounts.old_e - amounts.new_e;
    return amounts;
}
} // namespace n57

//= cura::GCodeExport::processInitialLayerTemperature
void r58(cura::GCodeExport& self, const SliceDataStorage& storage, const size_t start_extruder_nr)
{
    Scene& scene = Application::getInstance().current_slice_->scene;
    bool wait_start_extruder = false;
    std::vector<bool> extruders_used = storage.getExtrudersUsed();
    size_t used_extruders = std::count(extruders_used.begin(), extruders_used.end(), true);
    switch (self.getFlavor())
    {
    case EGCodeFlavor::ULTIGCODE:
        return;
    case EGCodeFlavor::GRIFFIN:
    case EGCodeFlavor::CHEETAH:
        wait_start_extruder = true;
        break;
    default:
        if (used_extruders > 1 || self.getFlavor() == EGCodeFlavor::REPRAP || ! extruders_used[0])
        {
            std::ostringstream tmp;
            tmp << "T" << start_extruder_nr;
            self.writeLine(tmp.str());
        }
        break;
    }
    if (scene.settings.get<size_t>("build_volume_fan_nr") != 0)
    {
        const auto fan_speed = scene.settings.get<Ratio>("build_volume_fan_speed_0") * 100.0;
        self.writeSpecificFanCommand(fan_speed, scene.settings.get<size_t>("build_volume_fan_nr"));
    }
    self.processInitialLayerBedTemperature();
    self.processInitialLayerExtrudersTemperatures(storage, wait_start_extruder, start_extruder_nr);
}

//= cura::GCodeExport::needPrimeBlob
bool r59(const cura::GCodeExport& self)
{
    switch (self.getFlavor())
    {
    case EGCodeFlavor::GRIFFIN:
    case EGCodeFlavor::CHEETAH:
        return true;
    default:
        return false;
    }
}

//= cura::GCodeExport::writeDelay
void r60(cura::GCodeExport& self, const Duration& time_amount)
{
    *self.output_stream_ << "G4 P" << int(time_amount * 1000) << self.new_line_;
    self.estimate_calculator_.addTime(time_amount);
}

//= cura::GCodeExport::writeTravel
void r61(cura::GCodeExport& self, const Point2LL& p, const Velocity& speed)
{
    self.writeTravel(Point3LL(p.X, p.Y, self.current_layer_z_), speed);
}

//= cura::GCodeExport::writeExtrusion
void r62(cura::GCodeExport& self, const Point2LL& p, const Velocity& speed, double extrusion_mm3_per_mm, PrintFeatureType feature, bool update_extrusion_offset)
{
    self.writeExtrusion(Point3LL(p.X, p.Y, self.current_layer_z_), speed, extrusion_mm3_per_mm, feature, update_extrusion_offset);
}

//= cura::GCodeExport::writeTravel
void r63(cura::GCodeExport& self, const Point3LL& p, const Velocity& speed, const std::optional<double> retract_distance)
{
    if (self.flavor_ == EGCodeFlavor::BFB)
    {
        self.writeMoveBFB(p.x_, p.y_, p.z_ + self.is_z_hopped_, speed, 0.0, PrintFeatureType::MoveUnretracted);
        return;
    }
    self.writeTravel(p.x_, p.y_, p.z_ + self.is_z_hopped_, speed, retract_distance);
}

//= cura::GCodeExport::writeExtrusion
void r64(cura::GCodeExport& self, const Point3LL& p, const Velocity& speed, double extrusion_mm3_per_mm, PrintFeatureType feature, bool update_extrusion_offset)
{
    if (self.flavor_ == EGCodeFlavor::BFB)
    {
        self.writeMoveBFB(p.x_, p.y_, p.z_, speed, extrusion_mm3_per_mm, feature);
        return;
    }
    self.writeExtrusion(p.x_, p.y_, p.z_, speed, extrusion_mm3_per_mm, feature, update_extrusion_offset);
}

//= cura::GCodeExport::writeMoveBFB
void r65(cura::GCodeExport& self, const int x, const int y, const int z, const Velocity& speed, double extrusion_mm3_per_mm, PrintFeatureType feature)
{
    if (std::isinf(extrusion_mm3_per_mm))
    {
        std::exit(1);
    }
    if (std::isnan(extrusion_mm3_per_mm))
    {
        std::exit(1);
    }
    double extrusion_per_mm = self.mm3ToE(extrusion_mm3_per_mm);
    Point2LL gcode_pos = self.getGcodePos(x, y, self.current_extruder_);
    double fspeed = speed * 60;
    double rpm = extrusion_per_mm * speed * 60;
    const double mm_per_rpm = 4.0; 
    rpm /= mm_per_rpm;
    if (rpm > 0)
    {
        if (self.extruder_attr_[self.current_extruder_].retraction_e_amount_current_)
        {
            if (self.current_speed_ != double(rpm))
            {
                *self.output_stream_ << "M108 S" << PrecisionedDouble{ 1, rpm } << self.new_line_;
                self.current_speed_ = double(rpm);
            }
            *self.output_stream_ << "M" << int((self.current_extruder_ + 1) * 100 + 1) << self.new_line_;
            self.extruder_attr_[self.current_extruder_].retraction_e_amount_current_ = 0.0;
        }
        fspeed *= (rpm / (roundf(rpm * 100) / 100));
        Point3LL diff = Point3LL(x, y, z) - self.getPosition();
        self.current_e_value_ += extrusion_per_mm * diff.vSizeMM();
    }
    else
    {
        if (! self.extruder_attr_[self.current_extruder_].retraction_e_amount_current_)
        {
            *self.output_stream_ << "M103" << self.new_line_;
            self.extruder_attr_[self.current_extruder_].retraction_e_amount_current_
                = 1.0; 
        }
    }
    *self.output_stream_ << "G1 X" << MMtoStream{ gcode_pos.X } << " Y" << MMtoStream{ gcode_pos.Y } << " Z" << MMtoStream{ z };
    *self.output_stream_ << " F" << PrecisionedDouble{ 1, fspeed } << self.new_line_;
    self.current_position_ = Point3LL(x, y, z);
    self.estimate_calculator_.plan(
        TimeEstimateCalculator::Position(INT2MM(self.current_position_.x_), INT2MM(self.current_position_.y_), INT2MM(self.current_position_.z_), self.eToMm(self.current_e_value_)),
        speed,
        feature);
}

//= cura::GCodeExport::writeTravel
namespace n66
{
using ExtruderTrainAttributes = cura::GCodeExport::ExtruderTrainAttributes;
using RetractionAmounts = cura::GCodeExport::RetractionAmounts;
void r66(cura::GCodeExport& self, const coord_t x, const coord_t y, const coord_t z, const Velocity& speed, const std::optional<double> retract_distance)
{
    const ExtruderTrainAttributes& extruder_attr = self.extruder_attr_[self.current_extruder_];
    std::optional<RetractionAmounts> retraction_amounts
        = retract_distance.has_value() ? std::optional{ self.computeRetractionAmounts(extruder_attr, retract_distance.value()) } : std::nullopt;
    if (self.current_position_.x_ == x && self.current_position_.y_ == y && self.current_position_.z_ == z && (! retraction_amounts.has_value() || ! retraction_amounts.value().has_retraction()))
    {
        return;
    }
#ifdef ASSERT_INSANE_OUTPUT  
#endif 
    const PrintFeatureType travel_move_type = self.sendTravel(Point3LL(x, y, z), speed, extruder_attr, retraction_amounts);
    *self.output_stream_ << "G0";
    self.writeFXYZE(speed, x, y, z, self.current_e_value_, travel_move_type, retraction_amounts);
}
} // namespace n66

//= cura::GCodeExport::writeExtrusion
void r67(cura::GCodeExport& self, const coord_t x, const coord_t y, const coord_t z, const Velocity& speed, const double extrusion_mm3_per_mm, const PrintFeatureType& feature, const bool update_extrusion_offset)
{
    if (self.current_position_.x_ == x && self.current_position_.y_ == y && self.current_position_.z_ == z)
    {
        return;
    }
#ifdef ASSERT_INSANE_OUTPUT  
#endif 
#ifdef DEBUG
    if (std::isinf(extrusion_mm3_per_mm))
    {
        std::exit(1);
    }
    if (std::isnan(extrusion_mm3_per_mm))
    {
        std::exit(1);
    }
    if (extrusion_mm3_per_mm < 0.0)
    {
    }
#endif
    const double extrusion_per_mm = self.mm3ToE(extrusion_mm3_per_mm);
    if (self.is_z_hopped_ > 0)
    {
        self.writeZhopEnd();
    }
    const Point3LL diff = Point3LL(x, y, z) - self.current_position_;
    const double diff_length = diff.vSizeMM();
    self.writeUnretractionAndPrime();
    double extrusion_offset = 0;
    if (diff_length)
    {
        extrusion_offset = speed * extrusion_mm3_per_mm * self.extrusion_offset_factor_;
        if (extrusion_offset > self.max_extrusion_offset_)
        {
            extrusion_offset = self.max_extrusion_offset_;
        }
    }
    if (update_extrusion_offset && (extrusion_offset != self.current_e_offset_))
    {
        self.current_e_offset_ = extrusion_offset;
        *self.output_stream_ << ";FLOW_RATE_COMPENSATED_OFFSET = " << self.current_e_offset_ << self.new_line_;
    }
    self.extruder_attr_[self.current_extruder_].last_e_value_after_wipe_ += extrusion_per_mm * diff_length;
    const double new_e_value = self.current_e_value_ + extrusion_per_mm * diff_length;
    *self.output_stream_ << "G1";
    self.writeFXYZE(speed, x, y, z, new_e_value, feature);
}

//= cura::GCodeExport::writeUnretractionAndPrime
void r69(cura::GCodeExport& self)
{
    const double prime_volume = self.extruder_attr_[self.current_extruder_].prime_volume_;
    const double prime_volume_e = self.mm3ToE(prime_volume);
    self.current_e_value_ += prime_volume_e;
    if (self.extruder_attr_[self.current_extruder_].retraction_e_amount_current_)
    {
        if (self.extruder_attr_[self.current_extruder_].machine_firmware_retract_)
        { 
            *self.output_stream_ << "G11" << self.new_line_;
            if (prime_volume != 0)
            {
                const double output_e = (self.relative_extrusion_) ? prime_volume_e : self.current_e_value_;
                *self.output_stream_ << "G1 F" << PrecisionedDouble{ 1, self.extruder_attr_[self.current_extruder_].last_retraction_prime_speed_ * 60 } << " "
                                << self.extruder_attr_[self.current_extruder_].extruder_character_ << PrecisionedDouble{ 5, output_e } << self.new_line_;
                self.current_speed_ = self.extruder_attr_[self.current_extruder_].last_retraction_prime_speed_;
            }
            self.estimate_calculator_.plan(
                TimeEstimateCalculator::Position(INT2MM(self.current_position_.x_), INT2MM(self.current_position_.y_), INT2MM(self.current_position_.z_), self.eToMm(self.current_e_value_)),
                25.0,
                PrintFeatureType::StationaryRetractUnretract);
        }
        else
        {
            self.current_e_value_ += self.extruder_attr_[self.current_extruder_].retraction_e_amount_current_;
            const double output_e = (self.relative_extrusion_) ? self.extruder_attr_[self.current_extruder_].retraction_e_amount_current_ + prime_volume_e : self.current_e_value_;
            *self.output_stream_ << "G1 F" << PrecisionedDouble{ 1, self.extruder_attr_[self.current_extruder_].last_retraction_prime_speed_ * 60 } << " "
                            << self.extruder_attr_[self.current_extruder_].extruder_character_ << PrecisionedDouble{ 5, output_e } << self.new_line_;
            self.current_speed_ = self.extruder_attr_[self.current_extruder_].last_retraction_prime_speed_;
            self.estimate_calculator_.plan(
                TimeEstimateCalculator::Position(INT2MM(self.current_position_.x_), INT2MM(self.current_position_.y_), INT2MM(self.current_position_.z_), self.eToMm(self.current_e_value_)),
                self.current_speed_,
                PrintFeatureType::StationaryRetractUnretract);
        }
    }
    else if (prime_volume != 0.0)
    {
        const double output_e = (self.relative_extrusion_) ? prime_volume_e : self.current_e_value_;
        *self.output_stream_ << "G1 F" << PrecisionedDouble{ 1, self.extruder_attr_[self.current_extruder_].last_retraction_prime_speed_ * 60 } << " "
                        << self.extruder_attr_[self.current_extruder_].extruder_character_;
        *self.output_stream_ << PrecisionedDouble{ 5, output_e } << self.new_line_;
        self.current_speed_ = self.extruder_attr_[self.current_extruder_].last_retraction_prime_speed_;
        self.estimate_calculator_.plan(
            TimeEstimateCalculator::Position(INT2MM(self.current_position_.x_), INT2MM(self.current_position_.y_), INT2MM(self.current_position_.z_), self.eToMm(self.current_e_value_)),
            self.current_speed_,
            PrintFeatureType::StationaryRetractUnretract);
    }
    self.extruder_attr_[self.current_extruder_].prime_volume_ = 0.0;
    if (self.getCurrentExtrudedVolume() > 10000.0 && self.flavor_ != EGCodeFlavor::BFB
        && self.flavor_ != EGCodeFlavor::MAKERBOT) 
    {
        self.resetExtrusionValue();
    }
    if (self.extruder_attr_[self.current_extruder_].retraction_e_amount_current_)
    {
        self.extruder_attr_[self.current_extruder_].retraction_e_amount_current_ = 0.0;
    }
}

//= cura::GCodeExport::writeRetraction
namespace n70
{
using ExtruderTrainAttributes = cura::GCodeExport::ExtruderTrainAttributes;
using RetractionAmounts = cura::GCodeExport::RetractionAmounts;
bool r70(cura::GCodeExport& self, const RetractionConfig& config, bool force, bool extruder_switch, const std::optional<double> retract_distance)
{
    ExtruderTrainAttributes& extr_attr = self.extruder_attr_[self.current_extruder_];
    if (self.flavor_ == EGCodeFlavor::BFB) 
    {
        if (extruder_switch)
        {
            if (! extr_attr.retraction_e_amount_current_)
            {
                *self.output_stream_ << "M103" << self.new_line_;
            }
            extr_attr.retraction_e_amount_current_ = 1.0; 
        }
        return true;
    }
    { 
        double current_extruded_volume = self.getCurrentExtrudedVolume();
        std::deque<double>& extruded_volume_at_previous_n_retractions = extr_attr.extruded_volume_at_previous_n_retractions_;
        while (extruded_volume_at_previous_n_retractions.size() > config.retraction_count_max && ! extruded_volume_at_previous_n_retractions.empty())
        {
            extruded_volume_at_previous_n_retractions.pop_back();
        }
        if (! force && config.retraction_count_max <= 0)
        {
            return false;
        }
        if (! force && extruded_volume_at_previous_n_retractions.size() == config.retraction_count_max
            && current_extruded_volume < extruded_volume_at_previous_n_retractions.back() + config.retraction_extrusion_window * extr_attr.filament_area_)
        {
            return false;
        }
        extruded_volume_at_previous_n_retractions.push_front(current_extruded_volume);
        if (extruded_volume_at_previous_n_retractions.size() == config.retraction_count_max + 1)
        {
            extruded_volume_at_previous_n_retractions.pop_back();
        }
    }
    RetractionAmounts retraction_amounts = self.computeRetractionAmounts(extr_attr, retract_distance.value_or(config.distance));
    if (! retraction_amounts.has_retraction())
    {
        return true;
    }
    if (extr_attr.machine_firmware_retract_)
    {
        if (extruder_switch && extr_attr.retraction_e_amount_current_)
        {
            return true;
        }
        *self.output_stream_ << "G10";
        if (extruder_switch && self.flavor_ == EGCodeFlavor::REPETIER)
        {
            *self.output_stream_ << " S1";
        }
        *self.output_stream_ << self.new_line_;
        self.estimate_calculator_.plan(
            TimeEstimateCalculator::Position(
                INT2MM(self.current_position_.x_),
                INT2MM(self.current_position_.y_),
                INT2MM(self.current_position_.z_),
                self.eToMm(self.current_e_value_ + retraction_amounts.diff_e)),
            25.0,
            PrintFeatureType::StationaryRetractUnretract); 
        extr_attr.retraction_e_amount_current_ = retraction_amounts.new_e; 
    }
    else
    {
        const double speed = ((retraction_amounts.diff_e < 0.0) ? config.speed : extr_attr.last_retraction_prime_speed_);
        *self.output_stream_ << "G1 F" << PrecisionedDouble{ 1, speed * 60 };
        self.writeRawRetract(retraction_amounts);
        *self.output_stream_ << self.new_line_;
        self.current_speed_ = speed;
        self.estimate_calculator_.plan(
            TimeEstimateCalculator::Position(INT2MM(self.current_position_.x_), INT2MM(self.current_position_.y_), INT2MM(self.current_position_.z_), self.eToMm(self.current_e_value_)),
            self.current_speed_,
            PrintFeatureType::StationaryRetractUnretract);
        extr_attr.last_retraction_prime_speed_ = config.primeSpeed;
    }
    extr_attr.prime_volume_ += config.prime_volume;
    return true;
}
} // namespace n70

//= cura::GCodeExport::writeZhopStart
void r71(cura::GCodeExport& self, const coord_t hop_height, Velocity speed , const std::optional<double> retract_distance, const Ratio& retract_ratio)
{
    if (retract_distance.has_value() && retract_ratio > 0.0 && retract_ratio < 1.0)
    {
        self.writeZhopStart(hop_height * retract_ratio, speed, retract_distance, 0.0);
        self.writeZhopStart(hop_height, speed, retract_distance, 0.0);
        return;
    }
    if (hop_height > 0)
    {
        self.writeZhop(speed, hop_height, retract_distance);
    }
}

//= cura::GCodeExport::writeZhopEnd
void r72(cura::GCodeExport& self, Velocity speed , const coord_t height, const std::optional<double> prime_distance, const Ratio& prime_ratio)
{
    if (self.z_hop_prime_leftover_.has_value())
    {
        const ZHopAntiOozing z_hop_prime_leftover = self.z_hop_prime_leftover_.value();
        self.z_hop_prime_leftover_.reset();
        self.writeZhopEnd(speed, height, z_hop_prime_leftover.amount, z_hop_prime_leftover.ratio);
    }
    if (self.is_z_hopped_)
    {
        if (prime_distance.has_value() && prime_ratio > 0.0 && prime_ratio < 1.0)
        {
            self.writeZhopEnd(speed, self.is_z_hopped_ * prime_ratio, self.extruder_attr_[self.current_extruder_].retraction_e_amount_current_, 0.0);
            self.writeZhopEnd(speed, 0, prime_distance, 0.0);
            return;
        }
        self.writeZhop(speed, height, prime_distance);
        self.current_position_.z_ = self.current_layer_z_;
    }
}

//= cura::GCodeExport::writeZhop
namespace n73
{
using ExtruderTrainAttributes = cura::GCodeExport::ExtruderTrainAttributes;
using RetractionAmounts = cura::GCodeExport::RetractionAmounts;
void r73(cura::GCodeExport& self, Velocity speed , const coord_t height, const std::optional<double> retract_distance)
{
    if (speed == 0)
    {
        const ExtruderTrain& extruder = Application::getInstance().current_slice_->scene.extruders[self.current_extruder_];
        speed = extruder.settings_.get<Velocity>("speed_z_hop");
    }
    const ExtruderTrainAttributes extruder_attr = self.extruder_attr_[self.current_extruder_];
    RetractionAmounts retraction_amounts;
    if (retract_distance.has_value())
    {
        retraction_amounts = self.computeRetractionAmounts(extruder_attr, *retract_distance);
    }
    self.is_z_hopped_ = height;
    const coord_t target_z = self.current_layer_z_ + self.is_z_hopped_;
    const PrintFeatureType travel_move_type = self.sendTravel(Point3LL(self.current_position_.x_, self.current_position_.y_, target_z), speed, extruder_attr, retraction_amounts);
    *self.output_stream_ << "G1";
    self.writeFXYZE(speed, self.current_position_.x_, self.current_position_.y_, target_z, self.current_e_value_, travel_move_type, retraction_amounts);
    self.total_bounding_box_.includeZ(target_z);
}
} // namespace n73

//= cura::GCodeExport::sendFinalGCode
void r75(cura::GCodeExport& self)
{
    std::shared_ptr<Communication> communication = Application::getInstance().communication_;
    run_multiple_producers_ordered_consumer(
        0,
        self.gcode_parts_.size(),
        [&self](int gcode_part_index)
        {
            return std::make_optional(self.gcode_parts_.at(gcode_part_index)->str());
        },
        [&communication](const std::optional<std::string>& gcode_part_str)
        {
            if (! gcode_part_str->empty())
            {
                communication->sendGCodePart(*gcode_part_str);
            }
        });
}

//= cura::GCodeExport::calculateMaterialPrintInformation
std::vector<std::optional<ExtruderPrintInformation>> r76(const cura::GCodeExport& self)
{
    std::vector<std::optional<ExtruderPrintInformation>> extruders_info;
    const std::vector<ExtruderTrain>& extruders = Application::getInstance().current_slice_->scene.extruders;
    const size_t used_extruders = extruders.size();
    extruders_info.resize(used_extruders);
    for (size_t extruder_nr = 0; extruder_nr < used_extruders; ++extruder_nr)
    {
        if (! self.getExtruderIsUsed(extruder_nr))
        {
            continue;
        }
        ExtruderPrintInformation extruder_info;
        const Settings& extruder_settings = extruders[extruder_nr].settings_;
        const double material_radius = extruder_settings.get<double>("material_diameter") / 2;
        const double material_density = extruder_settings.get<double>("material_density");
        const double material_spool_weight = extruder_settings.get<double>("material_spool_weight");
        const double material_spool_cost = extruder_settings.get<double>("material_spool_cost");
        extruder_info.material_name = extruder_settings.get<std::string>("material_name");
        extruder_info.material_guid = extruder_settings.get<std::string>("material_guid");
        extruder_info.filament_amount = self.getTotalFilamentUsed(extruder_nr);
        extruder_info.filament_length = (extruder_info.filament_amount / (std::numbers::pi * square(material_radius))) / 1000;
        extruder_info.filament_weight = extruder_info.filament_amount * material_density / 1000.0;
        extruder_info.filament_cost = 0.0;
        if (material_spool_weight > 0.0 && material_spool_cost > 0.0)
        {
            const double filament_cost_per_weight = material_spool_cost / material_spool_weight;
            extruder_info.filament_cost = extruder_info.filament_weight * filament_cost_per_weight;
        }
        extruders_info[extruder_nr] = extruder_info;
    }
    return extruders_info;
}

//= cura::GCodeExport::writeCode
void r79(cura::GCodeExport& self, const std::string& str)
{
    *self.output_stream_ << str;
    if (! str.ends_with('\n'))
    {
        *self.output_stream_ << self.new_line_;
    }
}

//= cura::GCodeExport::writeCodeWithAbsoluteExtrusion
void r80(cura::GCodeExport& self, const std::string& str, const ResolvingExtruderContext& extruder_nr, const std::unordered_map<std::string, CuraFormulaeEngine::eval::Value>& extra_settings)
{
    if (self.relative_extrusion_)
    {
        self.writeExtrusionMode(false); 
    }
    self.writeResolvableGCode(str, extruder_nr, extra_settings);
    if (self.relative_extrusion_)
    {
        self.writeExtrusionMode(true); 
    }
}

//= cura::GCodeExport::resetExtruderToPrimed
void r81(cura::GCodeExport& self, const size_t extruder, const double initial_retraction)
{
    self.extruder_attr_[extruder].is_primed_ = true;
    self.extruder_attr_[extruder].retraction_e_amount_current_ = initial_retraction;
}

//= cura::GCodeExport::writePrimeTrain
void r82(cura::GCodeExport& self, const Velocity& travel_speed)
{
    if (self.extruder_attr_[self.current_extruder_].is_primed_)
    { 
        return;
    }
    const Settings& extruder_settings = Application::getInstance().current_slice_->scene.extruders[self.current_extruder_].settings_;
    if (extruder_settings.get<bool>("prime_blob_enable"))
    { 
        Point3LL prime_pos(
            extruder_settings.get<coord_t>("extruder_prime_pos_x"),
            extruder_settings.get<coord_t>("extruder_prime_pos_y"),
            extruder_settings.get<coord_t>("extruder_prime_pos_z"));
        if (! extruder_settings.get<bool>("extruder_prime_pos_abs"))
        {
            prime_pos += Point3LL(self.current_position_.x_, self.current_position_.y_, self.current_layer_z_);
        }
        self.writeTravel(prime_pos, travel_speed);
    }
    if (self.flavor_ == EGCodeFlavor::GRIFFIN || self.flavor_ == EGCodeFlavor::CHEETAH)
    {
        bool should_correct_z = false;
        std::string command = "G280";
        if (! extruder_settings.get<bool>("prime_blob_enable"))
        {
            command += " S1"; 
            should_correct_z = true;
        }
        *self.output_stream_ << command << self.new_line_;
        if (should_correct_z)
        {
            *self.output_stream_ << "G0 Z" << MMtoStream{ self.getPositionZ() } << self.new_line_;
        }
    }
    else
    {
    }
    self.extruder_attr_[self.current_extruder_].is_primed_ = true;
}

//= cura::GCodeExport::writeFanCommand
void r83(cura::GCodeExport& self, double speed, std::optional<size_t> extruder)
{
    const size_t extruder_set_fan = extruder.value_or(self.current_extruder_);
    const size_t fan_number = self.extruder_attr_[extruder_set_fan].fan_number_;
    self.writeSpecificFanCommand(speed, fan_number);
}

//= cura::GCodeExport::writeSpecificFanCommand
void r84(cura::GCodeExport& self, double speed, size_t fan_number)
{
    const auto iterator = self.current_fans_speeds_.find(fan_number);
    const std::optional<double> current_fan_speed = (iterator != self.current_fans_speeds_.end()) ? std::optional<double>(iterator->second) : std::nullopt;
    if (self.flavor_ == EGCodeFlavor::MAKERBOT)
    {
        bool write_value = true;
        const bool new_on = speed >= 50;
        if (current_fan_speed.has_value())
        {
            const bool old_on = current_fan_speed.value() >= 50;
            write_value = new_on != old_on;
        }
        if (write_value)
        {
            if (new_on)
            {
                *self.output_stream_ << "M126 T0" << self.new_line_;
            }
            else
            {
                *self.output_stream_ << "M127 T0" << self.new_line_;
            }
        }
    }
    else
    {
        const bool should_scale_zero_to_one = Application::getInstance().current_slice_->scene.settings.get<bool>("machine_scale_fan_speed_zero_to_one");
        const auto scale_zero_to_one_optional = [should_scale_zero_to_one](double value) -> PrecisionedDouble
        {
            return { (should_scale_zero_to_one ? static_cast<uint8_t>(2) : static_cast<uint8_t>(1)), (should_scale_zero_to_one ? value : value * 255.0) / 100.0 };
        };
        bool write_value = true;
        std::ostringstream new_value;
        const auto num_new_val = scale_zero_to_one_optional(speed);
        new_value << num_new_val;
        const std::string new_value_str = new_value.str();
        if (current_fan_speed.has_value())
        {
            std::ostringstream old_value;
            old_value << scale_zero_to_one_optional(current_fan_speed.value());
            write_value = new_value_str != old_value.str();
        }
        if (write_value)
        {
            if (num_new_val.wouldWriteZero())
            {
                *self.output_stream_ << "M107";
            }
            else
            {
                *self.output_stream_ << "M106 S" << new_value_str;
            }
            if (fan_number)
            {
                *self.output_stream_ << " P" << fan_number;
            }
            *self.output_stream_ << self.new_line_;
        }
    }
    self.current_fans_speeds_[fan_number] = speed;
}

//= cura::GCodeExport::writeTemperatureCommand
void r85(cura::GCodeExport& self, const size_t extruder, const Temperature& temperature, const bool wait, const bool force_write_on_equal)
{
    const ExtruderTrain& extruder_train = Application::getInstance().current_slice_->scene.extruders[extruder];
    if (! extruder_train.settings_.get<bool>("machine_nozzle_temp_enabled"))
    {
        return;
    }
    if (extruder_train.settings_.get<bool>("machine_extruders_share_heater"))
    {
        if (extruder != self.current_extruder_)
        {
            return;
        }
        const size_t extruder_count = Application::getInstance().current_slice_->scene.extruders.size();
        for (size_t extruder_nr = 0; extruder_nr < extruder_count; extruder_nr++)
        {
            if (extruder_nr != extruder)
            {
                if (wait || temperature > self.extruder_attr_[extruder_nr].current_temperature_)
                {
                    self.extruder_attr_[extruder_nr].waited_for_temperature_ = wait;
                }
                self.extruder_attr_[extruder_nr].current_temperature_ = temperature;
            }
        }
    }
    if ((! wait || self.extruder_attr_[extruder].waited_for_temperature_) && ! force_write_on_equal && self.extruder_attr_[extruder].current_temperature_ == temperature)
    {
        return;
    }
    if (wait && self.flavor_ != EGCodeFlavor::MAKERBOT)
    {
        if (self.flavor_ == EGCodeFlavor::MARLIN)
        {
            *self.output_stream_ << "M105" << self.new_line_; 
        }
        *self.output_stream_ << "M109";
        self.extruder_attr_[extruder].waited_for_temperature_ = true;
    }
    else
    {
        *self.output_stream_ << "M104";
        self.extruder_attr_[extruder].waited_for_temperature_ = false;
    }
    if (extruder != self.current_extruder_)
    {
        *self.output_stream_ << " T" << extruder;
    }
#ifdef ASSERT_INSANE_OUTPUT
#endif 
    *self.output_stream_ << " S" << PrecisionedDouble{ 1, temperature } << self.new_line_;
    if (extruder != self.current_extruder_ && self.always_write_active_tool_)
    {
        *self.output_stream_ << "T" << self.current_extruder_ << self.new_line_;
    }
    if (wait && self.flavor_ == EGCodeFlavor::MAKERBOT)
    {
        *self.output_stream_ << "M116" << self.new_line_;
    }
    self.extruder_attr_[extruder].current_temperature_ = temperature;
}

//= cura::GCodeExport::writeBedTemperatureCommand
void r86(cura::GCodeExport& self, const Temperature& temperature, const bool wait)
{
    if (self.flavor_ == EGCodeFlavor::ULTIGCODE)
    { 
        return;
    }
    if (self.bed_temperature_ != temperature) 
    {
        if (wait)
        {
            if (self.flavor_ == EGCodeFlavor::MARLIN)
            {
                *self.output_stream_ << "M140 S"; 
                *self.output_stream_ << PrecisionedDouble{ 1, temperature } << self.new_line_;
                *self.output_stream_ << "M105" << self.new_line_;
            }
            *self.output_stream_ << "M190 S";
        }
        else
        {
            *self.output_stream_ << "M140 S";
        }
        *self.output_stream_ << PrecisionedDouble{ 1, temperature } << self.new_line_;
        self.bed_temperature_ = temperature;
    }
}

//= cura::GCodeExport::writeBuildVolumeTemperatureCommand
void r87(cura::GCodeExport& self, const Temperature& temperature, const bool wait)
{
    if (self.flavor_ == EGCodeFlavor::ULTIGCODE || self.flavor_ == EGCodeFlavor::GRIFFIN || self.flavor_ == EGCodeFlavor::CHEETAH)
    {
        return;
    }
    if (wait)
    {
        *self.output_stream_ << "M191 S";
    }
    else
    {
        *self.output_stream_ << "M141 S";
    }
    *self.output_stream_ << PrecisionedDouble{ 1, temperature } << self.new_line_;
}

//= cura::GCodeExport::writePrintAcceleration
void r88(cura::GCodeExport& self, const Acceleration& acceleration)
{
    switch (self.getFlavor())
    {
    case EGCodeFlavor::REPETIER:
        if (self.current_print_acceleration_ != acceleration)
        {
            *self.output_stream_ << "M201 X" << PrecisionedDouble{ 0, acceleration } << " Y" << PrecisionedDouble{ 0, acceleration } << self.new_line_;
        }
        break;
    case EGCodeFlavor::REPRAP:
        if (self.current_print_acceleration_ != acceleration)
        {
            *self.output_stream_ << "M204 P" << PrecisionedDouble{ 0, acceleration } << self.new_line_;
        }
        break;
    default:
        if (self.current_print_acceleration_ != acceleration)
        {
            *self.output_stream_ << "M204 S" << PrecisionedDouble{ 0, acceleration } << self.new_line_;
        }
        break;
    }
    self.current_print_acceleration_ = acceleration;
    self.estimate_calculator_.setAcceleration(acceleration);
}

//= cura::GCodeExport::writeTravelAcceleration
void r89(cura::GCodeExport& self, const Acceleration& acceleration)
{
    switch (self.getFlavor())
    {
    case EGCodeFlavor::REPETIER:
        if (self.current_travel_acceleration_ != acceleration)
        {
            *self.output_stream_ << "M202 X" << PrecisionedDouble{ 0, acceleration } << " Y" << PrecisionedDouble{ 0, acceleration } << self.new_line_;
        }
        break;
    case EGCodeFlavor::REPRAP:
        if (self.current_travel_acceleration_ != acceleration)
        {
            *self.output_stream_ << "M204 T" << PrecisionedDouble{ 0, acceleration } << self.new_line_;
        }
        break;
    default:
        self.writePrintAcceleration(acceleration);
        break;
    }
    self.current_travel_acceleration_ = acceleration;
    self.estimate_calculator_.setAcceleration(acceleration);
}

//= cura::GCodeExport::writeJerk
void r90(cura::GCodeExport& self, const Velocity& jerk)
{
    if (self.current_jerk_ != jerk)
    {
        switch (self.getFlavor())
        {
        case EGCodeFlavor::REPETIER:
            *self.output_stream_ << "M207 X" << PrecisionedDouble{ 2, jerk } << self.new_line_;
            break;
        case EGCodeFlavor::REPRAP:
            *self.output_stream_ << "M566 X" << PrecisionedDouble{ 2, jerk * 60 } << " Y" << PrecisionedDouble{ 2, jerk * 60 } << self.new_line_;
            break;
        case EGCodeFlavor::CHEETAH:
            *self.output_stream_ << "M215 X" << PrecisionedDouble{ 2, jerk * 1000 } << " Y" << PrecisionedDouble{ 2, jerk * 1000 } << self.new_line_;
            break;
        default:
            *self.output_stream_ << "M205 X" << PrecisionedDouble{ 2, jerk } << " Y" << PrecisionedDouble{ 2, jerk } << self.new_line_;
            break;
        }
        self.current_jerk_ = jerk;
        if (self.getFlavor() == EGCodeFlavor::CHEETAH)
        {
            self.estimate_calculator_.setMaxXyJerk(jerk / 200);
        }
        else
        {
            self.estimate_calculator_.setMaxXyJerk(jerk);
        }
    }
}

//= cura::GCodeExport::flushOutputStream
void r93(cura::GCodeExport& self)
{
    self.prepareNewFixedGCodePart();
}

//= cura::GCodeExport::prepareNewFixedGCodePart
void r94(cura::GCodeExport& self)
{
    auto fixed_gcode_part = std::make_shared<FixedGCodePart>();
    self.gcode_parts_.push_back(fixed_gcode_part);
    self.output_stream_ = &fixed_gcode_part->stream();
}

//= cura::GCodeExport::writeResolvableGCode
void r95(cura::GCodeExport& self, const std::string& raw_text, const ResolvingExtruderContext& extruder_nr, const std::unordered_map<std::string, CuraFormulaeEngine::eval::Value>& extra_settings)
{
    if (raw_text.empty())
    {
        return;
    }
    self.gcode_parts_.push_back(std::make_shared<ResolvedGCodePart>(self.template_resolver_, raw_text, extruder_nr, extra_settings));
    self.prepareNewFixedGCodePart();
}

//= cura::GCodeExport::getExtrudedVolumeAfterLastWipe
double r96(cura::GCodeExport& self, size_t extruder)
{
    return self.eToMm3(self.extruder_attr_[extruder].last_e_value_after_wipe_, extruder);
}

//= cura::GCodeExport::ResetLastEValueAfterWipe
void r97(cura::GCodeExport& self, size_t extruder)
{
    self.extruder_attr_[extruder].last_e_value_after_wipe_ = 0;
}

//= cura::GCodeExport::insertWipeScript
void r98(cura::GCodeExport& self, const WipeScriptConfig& wipe_config)
{
    const Point3LL prev_position = self.current_position_;
    self.writeComment("WIPE_SCRIPT_BEGIN");
    if (wipe_config.retraction_enable)
    {
        self.writeRetraction(wipe_config.retraction_config);
    }
    if (wipe_config.hop_enable)
    {
        self.writeZhopStart(wipe_config.hop_amount, wipe_config.hop_speed);
    }
    self.writeTravel(Point2LL(wipe_config.brush_pos_x, self.current_position_.y_), wipe_config.move_speed);
    for (size_t i = 0; i < wipe_config.repeat_count; ++i)
    {
        coord_t x = self.current_position_.x_ + (i % 2 ? -wipe_config.move_distance : wipe_config.move_distance);
        self.writeTravel(Point2LL(x, self.current_position_.y_), wipe_config.move_speed);
    }
    self.writeTravel(prev_position, wipe_config.move_speed);
    if (wipe_config.hop_enable)
    {
        self.writeZhopEnd(wipe_config.hop_speed);
    }
    if (wipe_config.retraction_enable)
    {
        self.writeUnretractionAndPrime();
    }
    if (wipe_config.pause > 0)
    {
        self.writeDelay(wipe_config.pause);
    }
    self.writeComment("WIPE_SCRIPT_END");
}

//= cura::GCodeExport::writePrepareFansForNozzleSwitch
void r99(cura::GCodeExport& self)
{
    const Settings& settings = Application::getInstance().current_slice_->scene.settings;
    const auto cool_during_switch = settings.get<CoolDuringExtruderSwitch>("cool_during_extruder_switch");
    if (cool_during_switch != CoolDuringExtruderSwitch::UNCHANGED)
    {
        const size_t current_extruder_fan_number = self.extruder_attr_[self.current_extruder_].fan_number_;
        for (size_t fan_number = 0; fan_number < self.fans_count_; ++fan_number)
        {
            double fan_speed;
            if (cool_during_switch == CoolDuringExtruderSwitch::ALL_FANS || fan_number == current_extruder_fan_number)
            {
                fan_speed = 100.0;
            }
            else
            {
                fan_speed = 0.0;
            }
            self.writeSpecificFanCommand(fan_speed, fan_number);
        }
    }
}

//= cura::GCodeExport::writePrepareFansForExtrusion
void r100(cura::GCodeExport& self, double current_extruder_new_speed)
{
    const Settings& settings = Application::getInstance().current_slice_->scene.settings;
    const auto cool_during_switch = settings.get<CoolDuringExtruderSwitch>("cool_during_extruder_switch");
    const size_t current_extruder_fan_number = self.extruder_attr_[self.current_extruder_].fan_number_;
    for (size_t fan_number = 0; fan_number < self.fans_count_; ++fan_number)
    {
        double new_fan_speed;
        if (fan_number == current_extruder_fan_number)
        {
            new_fan_speed = current_extruder_new_speed;
        }
        else if (cool_during_switch == CoolDuringExtruderSwitch::UNCHANGED)
        {
            continue;
        }
        else
        {
            new_fan_speed = 0.0;
        }
        self.writeSpecificFanCommand(new_fan_speed, fan_number);
    }
}

//= cura::GCodeExport::setSliceUUID
void r101(cura::GCodeExport& self, const std::string& slice_uuid)
{
    self.slice_uuid_ = slice_uuid;
}

//= cura::GCodeExport::ExtruderTrainAttributes::ExtruderTrainAttributes
void r102(cura::GCodeExport::ExtruderTrainAttributes& self)
{
member(self.is_primed_) = false;
member(self.is_used_) = false;
member(self.extruder_character_) = 0;
member(self.filament_area_) = 0;
member(self.total_filament_) = 0;
member(self.current_temperature_) = 0;
member(self.waited_for_temperature_) = false;
member(self.initial_temp_) = 0;
member(self.retraction_e_amount_current_) = 0.0;
member(self.retraction_e_amount_at_e_start_) = 0.0;
member(self.prime_volume_) = 0.0;
member(self.last_retraction_prime_speed_) = 0.0;
member(self.fan_number_) = 0;
}

//= cura::GCodeExport::RetractionAmounts::has_retraction
bool r103(const cura::GCodeExport::RetractionAmounts& self)
{
    constexpr double threshold{ 1e-6 };
    return std::abs(self.diff_e) >= threshold;
}

//END
}  // namespace ref
