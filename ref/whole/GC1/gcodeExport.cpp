// What the functions of this unit compute.
#include "gcode_export/gcodeExport.h"
#include <cassert>
#include <chrono>
#include <cmath>
#include <cura-formulae-engine/parser/parser.h>
#include <iomanip>
#include <numbers>
#include <regex>
#include <fmt/chrono.h>
#include <spdlog/spdlog.h>
#include "Application.h"
#include "ExtruderTrain.h"
#include "PrintFeature.h"
#include "RetractionConfig.h"
#include "Slice.h"
#include "TravelAntiOozing.h"
#include "WipeScriptConfig.h"
#include "communication/Communication.h"
#include "gcode_export/FixedGCodePart.h"
#include "gcode_export/GcodeTemplateResolver.h"
#include "gcode_export/ResolvedGCodePart.h"
#include "settings/types/LayerIndex.h"
#include "sliceDataStorage.h"
#include "utils/Date.h"
#include "utils/ThreadPool.h"
#include "utils/math.h"
#include "utils/string.h"
namespace cfe = CuraFormulaeEngine;
namespace cura
{
std::string transliterate(const std::string& text)
{
    std::ostringstream stream;
    for (const char& c : text)
    {
        stream << ((c >= 0) ? c : '?');
    }
    return stream.str();
}
//= cura::GCodeExport::GCodeExport
GCodeExport::GCodeExport()
    : current_position_(0, 0, MM2INT(20))
    , layer_nr_(0)
    , relative_extrusion_(false)
    , template_resolver_(std::make_shared<GcodeTemplateResolver>())
{
    current_e_value_ = 0;
    current_extruder_ = 0;
    total_print_times_ = std::vector<Duration>(static_cast<unsigned char>(PrintFeatureType::NumPrintFeatureTypes), 0.0);
    current_speed_ = 1.0;
    current_print_acceleration_ = -1.0;
    current_travel_acceleration_ = -1.0;
    current_jerk_ = -1.0;
    is_z_hopped_ = 0;
    setFlavor(EGCodeFlavor::MARLIN);
    initial_bed_temp_ = 0;
    bed_temperature_ = 0;
    build_volume_temperature_ = 0;
    machine_heated_build_volume_ = false;
    ppr_enable_ = false;
    use_extruder_offset_to_offset_coords_ = false;
    machine_name_ = "";
    relative_extrusion_ = false;
    new_line_ = "\n";
    total_bounding_box_ = AABB3D();
    prepareNewFixedGCodePart();
}
//END
//= cura::GCodeExport::getFileHeader
std::string GCodeExport::getFileHeader(const std::vector<bool>& extruder_is_used, const std::vector<double>& filament_used, const std::vector<std::string>& mat_ids)
{
    std::ostringstream prefix;
    const size_t extruder_count = Application::getInstance().current_slice_->scene.extruders.size();
    const Duration print_time = getSumTotalPrintTimes();
    switch (flavor_)
    {
    case EGCodeFlavor::GRIFFIN:
    case EGCodeFlavor::CHEETAH:
    {
        prefix << ";START_OF_HEADER" << new_line_;
        prefix << ";HEADER_VERSION:0.1" << new_line_;
        prefix << ";FLAVOR:" << flavorToString(flavor_) << new_line_;
        prefix << ";GENERATOR.NAME:Cura_SteamEngine" << new_line_;
        prefix << ";GENERATOR.VERSION:" << CURA_ENGINE_VERSION << new_line_;
        prefix << ";GENERATOR.BUILD_DATE:" << Date::getDate().toStringDashed() << new_line_;
        prefix << ";TARGET_MACHINE.NAME:" << transliterate(machine_name_) << new_line_;
        for (size_t extr_nr = 0; extr_nr < extruder_count; extr_nr++)
        {
            if (! extruder_is_used[extr_nr])
            {
                continue;
            }
            prefix << ";EXTRUDER_TRAIN." << extr_nr << ".INITIAL_TEMPERATURE:" << extruder_attr_[extr_nr].initial_temp_ << new_line_;
            if (filament_used.size() == extruder_count)
            {
                prefix << ";EXTRUDER_TRAIN." << extr_nr << ".MATERIAL.VOLUME_USED:" << static_cast<int>(filament_used[extr_nr]) << new_line_;
            }
            if (mat_ids.size() == extruder_count && mat_ids[extr_nr] != "")
            {
                prefix << ";EXTRUDER_TRAIN." << extr_nr << ".MATERIAL.GUID:" << mat_ids[extr_nr] << new_line_;
            }
            const Settings& extruder_settings = Application::getInstance().current_slice_->scene.extruders[extr_nr].settings_;
            prefix << ";EXTRUDER_TRAIN." << extr_nr << ".NOZZLE.DIAMETER:" << extruder_settings.get<double>("machine_nozzle_size") << new_line_;
            prefix << ";EXTRUDER_TRAIN." << extr_nr << ".NOZZLE.NAME:" << extruder_settings.get<std::string>("machine_nozzle_id") << new_line_;
        }
        prefix << ";BUILD_PLATE.INITIAL_TEMPERATURE:" << initial_bed_temp_ << new_line_;
        if (machine_heated_build_volume_)
        {
            prefix << ";BUILD_VOLUME.TEMPERATURE:" << build_volume_temperature_ << new_line_;
        }
        prefix << ";PRINT.TIME:" << static_cast<int>(print_time) << new_line_;
        prefix << ";PRINT.GROUPS:" << Application::getInstance().current_slice_->scene.mesh_groups.size() << new_line_;
        if (total_bounding_box_.min_.x_ > total_bounding_box_.max_.x_)
        {
            total_bounding_box_.min_ = Point3LL(0, 0, 0);
            total_bounding_box_.max_ = Point3LL(10, 10, 10);
        }
        prefix << ";PRINT.SIZE.MIN.X:" << INT2MM(total_bounding_box_.min_.x_) << new_line_;
        prefix << ";PRINT.SIZE.MIN.Y:" << INT2MM(total_bounding_box_.min_.y_) << new_line_;
        prefix << ";PRINT.SIZE.MIN.Z:" << INT2MM(total_bounding_box_.min_.z_) << new_line_;
        prefix << ";PRINT.SIZE.MAX.X:" << INT2MM(total_bounding_box_.max_.x_) << new_line_;
        prefix << ";PRINT.SIZE.MAX.Y:" << INT2MM(total_bounding_box_.max_.y_) << new_line_;
        prefix << ";PRINT.SIZE.MAX.Z:" << INT2MM(total_bounding_box_.max_.z_) << new_line_;
        prefix << ";SLICE_UUID:" << slice_uuid_ << new_line_;
        if (ppr_enable_)
        {
            prefix << ";PPR_ENABLE:TRUE" << new_line_;
            for (size_t extr_nr = 0; extr_nr < extruder_count; extr_nr++)
            {
                if (! extruder_is_used[extr_nr])
                {
                    continue;
                }
                const Settings& extruder_settings = Application::getInstance().current_slice_->scene.extruders[extr_nr].settings_;
                prefix << ";EXTRUDER_TRAIN." << extr_nr << ".PPR_FLOW_WARNING:" << extruder_settings.get<double>("flow_warn_limit") << new_line_;
                prefix << ";EXTRUDER_TRAIN." << extr_nr << ".PPR_FLOW_LIMIT:" << extruder_settings.get<double>("flow_anomaly_limit") << new_line_;
                prefix << ";EXTRUDER_TRAIN." << extr_nr << ".PPR_PRINTING_TEMPERATURE_WARNING:" << extruder_settings.get<double>("print_temp_warn_limit") << new_line_;
                prefix << ";EXTRUDER_TRAIN." << extr_nr << ".PPR_PRINTING_TEMPERATURE_LIMIT:" << extruder_settings.get<double>("print_temp_anomaly_limit") << new_line_;
            }
            prefix << ";PPR_BUILD_VOLUME_TEMPERATURE_WARNING:" << Application::getInstance().current_slice_->scene.extruders[0].settings_.get<double>("bv_temp_warn_limit")
                   << new_line_;
            prefix << ";PPR_BUILD_VOLUME_TEMPERATURE_LIMIT:" << Application::getInstance().current_slice_->scene.extruders[0].settings_.get<double>("bv_temp_anomaly_limit")
                   << new_line_;
        }
        prefix << ";END_OF_HEADER" << new_line_;
        break;
    }
    default:
        prefix << ";FLAVOR:" << flavorToString(flavor_) << new_line_;
        prefix << ";TIME:" << static_cast<int>(print_time) << new_line_;
        if (flavor_ == EGCodeFlavor::ULTIGCODE)
        {
            prefix << ";MATERIAL:" << ((filament_used.size() >= 1) ? static_cast<int>(filament_used[0]) : 6666) << new_line_;
            prefix << ";MATERIAL2:" << ((filament_used.size() >= 2) ? static_cast<int>(filament_used[1]) : 0) << new_line_;
            prefix << ";NOZZLE_DIAMETER:" << Application::getInstance().current_slice_->scene.extruders[0].settings_.get<double>("machine_nozzle_size") << new_line_;
        }
        else if (flavor_ == EGCodeFlavor::REPRAP || flavor_ == EGCodeFlavor::MARLIN || flavor_ == EGCodeFlavor::MARLIN_VOLUMATRIC)
        {
            prefix << ";Filament used: ";
            if (filament_used.size() > 0)
            {
                for (unsigned i = 0; i < filament_used.size(); ++i)
                {
                    if (i > 0)
                    {
                        prefix << ", ";
                    }
                    if (flavor_ != EGCodeFlavor::MARLIN_VOLUMATRIC)
                    {
                        prefix << filament_used[i] / (1000 * extruder_attr_[i].filament_area_) << "m";
                    }
                    else
                    {
                        prefix << filament_used[i] << "mm3";
                    }
                }
            }
            else
            {
                prefix << "0m";
            }
            prefix << new_line_;
            prefix << ";Layer height: " << Application::getInstance().current_slice_->scene.current_mesh_group->settings.get<double>("layer_height") << new_line_;
        }
        prefix << ";MINX:" << INT2MM(total_bounding_box_.min_.x_) << new_line_;
        prefix << ";MINY:" << INT2MM(total_bounding_box_.min_.y_) << new_line_;
        prefix << ";MINZ:" << INT2MM(total_bounding_box_.min_.z_) << new_line_;
        prefix << ";MAXX:" << INT2MM(total_bounding_box_.max_.x_) << new_line_;
        prefix << ";MAXY:" << INT2MM(total_bounding_box_.max_.y_) << new_line_;
        prefix << ";MAXZ:" << INT2MM(total_bounding_box_.max_.z_) << new_line_;
        prefix << ";TARGET_MACHINE.NAME:" << transliterate(machine_name_) << new_line_;
    }
    return prefix.str();
}
//END
//= cura::GCodeExport::writeComment
void GCodeExport::writeComment(const std::string& unsanitized_comment)
{
    const std::string comment = transliterate(unsanitized_comment);
    *output_stream_ << ";";
    for (unsigned int i = 0; i < comment.length(); i++)
    {
        if (comment[i] == '\n')
        {
            *output_stream_ << new_line_ << ";";
        }
        else
        {
            *output_stream_ << comment[i];
        }
    }
    *output_stream_ << new_line_;
}
//END
//= cura::GCodeExport::writeFXYZE
void GCodeExport::writeFXYZE(
    const Velocity& speed,
    const coord_t x,
    const coord_t y,
    const coord_t z,
    const double e,
    const PrintFeatureType& feature,
    const std::optional<RetractionAmounts>& retraction_amounts)
{
    bool any_written = false;
    if (current_speed_ != speed)
    {
        any_written = true;
        *output_stream_ << " F" << PrecisionedDouble{ 1, speed * 60 };
        current_speed_ = speed;
    }
    Point2LL gcode_pos = getGcodePos(x, y, current_extruder_);
    total_bounding_box_.include(Point3LL(gcode_pos.X, gcode_pos.Y, z));
    if (x != current_position_.x_ || y != current_position_.y_)
    {
        any_written = true;
        *output_stream_ << " X" << MMtoStream{ gcode_pos.X } << " Y" << MMtoStream{ gcode_pos.Y };
    }
    if (z != current_position_.z_)
    {
        any_written = true;
        *output_stream_ << " Z" << MMtoStream{ z };
    }
    if (retraction_amounts.has_value())
    {
        if (retraction_amounts->has_retraction())
        {
            any_written = true;
            writeRawRetract(retraction_amounts.value());
        }
    }
    else if (e + current_e_offset_ != current_e_value_)
    {
        any_written = true;
        const double output_e = (relative_extrusion_) ? e + current_e_offset_ - current_e_value_ : e + current_e_offset_;
        *output_stream_ << " " << extruder_attr_[current_extruder_].extruder_character_ << PrecisionedDouble{ 5, output_e };
        current_e_value_ = e;
    }
    if (! any_written)
    {
        *output_stream_ << " X" << MMtoStream{ gcode_pos.X } << " Y" << MMtoStream{ gcode_pos.Y };
        spdlog::warn("No axis-value (F,X,Y,Z,E) changed, but write-move requested; outputting XY anyway.\n");
    }
    *output_stream_ << new_line_;
    current_position_ = Point3LL(x, y, z);
    estimate_calculator_.plan(TimeEstimateCalculator::Position(INT2MM(x), INT2MM(y), INT2MM(z), eToMm(e)), speed, feature);
}
//END
PrintFeatureType
//= cura::GCodeExport::sendTravel
    GCodeExport::sendTravel(const Point3LL& p, const Velocity& speed, const ExtruderTrainAttributes& extruder_attr, const std::optional<RetractionAmounts>& retraction_amounts)
{
    PrintFeatureType travel_move_type;
    if (retraction_amounts.has_value() && retraction_amounts.value().has_retraction())
    {
        travel_move_type = retraction_amounts.value().diff_e < 0.0 ? PrintFeatureType::MoveWhileRetracting : PrintFeatureType::MoveWhileUnretracting;
    }
    else
    {
        travel_move_type = extruder_attr.retraction_e_amount_current_ > 0.0 ? PrintFeatureType::MoveRetracted : PrintFeatureType::MoveUnretracted;
    }
    const int display_width = extruder_attr.retraction_e_amount_current_ ? MM2INT(0.2) : MM2INT(0.1);
    const double layer_height = Application::getInstance().current_slice_->scene.current_mesh_group->settings.get<double>("layer_height");
    Application::getInstance().communication_->sendLineTo(travel_move_type, p, display_width, layer_height, speed);
    return travel_move_type;
}
//END
//= cura::GCodeExport::startExtruder
void GCodeExport::startExtruder(const size_t new_extruder)
{
    const std::unordered_map<std::string, cfe::eval::Value> extra_settings
        = { { "previous_extruder_nr", static_cast<int64_t>(current_extruder_) }, { "next_extruder_nr", static_cast<int64_t>(new_extruder) } };
    const auto extruder_settings = Application::getInstance().current_slice_->scene.extruders[new_extruder].settings_;
    const auto prestart_code = extruder_settings.get<std::string>("machine_extruder_prestart_code");
    const auto start_code = extruder_settings.get<std::string>("machine_extruder_start_code");
    const auto start_code_duration = extruder_settings.get<Duration>("machine_extruder_start_code_duration");
    const auto extruder_change_duration = extruder_settings.get<Duration>("machine_extruder_change_duration");
    if (! prestart_code.empty())
    {
        writeCodeWithAbsoluteExtrusion(prestart_code, new_extruder, extra_settings);
    }
    extruder_attr_[new_extruder].is_used_ = true;
    if (new_extruder != current_extruder_)
    {
        if (flavor_ == EGCodeFlavor::MAKERBOT)
        {
            *output_stream_ << "M135 T" << new_extruder << new_line_;
        }
        else
        {
            *output_stream_ << "T" << new_extruder << new_line_;
        }
        estimate_calculator_.addTime(extruder_change_duration);
    }
    estimate_calculator_.addTime(start_code_duration);
    current_position_ += getNozzleOffset(new_extruder) - getNozzleOffset(current_extruder_);
    current_extruder_ = new_extruder;
    assert(getCurrentExtrudedVolume() == 0.0 && "Just after an extruder switch we haven't extruded anything yet!");
    resetExtrusionValue();
    if (! start_code.empty())
    {
        writeCodeWithAbsoluteExtrusion(start_code, new_extruder, extra_settings);
    }
    Application::getInstance().communication_->setExtruderForSend(Application::getInstance().current_slice_->scene.extruders[new_extruder]);
    Application::getInstance().communication_->sendCurrentPosition(getPositionXY());
    current_position_.z_ += 1;
}
//END
//= cura::GCodeExport::switchExtruder
void GCodeExport::switchExtruder(size_t new_extruder, const RetractionConfig& retraction_config_old_extruder, coord_t perform_z_hop )
{
    if (current_extruder_ == new_extruder)
    {
        return;
    }
    const Settings& old_extruder_settings = Application::getInstance().current_slice_->scene.extruders[current_extruder_].settings_;
    if (old_extruder_settings.get<bool>("retraction_enable"))
    {
        constexpr bool force = true;
        constexpr bool extruder_switch = true;
        writeRetraction(retraction_config_old_extruder, force, extruder_switch);
    }
    if (perform_z_hop > 0)
    {
        writeZhopStart(perform_z_hop);
    }
    resetExtrusionValue();
    const std::unordered_map<std::string, cfe::eval::Value> extra_settings
        = { { "previous_extruder_nr", static_cast<int64_t>(current_extruder_) }, { "next_extruder_nr", static_cast<int64_t>(new_extruder) } };
    const auto end_code = old_extruder_settings.get<std::string>("machine_extruder_end_code");
    if (! end_code.empty())
    {
        writeCodeWithAbsoluteExtrusion(end_code, current_extruder_, extra_settings);
    }
    const auto end_code_duration = old_extruder_settings.get<Duration>("machine_extruder_end_code_duration");
    estimate_calculator_.addTime(end_code_duration);
    startExtruder(new_extruder);
}
//END
//= cura::GCodeExport::finalize
void GCodeExport::finalize(const std::string& end_code, PrintInformation& print_info)
{
    writeFanCommand(0);
    writeResolvableGCode(end_code, DynamicExtruderContext::Initial);
    std::unordered_map<std::string, CuraFormulaeEngine::eval::Value> extra_global_settings;
    std::chrono::seconds print_time(static_cast<int64_t>(getSumTotalPrintTimes()));
    spdlog::info("Print time: {}", print_time);
    auto print_hours = std::chrono::duration_cast<std::chrono::hours>(print_time);
    print_time -= print_hours;
    auto print_minutes = std::chrono::duration_cast<std::chrono::minutes>(print_time);
    print_time -= print_minutes;
    auto print_seconds = std::chrono::duration_cast<std::chrono::seconds>(print_time);
    spdlog::info("Print time (hr|min|s): {} {} {}", print_hours, print_minutes, print_seconds);
    extra_global_settings.emplace("print_time", fmt::format("{:02d}:{:02d}:{:02d}", print_hours.count(), print_minutes.count(), print_seconds.count()));
    print_info.extruders_info = calculateMaterialPrintInformation();
    spdlog::info("Filament (mm^3): {}", print_info.extruders_info[0].value_or(ExtruderPrintInformation()).filament_amount);
    for (const auto& [extruder_nr, extruder_info] : print_info.extruders_info | ranges::views::enumerate | ranges::views::drop(1))
    {
        if (extruder_info.has_value())
        {
            spdlog::info("Filament {}: {}", extruder_nr + 1, static_cast<int>(extruder_info->filament_amount));
        }
    }
    const size_t used_extruders = print_info.extruders_info.size();
    std::vector<double> filaments_volumes(used_extruders);
    std::vector<cfe::eval::Value> filaments_amounts(used_extruders);
    std::vector<cfe::eval::Value> filaments_weights(used_extruders);
    std::vector<cfe::eval::Value> filaments_costs(used_extruders);
    std::vector<std::string> materials_ids(used_extruders);
    for (const auto& [extruder_nr, extruder_info_opt] : print_info.extruders_info | ranges::views::enumerate)
    {
        const ExtruderPrintInformation extruder_info = extruder_info_opt.value_or(ExtruderPrintInformation());
        filaments_volumes[extruder_nr] = extruder_info.filament_amount;
        filaments_amounts[extruder_nr] = extruder_info.filament_length;
        filaments_weights[extruder_nr] = extruder_info.filament_weight;
        filaments_costs[extruder_nr] = extruder_info.filament_cost;
        materials_ids[extruder_nr] = extruder_info.material_guid;
    }
    extra_global_settings.emplace("filament_amount", filaments_amounts);
    extra_global_settings.emplace("filament_weight", filaments_weights);
    extra_global_settings.emplace("filament_cost", filaments_costs);
    const AABB& initial_layer_bb = print_info.initial_layer_bb;
    extra_global_settings.emplace("initial_layer_bb_min_x", INT2MM(initial_layer_bb.min_.X));
    extra_global_settings.emplace("initial_layer_bb_max_x", INT2MM(initial_layer_bb.max_.X));
    extra_global_settings.emplace("initial_layer_bb_min_y", INT2MM(initial_layer_bb.min_.Y));
    extra_global_settings.emplace("initial_layer_bb_max_y", INT2MM(initial_layer_bb.max_.Y));
    extra_global_settings.emplace("initial_layer_bb_width", INT2MM(initial_layer_bb.width()));
    extra_global_settings.emplace("initial_layer_bb_height", INT2MM(initial_layer_bb.height()));
    extra_global_settings.emplace("total_bb_min_x", INT2MM(total_bounding_box_.min_.x_));
    extra_global_settings.emplace("total_bb_max_x", INT2MM(total_bounding_box_.max_.x_));
    extra_global_settings.emplace("total_bb_min_y", INT2MM(total_bounding_box_.min_.y_));
    extra_global_settings.emplace("total_bb_max_y", INT2MM(total_bounding_box_.max_.y_));
    extra_global_settings.emplace("total_bb_min_z", INT2MM(total_bounding_box_.min_.z_));
    extra_global_settings.emplace("total_bb_max_z", INT2MM(total_bounding_box_.max_.z_));
    extra_global_settings.emplace("total_bb_width", INT2MM(total_bounding_box_.spanX()));
    extra_global_settings.emplace("total_bb_depth", INT2MM(total_bounding_box_.spanY()));
    extra_global_settings.emplace("total_bb_height", INT2MM(total_bounding_box_.spanZ()));
    std::vector<cfe::eval::Value> is_extruder_used(MAX_EXTRUDERS);
    std::vector<bool> is_extruder_used_bool(MAX_EXTRUDERS);
    for (size_t extruder_nr = 0; extruder_nr < MAX_EXTRUDERS; ++extruder_nr)
    {
        const bool is_this_extruder_used = extruder_nr < used_extruders && print_info.extruders_info[extruder_nr].has_value();
        is_extruder_used_bool[extruder_nr] = is_this_extruder_used;
        is_extruder_used[extruder_nr] = is_this_extruder_used;
    }
    extra_global_settings.emplace("is_extruder_used", is_extruder_used);
    template_resolver_->prepareForResolving(print_info.initial_extruder_nr.value_or(0), extra_global_settings);
    std::shared_ptr<Communication> communication = Application::getInstance().communication_;
    communication->sendGCodePart(getFileHeader(is_extruder_used_bool, filaments_volumes, materials_ids));
    sendFinalGCode();
    communication->sendPrintInformation(total_print_times_, print_info);
}
//END
//= cura::GCodeExport::finalizeExtruder
void GCodeExport::finalizeExtruder(const std::string& extruder_end_code)
{
    const std::unordered_map<std::string, cfe::eval::Value> extra_settings
        = { { "previous_extruder_nr", static_cast<int64_t>(getExtruderNr()) }, { "next_extruder_nr", static_cast<int64_t>(-1) } };
    writeCodeWithAbsoluteExtrusion(extruder_end_code, getExtruderNr(), extra_settings);
}
//END
}
