// Temperatures.
#include <algorithm>
#include <array>
#include <unordered_set>
#include <unordered_map>
#include <set>
#include <map>
#include <list>
#include <vector>
#include <deque>
#include <memory>
#include <numeric>
#include <optional>
#include <functional>
#include <string>
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "geometry/Polygon.h"
#include "geometry/OpenPolyline.h"
#include "geometry/SingleShape.h"
#include "geometry/MixedLinesSet.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "raft.h"
#include "Application.h"
#include "ExtruderTrain.h"
#include "Preheat.h"
#include "Slice.h"
#include "gcode_export/gcodeExport.h"
#include "pathPlanning/NozzleTempInsert.h"
#include "settings/FlowTempGraph.h"
#include "settings/types/Ratio.h"
#include "settings/types/Temperature.h"
#include <cassert>
#include <compare>
#include <cstddef>
#include <spdlog/spdlog.h>
#include <vector>
#include "settings/FlowTempGraph.h"
#include "pathPlanning/NozzleTempInsert.h"
#include "ref.h"

namespace ref
{
using namespace cura;

//= cura::Preheat::getTimeToGoFromTempToTemp
Duration r1(cura::Preheat& self, const size_t extruder, const Temperature& temp_before, const Temperature& temp_after, const bool during_printing)
{
    const Settings& extruder_settings = Application::getInstance().current_slice_->scene.extruders[extruder].settings_;
    Duration time;
    if (temp_after > temp_before)
    {
        Temperature heat_up_speed = extruder_settings.get<Temperature>("machine_nozzle_heat_up_speed");
        if (during_printing)
        {
            heat_up_speed -= extruder_settings.get<Temperature>("material_extrusion_cool_down_speed");
        }
        time = (temp_after - temp_before) / heat_up_speed;
    }
    else
    {
        Temperature cool_down_speed = extruder_settings.get<Temperature>("machine_nozzle_cool_down_speed");
        if (during_printing)
        {
            cool_down_speed += extruder_settings.get<Temperature>("material_extrusion_cool_down_speed");
        }
        time = (temp_before - temp_after) / cool_down_speed;
    }
    return std::max(0.0_s, time);
}

//= cura::Preheat::getTemp
Temperature r2(cura::Preheat& self, const size_t extruder, const bool is_initial_layer)
{
    const Settings& extruder_settings = Application::getInstance().current_slice_->scene.extruders[extruder].settings_;
    if (is_initial_layer && extruder_settings.get<Temperature>("material_print_temperature_layer_0") != 0)
    {
        return extruder_settings.get<Temperature>("material_print_temperature_layer_0");
    }
    return extruder_settings.get<Temperature>("material_print_temperature");
}

//= cura::Preheat::getWarmUpPointAfterCoolDown
namespace n3
{
using WarmUpResult = cura::Preheat::WarmUpResult;
Preheat::WarmUpResult r3(cura::Preheat& self, double time_window, unsigned int extruder, double temp_start, double temp_mid, double temp_end, bool during_printing)
{
    WarmUpResult result;
    const Settings& extruder_settings = Application::getInstance().current_slice_->scene.extruders[extruder].settings_;
    Temperature cool_down_speed = extruder_settings.get<Temperature>("machine_nozzle_cool_down_speed");
    if (during_printing)
    {
        cool_down_speed += extruder_settings.get<Temperature>("material_extrusion_cool_down_speed");
    }
    const Duration time_to_cooldown_1_degree = 1.0 / cool_down_speed;
    Temperature heat_up_speed = extruder_settings.get<Temperature>("machine_nozzle_heat_up_speed");
    if (during_printing)
    {
        heat_up_speed -= extruder_settings.get<Temperature>("material_extrusion_cool_down_speed");
    }
    const Duration time_to_heatup_1_degree = 1.0 / heat_up_speed;
    result.total_time_window = time_window;
    double outer_temp;
    double limited_time_window;
    if (temp_start < temp_end)
    { 
        double extra_heatup_time = (temp_end - temp_start) * time_to_heatup_1_degree;
        result.heating_time = extra_heatup_time;
        limited_time_window = time_window - extra_heatup_time;
        outer_temp = temp_start;
    }
    else
    {
        double extra_cooldown_time = (temp_start - temp_end) * time_to_cooldown_1_degree;
        result.heating_time = 0;
        limited_time_window = time_window - extra_cooldown_time;
        outer_temp = temp_end;
    }
    if (limited_time_window < 0.0)
    {
        result.heating_time = 0.0;
        result.lowest_temperature = std::min(temp_start, temp_end);
        return result;
    }
    double time_ratio_cooldown_heatup = time_to_cooldown_1_degree / time_to_heatup_1_degree;
    double time_to_heat_from_standby_to_print_temp = self.getTimeToGoFromTempToTemp(extruder, temp_mid, outer_temp, during_printing);
    double time_needed_to_reach_standby_temp = time_to_heat_from_standby_to_print_temp * (1.0 + time_ratio_cooldown_heatup);
    if (time_needed_to_reach_standby_temp < limited_time_window)
    {
        result.heating_time += time_to_heat_from_standby_to_print_temp;
        result.lowest_temperature = temp_mid;
    }
    else
    {
        result.heating_time += limited_time_window * time_to_heatup_1_degree / (time_to_cooldown_1_degree + time_to_heatup_1_degree);
        result.lowest_temperature = std::max(temp_mid, temp_end - result.heating_time / time_to_heatup_1_degree);
    }
    if (result.heating_time > time_window || result.heating_time < 0.0)
    {
    }
    return result;
}
} // namespace n3

//= cura::Preheat::getCoolDownPointAfterWarmUp
namespace n4
{
using CoolDownResult = cura::Preheat::CoolDownResult;
Preheat::CoolDownResult r4(cura::Preheat& self, double time_window, unsigned int extruder, double temp_start, double temp_mid, double temp_end, bool during_printing)
{
    CoolDownResult result;
    const Settings& extruder_settings = Application::getInstance().current_slice_->scene.extruders[extruder].settings_;
    Temperature cool_down_speed = extruder_settings.get<Temperature>("machine_nozzle_cool_down_speed");
    if (during_printing)
    {
        cool_down_speed += extruder_settings.get<Temperature>("material_extrusion_cool_down_speed");
    }
    const Duration time_to_cooldown_1_degree = 1.0 / cool_down_speed;
    Temperature heat_up_speed = extruder_settings.get<Temperature>("machine_nozzle_heat_up_speed");
    if (during_printing)
    {
        heat_up_speed -= extruder_settings.get<Temperature>("material_extrusion_cool_down_speed");
    }
    const Duration time_to_heatup_1_degree = 1.0 / heat_up_speed;
    result.total_time_window = time_window;
    double outer_temp;
    double limited_time_window;
    if (temp_start < temp_end)
    { 
        double extra_heatup_time = (temp_end - temp_start) * time_to_heatup_1_degree;
        result.cooling_time = 0;
        limited_time_window = time_window - extra_heatup_time;
        outer_temp = temp_end;
    }
    else
    {
        double extra_cooldown_time = (temp_start - temp_end) * time_to_cooldown_1_degree;
        result.cooling_time = extra_cooldown_time;
        limited_time_window = time_window - extra_cooldown_time;
        outer_temp = temp_start;
    }
    if (limited_time_window < 0.0)
    {
        result.cooling_time = 0.0;
        result.highest_temperature = std::max(temp_start, temp_end);
        return result;
    }
    double time_ratio_cooldown_heatup = time_to_cooldown_1_degree / time_to_heatup_1_degree;
    double cool_down_time = self.getTimeToGoFromTempToTemp(extruder, temp_mid, outer_temp, during_printing);
    double time_needed_to_reach_temp1 = cool_down_time * (1.0 + time_ratio_cooldown_heatup);
    if (time_needed_to_reach_temp1 < limited_time_window)
    {
        result.cooling_time += cool_down_time;
        result.highest_temperature = temp_mid;
    }
    else
    {
        result.cooling_time += limited_time_window * time_to_heatup_1_degree / (time_to_cooldown_1_degree + time_to_heatup_1_degree);
        result.highest_temperature = std::min(temp_mid, temp_end + result.cooling_time / time_to_cooldown_1_degree);
    }
    if (result.cooling_time > time_window || result.cooling_time < 0.0)
    {
    }
    return result;
}
} // namespace n4

//= cura::FlowTempGraph::getTemp
namespace n5
{
using Datum = cura::FlowTempGraph::Datum;
double r5(const cura::FlowTempGraph& self, const double flow, const Temperature material_print_temperature, const bool flow_dependent_temperature)
{
    if (! flow_dependent_temperature || self.data_.size() == 0)
    {
        return material_print_temperature;
    }
    if (self.data_.size() == 1)
    {
        return self.data_.front().temp_;
    }
    if (flow < self.data_.front().flow_)
    {
        return self.data_.front().temp_;
    }
    const Datum* last_datum = &self.data_.front();
    for (unsigned int datum_idx = 1; datum_idx < self.data_.size(); datum_idx++)
    {
        const Datum& datum = self.data_[datum_idx];
        if (datum.flow_ >= flow)
        {
            return last_datum->temp_ + Temperature((datum.temp_ - last_datum->temp_) * (flow - last_datum->flow_) / (datum.flow_ - last_datum->flow_));
        }
        last_datum = &datum;
    }
    return self.data_.back().temp_;
}
} // namespace n5

//= cura::FlowTempGraph::Datum::Datum
void r6(cura::FlowTempGraph::Datum& self, const double flow, const Temperature temp)
{
member(self.flow_) = flow;
member(self.temp_) = temp;
}

//= cura::NozzleTempInsert::write
void r7(cura::NozzleTempInsert& self, GCodeExport& gcode)
{
    gcode.writeTemperatureCommand(self.extruder, self.temperature, self.wait);
}

//= cura::NozzleTempInsert::operator<=>
std::partial_ordering r8(const cura::NozzleTempInsert& self, const NozzleTempInsert& other)
{
    if (self.path_idx == other.path_idx)
    {
        return self.time_after_path_start <=> other.time_after_path_start;
    }
    return self.path_idx <=> other.path_idx;
}

//END
}  // namespace ref
