// What the functions of this unit compute.
#include "LayerPlanBuffer.h"
#include <range/v3/algorithm/find_if.hpp>
#include <spdlog/spdlog.h>
#include "Application.h"
#include "ExtruderTrain.h"
#include "FffProcessor.h"
#include "LayerPlan.h"
#include "Slice.h"
#include "communication/Communication.h"
#include "gcode_export/gcodeExport.h"
namespace cura
{
constexpr Duration LayerPlanBuffer::extra_preheat_time_;
//= cura::LayerPlanBuffer::flush
void LayerPlanBuffer::flush()
{
    if (buffer_.size() > 0)
    {
        insertTempCommands();
    }
    while (! buffer_.empty())
    {
        buffer_.front()->writeGCode(gcode_);
        delete buffer_.front();
        buffer_.pop_front();
    }
}
//END
//= cura::LayerPlanBuffer::handleStandbyTemp
void LayerPlanBuffer::handleStandbyTemp(std::vector<ExtruderPlan*>& extruder_plans, unsigned int extruder_plan_idx, double standby_temp)
{
    ExtruderPlan& extruder_plan = *extruder_plans[extruder_plan_idx];
    size_t extruder = extruder_plan.extruder_nr_;
    for (size_t extruder_plan_before_idx = extruder_plan_idx - 2; int(extruder_plan_before_idx) >= 0; extruder_plan_before_idx--)
    {
        if (extruder_plans[extruder_plan_before_idx]->extruder_nr_ == extruder)
        {
            extruder_plans[extruder_plan_before_idx + 1]->prev_extruder_standby_temp_ = standby_temp;
            return;
        }
    }
    spdlog::warn("Couldn't find previous extruder plan so as to set the standby temperature. Inserting temp command in earliest available layer.");
    ExtruderPlan& earliest_extruder_plan = *extruder_plans[0];
    constexpr bool wait = false;
    earliest_extruder_plan.insertCommand(NozzleTempInsert{ .path_idx = 0, .extruder = extruder, .temperature = standby_temp, .wait = wait });
}
//END
//= cura::LayerPlanBuffer::insertPreheatCommand_multiExtrusion
void LayerPlanBuffer::insertPreheatCommand_multiExtrusion(std::vector<ExtruderPlan*>& extruder_plans, unsigned int extruder_plan_idx)
{
    ExtruderPlan& extruder_plan = *extruder_plans[extruder_plan_idx];
    const size_t extruder = extruder_plan.extruder_nr_;
    const Settings& extruder_settings = Application::getInstance().current_slice_->scene.extruders[extruder].settings_;
    if (! extruder_settings.get<bool>("machine_nozzle_temp_enabled"))
    {
        return;
    }
    double initial_print_temp = extruder_plan.required_start_temperature_;
    Preheat::WarmUpResult heating_time_and_from_temp = computeStandbyTempPlan(extruder_plans, extruder_plan_idx);
    if (heating_time_and_from_temp.total_time_window < extruder_settings.get<Duration>("machine_min_cool_heat_time_window"))
    {
        handleStandbyTemp(extruder_plans, extruder_plan_idx, initial_print_temp);
        return;
    }
    else if (heating_time_and_from_temp.heating_time < heating_time_and_from_temp.total_time_window)
    {
        handleStandbyTemp(extruder_plans, extruder_plan_idx, heating_time_and_from_temp.lowest_temperature);
    }
    double time_before_extruder_plan_to_insert = heating_time_and_from_temp.heating_time;
    for (unsigned int extruder_plan_before_idx = extruder_plan_idx - 1; int(extruder_plan_before_idx) >= 0; extruder_plan_before_idx--)
    {
        ExtruderPlan& extruder_plan_before = *extruder_plans[extruder_plan_before_idx];
        assert(extruder_plan_before.extruder_nr_ != extruder);
        double time_here = extruder_plan_before.estimates_.getTotalTime();
        if (time_here >= time_before_extruder_plan_to_insert)
        {
            insertPreheatCommand(extruder_plan_before, time_before_extruder_plan_to_insert, extruder, initial_print_temp);
            return;
        }
        time_before_extruder_plan_to_insert -= time_here;
    }
    bool wait = false;
    unsigned int path_idx = 0;
    extruder_plans[0]->insertCommand(
        NozzleTempInsert{ .path_idx = path_idx, .extruder = extruder, .temperature = initial_print_temp, .wait = wait });
}
//END
//= cura::LayerPlanBuffer::insertFinalPrintTempCommand
void LayerPlanBuffer::insertFinalPrintTempCommand(std::vector<ExtruderPlan*>& extruder_plans, unsigned int last_extruder_plan_idx)
{
    ExtruderPlan& last_extruder_plan = *extruder_plans[last_extruder_plan_idx];
    const size_t extruder = last_extruder_plan.extruder_nr_;
    const Settings& extruder_settings = Application::getInstance().current_slice_->scene.extruders[extruder].settings_;
    if (! extruder_settings.get<bool>("machine_nozzle_temp_enabled"))
    {
        return;
    }
    const Temperature final_print_temp = extruder_settings.get<Temperature>("material_final_print_temperature");
    if (final_print_temp == 0)
    {
        return;
    }
    double heated_post_travel_time = 0;
    {
        unsigned int path_idx;
        for (path_idx = last_extruder_plan.paths_.size() - 1; int(path_idx) >= 0; path_idx--)
        {
            GCodePath& path = last_extruder_plan.paths_[path_idx];
            if (! path.isTravelPath())
            {
                break;
            }
            heated_post_travel_time += path.estimates.getTotalTime();
        }
    }
    double time_window = 0;
    double weighted_average_extrusion_temp = 0;
    std::optional<double> initial_print_temp;
    {
        double heated_pre_travel_time
            = -1;
        for (unsigned int prev_extruder_plan_idx = last_extruder_plan_idx; (int)prev_extruder_plan_idx >= 0; prev_extruder_plan_idx--)
        {
            ExtruderPlan& prev_extruder_plan = *extruder_plans[prev_extruder_plan_idx];
            if (prev_extruder_plan.extruder_nr_ != extruder)
            {
                break;
            }
            double prev_extruder_plan_time = prev_extruder_plan.estimates_.getTotalTime();
            time_window += prev_extruder_plan_time;
            heated_pre_travel_time = prev_extruder_plan.heated_pre_travel_time_;
            if (prev_extruder_plan.estimates_.getTotalUnretractedTime() > 0)
            {
                weighted_average_extrusion_temp += prev_extruder_plan.extrusion_temperature_.value_or(prev_extruder_plan.required_start_temperature_) * prev_extruder_plan_time;
                initial_print_temp = prev_extruder_plan.required_start_temperature_;
            }
        }
        if (time_window <= 0.0)
        {
            spdlog::warn("Unnecessary extruder switch detected! SliceDataStorage::getExtrudersUsed should probably be updated.");
            return;
        }
        weighted_average_extrusion_temp /= time_window;
        time_window -= heated_pre_travel_time + heated_post_travel_time;
        assert(heated_pre_travel_time != -1 && "heated_pre_travel_time must have been computed; there must have been an extruder plan!");
    }
    if (! initial_print_temp)
    {
        spdlog::warn("Unnecessary extruder switch detected! Discarding final print temperature commands.");
        return;
    }
    assert((time_window >= -0.001 || last_extruder_plan.estimates_.material == 0) && "Time window should always be positive if we actually extrude");
    constexpr bool during_printing = true;
    Preheat::CoolDownResult warm_cool_result
        = preheat_config_.getCoolDownPointAfterWarmUp(time_window, extruder, *initial_print_temp, weighted_average_extrusion_temp, final_print_temp, during_printing);
    double cool_down_time = warm_cool_result.cooling_time;
    assert(cool_down_time >= 0);
    ExtruderPlan* precool_extruder_plan = &last_extruder_plan;
    {
        for (unsigned int precool_extruder_plan_idx = last_extruder_plan_idx; (int)precool_extruder_plan_idx >= 0; precool_extruder_plan_idx--)
        {
            precool_extruder_plan = extruder_plans[precool_extruder_plan_idx];
            if (precool_extruder_plan->extrusion_temperature_command_)
            {
                precool_extruder_plan->inserts_.erase(*precool_extruder_plan->extrusion_temperature_command_);
            }
            double time_here = precool_extruder_plan->estimates_.getTotalTime();
            if (cool_down_time < time_here)
            {
                break;
            }
            cool_down_time -= time_here;
        }
    }
    {
        double extrusion_time_seen = 0;
        unsigned int path_idx;
        for (path_idx = precool_extruder_plan->paths_.size() - 1; int(path_idx) >= 0; path_idx--)
        {
            GCodePath& path = precool_extruder_plan->paths_[path_idx];
            extrusion_time_seen += path.estimates.getTotalTime();
            if (extrusion_time_seen >= cool_down_time)
            {
                break;
            }
        }
        bool wait = false;
        double time_after_path_start = extrusion_time_seen - cool_down_time;
        precool_extruder_plan->insertCommand(
            NozzleTempInsert{ .path_idx = path_idx, .extruder = extruder, .temperature = final_print_temp, .wait = wait, .time_after_path_start = time_after_path_start });
    }
}
//END
//= cura::LayerPlanBuffer::insertTempCommands
void LayerPlanBuffer::insertTempCommands()
{
    if (buffer_.back()->empty())
    {
        return;
    }
    std::vector<ExtruderPlan*> extruder_plans;
    extruder_plans.reserve(buffer_.size() * 2);
    for (LayerPlan* layer_plan : buffer_)
    {
        for (ExtruderPlan& extr_plan : layer_plan->extruder_plans_)
        {
            extruder_plans.push_back(&extr_plan);
        }
    }
    Scene& scene = Application::getInstance().current_slice_->scene;
    LayerPlan& layer_plan = *buffer_.back();
    for (size_t extruder_plan_idx = 0; extruder_plan_idx < layer_plan.extruder_plans_.size(); extruder_plan_idx++)
    {
        const size_t overall_extruder_plan_idx = extruder_plans.size() - layer_plan.extruder_plans_.size() + extruder_plan_idx;
        ExtruderPlan& extruder_plan = layer_plan.extruder_plans_[extruder_plan_idx];
        size_t extruder = extruder_plan.extruder_nr_;
        const Settings& extruder_settings = Application::getInstance().current_slice_->scene.extruders[extruder].settings_;
        Duration time = extruder_plan.estimates_.getTotalUnretractedTime();
        if (time <= 0.0)
        {
            assert(extruder_plan.estimates_.material == 0.0 && "No extrusion time should mean no material usage!");
        }
        Temperature print_temp = preheat_config_.getTemp(extruder, extruder_plan.is_initial_layer_);
        Temperature initial_print_temp = extruder_settings.get<Temperature>("material_initial_print_temperature");
        if (extruder_plan.temperature_factor_ > 0)
        {
            print_temp = print_temp * (1 - extruder_plan.temperature_factor_) + extruder_plan.temperature_factor_ * extruder_settings.get<Temperature>("cool_min_temperature");
            initial_print_temp = std::min(initial_print_temp, print_temp);
        }
        if (initial_print_temp == 0.0
            || extruder_settings.get<bool>("machine_extruders_share_heater")
            || (! extruder_used_in_meshgroup_[extruder] && extruder_settings.get<bool>("prime_blob_enable"))
            || (overall_extruder_plan_idx > 0 && extruder_plans[overall_extruder_plan_idx - 1]->extruder_nr_ == extruder
                && extruder_plans[overall_extruder_plan_idx - 1]->estimates_.getTotalUnretractedTime() > 0.0)
        )
        {
            extruder_plan.required_start_temperature_ = print_temp;
            extruder_used_in_meshgroup_[extruder] = true;
        }
        else
        {
            extruder_plan.required_start_temperature_ = initial_print_temp;
            extruder_plan.extrusion_temperature_ = print_temp;
        }
        assert(extruder_plan.required_start_temperature_ != -1 && "extruder_plan.required_start_temperature should now have been set");
        if (buffer_.size() == 1 && extruder_plan_idx == 0)
        {
            for (size_t extruder_idx = 0; extruder_idx < scene.extruders.size(); extruder_idx++)
            {
                const Settings& other_extruder_settings = Application::getInstance().current_slice_->scene.extruders[extruder_idx].settings_;
                if (scene.current_mesh_group == scene.mesh_groups.begin())
                {
                    if (extruder_idx == extruder)
                    {
                        gcode_.setInitialTemp(extruder_idx, extruder_plan.extrusion_temperature_.value_or(extruder_plan.required_start_temperature_));
                    }
                    else
                    {
                        gcode_.setInitialTemp(extruder_idx, other_extruder_settings.get<Temperature>("material_standby_temperature"));
                    }
                }
                else
                {
                    if (extruder_idx != extruder)
                    {
                        extruder_plan.prev_extruder_standby_temp_ = other_extruder_settings.get<Temperature>("material_standby_temperature");
                    }
                }
            }
            continue;
        }
        insertTempCommands(extruder_plans, overall_extruder_plan_idx);
    }
    for (ExtruderPlan& extruder_plan : layer_plan.extruder_plans_)
    {
        insertInLayerTempCommands(extruder_plan);
    }
}
//END
}
