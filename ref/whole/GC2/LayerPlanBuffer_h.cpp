// What the functions of this unit compute.
#ifndef LAYER_PLAN_BUFFER_H
#define LAYER_PLAN_BUFFER_H
#include <condition_variable>
#include <list>
#include <vector>
#include "Preheat.h"
#include "settings/Settings.h"
#include "settings/types/Duration.h"
namespace cura
{
class LayerPlan;
class ExtruderPlan;
class GCodeExport;
struct LayerIndex;
class LayerPlanBuffer
{
    friend class LayerPlan;
    GCodeExport& gcode_;
    Preheat preheat_config_;
    static constexpr size_t buffer_size_
        = 5;
    static constexpr Duration extra_preheat_time_
        = 1.0_s;
    std::vector<bool> extruder_used_in_meshgroup_;
    std::list<LayerPlan*> buffer_;
    std::mutex buffer_mutex_;
    std::condition_variable buffer_condition_variable_;
public:
//= cura::LayerPlanBuffer::LayerPlanBuffer
    LayerPlanBuffer(GCodeExport& gcode)
        : gcode_(gcode)
        , extruder_used_in_meshgroup_(MAX_EXTRUDERS, false)
    {
    }
//END
    void setPreheatConfig();
    void handle(LayerPlan& layer_plan, GCodeExport& gcode);
    void flush();
    const LayerPlan* getCompletedLayerPlan(const LayerIndex& layer_nr) const;
private:
    LayerPlan* processBuffer();
    void addConnectingTravelMove(LayerPlan* prev_layer, const LayerPlan* newest_layer);
    void processFanSpeedLayerTime();
    void insertPreheatCommand(ExtruderPlan& extruder_plan_before, const Duration time_before_extruder_plan_end, const size_t extruder_nr, const Temperature temp);
    Preheat::WarmUpResult computeStandbyTempPlan(std::vector<ExtruderPlan*>& extruder_plans, unsigned int extruder_plan_idx);
    void insertPreheatCommand_singleExtrusion(ExtruderPlan& prev_extruder_plan, const size_t extruder_nr, const Temperature required_temp);
    void insertPreheatCommand_multiExtrusion(std::vector<ExtruderPlan*>& extruder_plans, unsigned int extruder_plan_idx);
    void insertTempCommands(std::vector<ExtruderPlan*>& extruder_plans, unsigned int extruder_plan_idx);
    void insertInLayerTempCommands(ExtruderPlan& extruder_plan);
    void insertPrintTempCommand(ExtruderPlan& extruder_plan);
    void insertFinalPrintTempCommand(std::vector<ExtruderPlan*>& extruder_plans, unsigned int last_extruder_plan_idx);
    void insertTempCommands();
    void handleStandbyTemp(std::vector<ExtruderPlan*>& extruder_plans, unsigned int extruder_plan_idx, double standby_temp);
};
}
#endif
