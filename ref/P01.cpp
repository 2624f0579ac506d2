// Progress.
#include <algorithm>
#include <array>
#include <unordered_set>
#include <unordered_map>
#include <set>
#include <map>
#include <list>
#include <vector>
#include <deque>
#include <memory>
#include <numeric>
#include <optional>
#include <functional>
#include <string>
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "geometry/Polygon.h"
#include "geometry/OpenPolyline.h"
#include "geometry/SingleShape.h"
#include "geometry/MixedLinesSet.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "raft.h"
#include "Application.h"
#include "communication/Communication.h"
#include "progress/Progress.h"
#include "progress/ProgressEstimator.h"
#include "progress/ProgressStageEstimator.h"
#include "utils/gettime.h"
#include <algorithm>
#include <array>
#include <cassert>
#include <optional>
#include <range/v3/view/enumerate.hpp>
#include <spdlog/spdlog.h>
#include <string>
#include <string_view>
#include <vector>
#include "progress/Progress.h"
#include "progress/ProgressEstimator.h"
#include "progress/ProgressEstimatorLinear.h"
#include "progress/ProgressStageEstimator.h"
#include "ref.h"

namespace ref
{
using namespace cura;

//= cura::Progress::calcOverallProgress
namespace n1
{
using Stage = cura::Progress::Stage;
double r1(Stage stage, double stage_progress)
{
    stage_progress = std::clamp(stage_progress, 0.0, 1.0);
    return (cura::Progress::accumulated_times.at(static_cast<size_t>(stage)) + stage_progress * cura::Progress::times.at(static_cast<size_t>(stage))) / cura::Progress::total_timing;
}
} // namespace n1

//= cura::Progress::init
namespace n2
{
void r2()
{
    double accumulated_time = 0;
    for (size_t stage = 0; stage < N_PROGRESS_STAGES; stage++)
    {
        cura::Progress::accumulated_times.at(static_cast<size_t>(stage)) = accumulated_time;
        accumulated_time += cura::Progress::times.at(static_cast<size_t>(stage));
    }
    cura::Progress::total_timing = accumulated_time;
}
} // namespace n2

//= cura::Progress::messageProgress
namespace n3
{
using Stage = cura::Progress::Stage;
void r3(Progress::Stage stage, int progress_in_stage, int progress_in_stage_max)
{
    double percentage = cura::Progress::calcOverallProgress(stage, static_cast<double>(progress_in_stage / static_cast<double>(progress_in_stage_max)));
    Application::getInstance().communication_->sendProgress(percentage);
}
} // namespace n3

//= cura::Progress::messageProgressStage
namespace n4
{
using Stage = cura::Progress::Stage;
void r4(Progress::Stage stage, TimeKeeper* time_keeper)
{
    if (time_keeper != nullptr)
    {
        if (static_cast<int>(stage) > 0)
        {
        }
        else
        {
            time_keeper->restart();
        }
        if (static_cast<int>(stage) < static_cast<int>(Stage::FINISH))
        {
        }
    }
}
} // namespace n4

//= cura::Progress::messageProgressLayer
namespace n5
{
using Stage = cura::Progress::Stage;
void r5(LayerIndex layer_nr, size_t total_layers, double total_time, const TimeKeeper::RegisteredTimes& stages, double skip_threshold)
{
    if (total_time < skip_threshold)
    {
        if (! cura::Progress::first_skipped_layer)
        {
            cura::Progress::first_skipped_layer = layer_nr;
        }
    }
    else
    {
        if (cura::Progress::first_skipped_layer)
        {
            cura::Progress::first_skipped_layer.reset();
        }
        cura::Progress::messageProgress(Stage::EXPORT, std::max(layer_nr.value, LayerIndex::value_type(0)) + 1, total_layers);
        size_t padding = 0;
        auto iterator_max_size = std::max_element(
            stages.begin(),
            stages.end(),
            [](const TimeKeeper::RegisteredTime& time1, const TimeKeeper::RegisteredTime& time2)
            {
                return time1.stage.size() < time2.stage.size();
            });
        if (iterator_max_size != stages.end())
        {
            padding = iterator_max_size->stage.size();
            for (const auto& [index, time] : stages | ranges::views::enumerate)
            {
            }
        }
    }
}
} // namespace n5

//= cura::ProgressStageEstimator::ProgressStageEstimator
void r6(cura::ProgressStageEstimator& self, std::vector<double>& relative_time_estimates)
{
        member(self.total_estimated_time_) = 0;
        member(self.accumulated_estimate_) = 0;
        member(self.current_stage_idx_) = -1;
    self.stages_.reserve(relative_time_estimates.size());
    for (double relative_estimated_time : relative_time_estimates)
    {
        self.stages_.emplace_back(relative_estimated_time);
        self.total_estimated_time_ += relative_estimated_time;
    }
}

//= cura::ProgressStageEstimator::progress
namespace n7
{
using ProgressStage = cura::ProgressStageEstimator::ProgressStage;
double r7(cura::ProgressStageEstimator& self, int current_step)
{
    ProgressStage& current_stage = self.stages_[self.current_stage_idx_];
    return (self.accumulated_estimate_ + current_stage.stage_->progress(current_step) * current_stage.relative_estimated_time_) / self.total_estimated_time_;
}
} // namespace n7

//= cura::ProgressStageEstimator::nextStage
namespace n8
{
using ProgressStage = cura::ProgressStageEstimator::ProgressStage;
void r8(cura::ProgressStageEstimator& self, ProgressEstimator* stage)
{
    if (self.current_stage_idx_ >= int(self.stages_.size()) - 1)
    {
        return;
    }
    if (self.current_stage_idx_ >= 0)
    {
        ProgressStage& current_stage = self.stages_[self.current_stage_idx_];
        self.accumulated_estimate_ += current_stage.relative_estimated_time_;
    }
    self.current_stage_idx_++;
    self.stages_[self.current_stage_idx_].stage_ = stage;
}
} // namespace n8

//= cura::ProgressEstimatorLinear::ProgressEstimatorLinear
void r9(cura::ProgressEstimatorLinear& self, unsigned int total_steps)
{
    member(self.total_steps_) = total_steps;
}

//= cura::ProgressEstimatorLinear::progress
double r10(cura::ProgressEstimatorLinear& self, int current_step)
{
    return double(current_step) / double(self.total_steps_);
}

//= cura::ProgressStageEstimator::ProgressStage::ProgressStage
void r11(cura::ProgressStageEstimator::ProgressStage& self, double relative_estimated_time)
{
member(self.relative_estimated_time_) = relative_estimated_time;
member(self.stage_) = nullptr;
}

//END
}  // namespace ref
