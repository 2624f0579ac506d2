// Time estimates.
#include <algorithm>
#include <array>
#include <unordered_set>
#include <unordered_map>
#include <set>
#include <map>
#include <list>
#include <vector>
#include <deque>
#include <memory>
#include <numeric>
#include <optional>
#include <functional>
#include <string>
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "geometry/Polygon.h"
#include "geometry/OpenPolyline.h"
#include "geometry/SingleShape.h"
#include "geometry/MixedLinesSet.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "raft.h"
#include "PrintFeature.h"
#include "pathPlanning/SpeedDerivatives.h"
#include "settings/Settings.h"
#include "settings/types/Duration.h"
#include "settings/types/Ratio.h"
#include "settings/types/Velocity.h"
#include "timeEstimate.h"
#include "utils/math.h"
#include <algorithm>
#include <math.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <unordered_map>
#include <vector>
#include "timeEstimate.h"
#include "pathPlanning/TimeMaterialEstimates.h"
#include "ref.h"

namespace ref
{
using namespace cura;

//= cura::TimeEstimateCalculator::setFirmwareDefaults
void r1(cura::TimeEstimateCalculator& self, const Settings& settings)
{
    self.max_feedrate[self.X_AXIS] = settings.get<Velocity>("machine_max_feedrate_x");
    self.max_feedrate[self.Y_AXIS] = settings.get<Velocity>("machine_max_feedrate_y");
    self.max_feedrate[self.Z_AXIS] = settings.get<Velocity>("machine_max_feedrate_z");
    self.max_feedrate[self.E_AXIS] = settings.get<Velocity>("machine_max_feedrate_e");
    self.max_acceleration[self.X_AXIS] = settings.get<Acceleration>("machine_max_acceleration_x");
    self.max_acceleration[self.Y_AXIS] = settings.get<Acceleration>("machine_max_acceleration_y");
    self.max_acceleration[self.Z_AXIS] = settings.get<Acceleration>("machine_max_acceleration_z");
    self.max_acceleration[self.E_AXIS] = settings.get<Acceleration>("machine_max_acceleration_e");
    self.max_xy_jerk = settings.get<Velocity>("machine_max_jerk_xy");
    self.max_z_jerk = settings.get<Velocity>("machine_max_jerk_z");
    self.max_e_jerk = settings.get<Velocity>("machine_max_jerk_e");
    self.minimumfeedrate = settings.get<Velocity>("machine_minimum_feedrate");
    self.acceleration = settings.get<Acceleration>("machine_acceleration");
}

//= cura::TimeEstimateCalculator::setPosition
namespace n2
{
using Position = cura::TimeEstimateCalculator::Position;
void r2(cura::TimeEstimateCalculator& self, Position newPos)
{
    self.currentPosition = newPos;
}
} // namespace n2

//= cura::TimeEstimateCalculator::addTime
void r3(cura::TimeEstimateCalculator& self, const Duration& time)
{
    self.extra_time += time;
}

//= cura::TimeEstimateCalculator::setAcceleration
void r4(cura::TimeEstimateCalculator& self, const Acceleration& acc)
{
    self.acceleration = acc;
}

//= cura::TimeEstimateCalculator::setMaxXyJerk
void r5(cura::TimeEstimateCalculator& self, const Velocity& jerk)
{
    self.max_xy_jerk = jerk;
}

//= cura::TimeEstimateCalculator::reset
void r6(cura::TimeEstimateCalculator& self)
{
    self.extra_time = 0.0;
    self.blocks.clear();
}

//= cura::maxAllowableSpeed
Velocity r7(const Acceleration& acceleration, const Velocity& target_velocity, double distance)
{
    return sqrt(target_velocity * target_velocity - 2 * acceleration * distance);
}

//= cura::estimateAccelerationDistance
double r8(const Velocity& initial_rate, const Velocity& target_rate, const Acceleration& acceleration)
{
    if (acceleration == 0)
    {
        return 0.0;
    }
    return (square(target_rate) - square(initial_rate)) / (2.0 * acceleration);
}

//= cura::intersectionDistance
double r9(const Velocity& initial_rate, const Velocity& final_rate, const Acceleration& acceleration, double distance)
{
    if (acceleration == 0.0)
    {
        return 0.0;
    }
    return (2.0 * acceleration * distance - square(initial_rate) + square(final_rate)) / (4.0 * acceleration);
}

//= cura::accelerationTimeFromDistance
double r10(const Velocity& initial_feedrate, const Velocity& distance, const Acceleration& acceleration)
{
    double discriminant = square(initial_feedrate) - 2 * acceleration * -distance;
    discriminant = std::max(0.0, discriminant);
    return (-initial_feedrate + sqrt(discriminant)) / acceleration;
}

//= cura::TimeEstimateCalculator::reversePass
namespace n15
{
using Block = cura::TimeEstimateCalculator::Block;
void r15(cura::TimeEstimateCalculator& self)
{
    Block* block[3] = { nullptr, nullptr, nullptr };
    for (size_t n = self.blocks.size() - 1; int(n) >= 0; n--)
    {
        block[2] = block[1];
        block[1] = block[0];
        block[0] = &self.blocks[n];
        self.plannerReversePassKernel(block[0], block[1], block[2]);
    }
}
} // namespace n15

//= cura::TimeEstimateCalculator::forwardPass
namespace n17
{
using Block = cura::TimeEstimateCalculator::Block;
void r17(cura::TimeEstimateCalculator& self)
{
    Block* block[3] = { nullptr, nullptr, nullptr };
    for (size_t n = 0; n < self.blocks.size(); n++)
    {
        block[0] = block[1];
        block[1] = block[2];
        block[2] = &self.blocks[n];
        self.plannerForwardPassKernel(block[0], block[1], block[2]);
    }
    self.plannerForwardPassKernel(block[1], block[2], nullptr);
}
} // namespace n17

//= cura::TimeEstimateCalculator::Position::Position
void r20(cura::TimeEstimateCalculator::Position& self, double x, double y, double z, double e)
{
    self.axis[0] = x;
    self.axis[1] = y;
    self.axis[2] = z;
    self.axis[3] = e;
}

//= cura::TimeEstimateCalculator::Position::operator[]
double& r21(cura::TimeEstimateCalculator::Position& self, const size_t n)
{
    return self.axis[n];
}

//= cura::SpeedDerivatives::smoothSpeed
void r22(cura::SpeedDerivatives& self, const SpeedDerivatives& first_layer_config, const LayerIndex layer_nr, const LayerIndex max_speed_layer_nr)
{
    const auto max_speed_layer = static_cast<double>(max_speed_layer_nr);
    const auto first_layer_speed = std::min(self.speed, first_layer_config.speed);
    const auto first_layer_acceleration = std::min(self.acceleration, first_layer_config.acceleration);
    const auto first_layer_jerk = std::min(self.jerk, first_layer_config.jerk);
    self.speed = (self.speed * static_cast<double>(layer_nr)) / max_speed_layer + (first_layer_speed * (max_speed_layer - static_cast<double>(layer_nr)) / max_speed_layer);
    self.acceleration
        = (self.acceleration * static_cast<double>(layer_nr)) / max_speed_layer + (first_layer_acceleration * (max_speed_layer - static_cast<double>(layer_nr)) / max_speed_layer);
    self.jerk = (self.jerk * static_cast<double>(layer_nr)) / max_speed_layer + (first_layer_jerk * (max_speed_layer - static_cast<double>(layer_nr)) / max_speed_layer);
}

//= cura::TimeMaterialEstimates::operator+=
TimeMaterialEstimates& r23(cura::TimeMaterialEstimates& self, const TimeMaterialEstimates& other)
{
    self.extrude_time += other.extrude_time;
    self.extrude_time_at_slowest_path_speed += other.extrude_time_at_slowest_path_speed;
    self.extrude_time_at_minimum_speed += other.extrude_time_at_minimum_speed;
    self.unretracted_travel_time += other.unretracted_travel_time;
    self.retracted_travel_time += other.retracted_travel_time;
    self.material += other.material;
    return self;
}

//= cura::TimeMaterialEstimates::operator-=
TimeMaterialEstimates& r24(cura::TimeMaterialEstimates& self, const TimeMaterialEstimates& other)
{
    self.extrude_time -= other.extrude_time;
    self.extrude_time_at_slowest_path_speed -= other.extrude_time_at_slowest_path_speed;
    self.extrude_time_at_minimum_speed -= other.extrude_time_at_minimum_speed;
    self.unretracted_travel_time -= other.unretracted_travel_time;
    self.retracted_travel_time -= other.retracted_travel_time;
    self.material -= other.material;
    return self;
}

//= cura::TimeMaterialEstimates::operator+
TimeMaterialEstimates r25(const cura::TimeMaterialEstimates& self, const TimeMaterialEstimates& other)
{
    return { .extrude_time = self.extrude_time + other.extrude_time,
             .unretracted_travel_time = self.unretracted_travel_time + other.unretracted_travel_time,
             .retracted_travel_time = self.retracted_travel_time + other.retracted_travel_time,
             .material = self.material + other.material,
             .extrude_time_at_slowest_path_speed = self.extrude_time_at_slowest_path_speed + other.extrude_time_at_slowest_path_speed,
             .extrude_time_at_minimum_speed = self.extrude_time_at_minimum_speed + other.extrude_time_at_minimum_speed };
};

//= cura::TimeMaterialEstimates::operator-
TimeMaterialEstimates r26(const cura::TimeMaterialEstimates& self, const TimeMaterialEstimates& other)
{
    return { .extrude_time = self.extrude_time - other.extrude_time,
             .unretracted_travel_time = self.unretracted_travel_time - other.unretracted_travel_time,
             .retracted_travel_time = self.retracted_travel_time - other.retracted_travel_time,
             .material = self.material - other.material,
             .extrude_time_at_slowest_path_speed = self.extrude_time_at_slowest_path_speed - other.extrude_time_at_slowest_path_speed,
             .extrude_time_at_minimum_speed = self.extrude_time_at_minimum_speed - other.extrude_time_at_minimum_speed };
};

//= cura::TimeMaterialEstimates::reset
void r27(cura::TimeMaterialEstimates& self)
{
    self = TimeMaterialEstimates{};
}

//= cura::TimeMaterialEstimates::getTotalTime
auto r28(const cura::TimeMaterialEstimates& self)
{
    return self.extrude_time + self.unretracted_travel_time + self.retracted_travel_time;
}

//= cura::TimeMaterialEstimates::getTotalUnretractedTime
auto r29(const cura::TimeMaterialEstimates& self)
{
    return self.extrude_time + self.unretracted_travel_time;
}

//= cura::TimeMaterialEstimates::getTravelTime
auto r30(const cura::TimeMaterialEstimates& self)
{
    return self.retracted_travel_time + self.unretracted_travel_time;
}

//END
}  // namespace ref
