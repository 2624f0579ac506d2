// What the functions of this unit compute.
#include "timeEstimate.h"
#include <algorithm>
#include <math.h>
#include <stdio.h>
#include <string.h>
#include "settings/Settings.h"
#include "utils/math.h"
namespace cura
{
#define MINIMUM_PLANNER_SPEED 0.05
static inline Velocity maxAllowableSpeed(const Acceleration& acceleration, const Velocity& target_velocity, double distance)
{
    return sqrt(target_velocity * target_velocity - 2 * acceleration * distance);
}
static inline double estimateAccelerationDistance(const Velocity& initial_rate, const Velocity& target_rate, const Acceleration& acceleration)
{
    if (acceleration == 0)
    {
        return 0.0;
    }
    return (square(target_rate) - square(initial_rate)) / (2.0 * acceleration);
}
static inline double intersectionDistance(const Velocity& initial_rate, const Velocity& final_rate, const Acceleration& acceleration, double distance)
{
    if (acceleration == 0.0)
    {
        return 0.0;
    }
    return (2.0 * acceleration * distance - square(initial_rate) + square(final_rate)) / (4.0 * acceleration);
}
static inline double accelerationTimeFromDistance(const Velocity& initial_feedrate, const Velocity& distance, const Acceleration& acceleration)
{
    double discriminant = square(initial_feedrate) - 2 * acceleration * -distance;
    discriminant = std::max(0.0, discriminant);
    return (-initial_feedrate + sqrt(discriminant)) / acceleration;
}
//= cura::TimeEstimateCalculator::calculateTrapezoidForBlock
void TimeEstimateCalculator::calculateTrapezoidForBlock(Block* block, const Ratio entry_factor, const Ratio exit_factor)
{
    const Velocity initial_feedrate = block->nominal_feedrate * entry_factor;
    const Velocity final_feedrate = block->nominal_feedrate * exit_factor;
    double accelerate_distance = estimateAccelerationDistance(initial_feedrate, block->nominal_feedrate, block->acceleration);
    const double decelerate_distance = estimateAccelerationDistance(block->nominal_feedrate, final_feedrate, -block->acceleration);
    double plateau_distance = block->distance - accelerate_distance - decelerate_distance;
    if (plateau_distance < 0)
    {
        accelerate_distance = intersectionDistance(initial_feedrate, final_feedrate, block->acceleration, block->distance);
        accelerate_distance = std::max(accelerate_distance, 0.0);
        accelerate_distance = std::min(accelerate_distance, block->distance);
        plateau_distance = 0;
    }
    block->accelerate_until = accelerate_distance;
    block->decelerate_after = accelerate_distance + plateau_distance;
    block->initial_feedrate = initial_feedrate;
    block->final_feedrate = final_feedrate;
}
//END
//= cura::TimeEstimateCalculator::plan
void TimeEstimateCalculator::plan(Position newPos, Velocity feedrate, PrintFeatureType feature)
{
    Block block;
    memset(&block, 0, sizeof(block));
    block.feature = feature;
    for (size_t n = 0; n < NUM_AXIS; n++)
    {
        block.delta[n] = newPos[n] - currentPosition[n];
        block.absDelta[n] = std::abs(block.delta[n]);
        block.maxTravel = std::max(block.maxTravel, block.absDelta[n]);
    }
    if (block.maxTravel <= 0)
    {
        return;
    }
    if (feedrate < minimumfeedrate)
    {
        feedrate = minimumfeedrate;
    }
    block.distance = sqrtf(square(block.absDelta[0]) + square(block.absDelta[1]) + square(block.absDelta[2]));
    if (block.distance == 0.0)
    {
        block.distance = block.absDelta[3];
    }
    block.nominal_feedrate = feedrate;
    Position current_feedrate;
    Position current_abs_feedrate;
    Ratio feedrate_factor = 1.0;
    for (size_t n = 0; n < NUM_AXIS; n++)
    {
        current_feedrate[n] = (block.delta[n] * feedrate) / block.distance;
        current_abs_feedrate[n] = std::abs(current_feedrate[n]);
        if (current_abs_feedrate[n] > max_feedrate[n])
        {
            feedrate_factor = std::min(feedrate_factor, Ratio(max_feedrate[n] / current_abs_feedrate[n]));
        }
    }
    if (feedrate_factor < 1.0)
    {
        for (size_t n = 0; n < NUM_AXIS; n++)
        {
            current_feedrate[n] *= feedrate_factor;
            current_abs_feedrate[n] *= feedrate_factor;
        }
        block.nominal_feedrate *= feedrate_factor;
    }
    block.acceleration = acceleration;
    for (size_t n = 0; n < NUM_AXIS; n++)
    {
        if (block.acceleration * (block.absDelta[n] / block.distance) > max_acceleration[n])
        {
            block.acceleration = max_acceleration[n];
        }
    }
    Velocity vmax_junction{ max_xy_jerk / 2.0 };
    Ratio vmax_junction_factor{ 1.0 };
    if (current_abs_feedrate[Z_AXIS] > max_z_jerk / 2.0)
    {
        vmax_junction = std::min(vmax_junction, Velocity{ max_z_jerk / 2.0 });
    }
    if (current_abs_feedrate[E_AXIS] > max_e_jerk / 2.0)
    {
        vmax_junction = std::min(vmax_junction, Velocity{ max_e_jerk / 2.0 });
    }
    vmax_junction = std::min(vmax_junction, block.nominal_feedrate);
    const Velocity safe_speed = vmax_junction;
    if ((blocks.size() > 0) && (previous_nominal_feedrate > 0.0001))
    {
        const Velocity xy_jerk = sqrt(square(current_feedrate[X_AXIS] - previous_feedrate[X_AXIS]) + square(current_feedrate[Y_AXIS] - previous_feedrate[Y_AXIS]));
        vmax_junction = block.nominal_feedrate;
        if (xy_jerk > max_xy_jerk)
        {
            vmax_junction_factor = Ratio(max_xy_jerk / xy_jerk);
        }
        const double z_jerk = std::abs(current_feedrate[Z_AXIS] - previous_feedrate[Z_AXIS]);
        if (z_jerk > max_z_jerk)
        {
            vmax_junction_factor = std::min(vmax_junction_factor, Ratio(max_z_jerk / z_jerk));
        }
        const double e_jerk = std::abs(current_feedrate[E_AXIS] - previous_feedrate[E_AXIS]);
        if (e_jerk > max_e_jerk)
        {
            vmax_junction_factor = std::min(vmax_junction_factor, Ratio(max_e_jerk / e_jerk));
        }
        vmax_junction = std::min(previous_nominal_feedrate, Velocity{ vmax_junction * vmax_junction_factor });
    }
    block.max_entry_speed = vmax_junction;
    const Velocity v_allowable = maxAllowableSpeed(-block.acceleration, MINIMUM_PLANNER_SPEED, block.distance);
    block.entry_speed = std::min(vmax_junction, v_allowable);
    block.nominal_length_flag = block.nominal_feedrate <= v_allowable;
    block.recalculate_flag = true;
    previous_feedrate = current_feedrate;
    previous_nominal_feedrate = block.nominal_feedrate;
    currentPosition = newPos;
    calculateTrapezoidForBlock(&block, Ratio(block.entry_speed / block.nominal_feedrate), Ratio(safe_speed / block.nominal_feedrate));
    blocks.push_back(block);
}
//END
//= cura::TimeEstimateCalculator::calculate
std::vector<Duration> TimeEstimateCalculator::calculate()
{
    reversePass();
    forwardPass();
    recalculateTrapezoids();
    std::vector<Duration> totals(static_cast<unsigned char>(PrintFeatureType::NumPrintFeatureTypes), 0.0);
    totals[static_cast<unsigned char>(PrintFeatureType::NoneType)] = extra_time;
    for (unsigned int n = 0; n < blocks.size(); n++)
    {
        const Block& block = blocks[n];
        const double plateau_distance = block.decelerate_after - block.accelerate_until;
        totals[static_cast<unsigned char>(block.feature)] += accelerationTimeFromDistance(block.initial_feedrate, block.accelerate_until, block.acceleration);
        totals[static_cast<unsigned char>(block.feature)] += plateau_distance / block.nominal_feedrate;
        totals[static_cast<unsigned char>(block.feature)] += accelerationTimeFromDistance(block.final_feedrate, (block.distance - block.decelerate_after), block.acceleration);
    }
    return totals;
}
//END
//= cura::TimeEstimateCalculator::plannerReversePassKernel
void TimeEstimateCalculator::plannerReversePassKernel(Block* previous, Block* current, Block* next)
{
    (void)previous;
    if (! current || ! next)
    {
        return;
    }
    if (current->entry_speed != current->max_entry_speed)
    {
        if ((! current->nominal_length_flag) && (current->max_entry_speed > next->entry_speed))
        {
            current->entry_speed = std::min(current->max_entry_speed, maxAllowableSpeed(-current->acceleration, next->entry_speed, current->distance));
        }
        else
        {
            current->entry_speed = current->max_entry_speed;
        }
        current->recalculate_flag = true;
    }
}
//END
//= cura::TimeEstimateCalculator::plannerForwardPassKernel
void TimeEstimateCalculator::plannerForwardPassKernel(Block* previous, Block* current, Block* next)
{
    (void)next;
    if (! previous)
    {
        return;
    }
    if (! previous->nominal_length_flag)
    {
        if (previous->entry_speed < current->entry_speed)
        {
            const Velocity entry_speed = std::min(current->entry_speed, maxAllowableSpeed(-previous->acceleration, previous->entry_speed, previous->distance));
            if (current->entry_speed != entry_speed)
            {
                current->entry_speed = entry_speed;
                current->recalculate_flag = true;
            }
        }
    }
}
//END
//= cura::TimeEstimateCalculator::recalculateTrapezoids
void TimeEstimateCalculator::recalculateTrapezoids()
{
    Block* current;
    Block* next = nullptr;
    for (unsigned int n = 0; n < blocks.size(); n++)
    {
        current = next;
        next = &blocks[n];
        if (current)
        {
            if (current->recalculate_flag || next->recalculate_flag)
            {
                calculateTrapezoidForBlock(current, Ratio(current->entry_speed / current->nominal_feedrate), Ratio(next->entry_speed / current->nominal_feedrate));
                current->recalculate_flag = false;
            }
        }
    }
    if (next != nullptr)
    {
        calculateTrapezoidForBlock(next, Ratio(next->entry_speed / next->nominal_feedrate), Ratio(MINIMUM_PLANNER_SPEED / next->nominal_feedrate));
        next->recalculate_flag = false;
    }
}
//END
}
