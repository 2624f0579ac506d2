// What the functions of this unit compute.
#ifndef TIME_ESTIMATE_H
#define TIME_ESTIMATE_H
#include <stdint.h>
#include <unordered_map>
#include <vector>
#include "PrintFeature.h"
#include "settings/types/Duration.h"
#include "settings/types/Ratio.h"
#include "settings/types/Velocity.h"
namespace cura
{
class Settings;
class TimeEstimateCalculator
{
public:
    constexpr static size_t NUM_AXIS = 4;
    constexpr static size_t X_AXIS = 0;
    constexpr static size_t Y_AXIS = 1;
    constexpr static size_t Z_AXIS = 2;
    constexpr static size_t E_AXIS = 3;
    class Position
    {
    public:
//= cura::TimeEstimateCalculator::Position::Position
        Position()
        {
            for (unsigned int n = 0; n < NUM_AXIS; n++)
                axis[n] = 0;
        }
//END
        Position(double x, double y, double z, double e)
        {
            axis[0] = x;
            axis[1] = y;
            axis[2] = z;
            axis[3] = e;
        }
        double axis[NUM_AXIS];
        double& operator[](const size_t n)
        {
            return axis[n];
        }
    };
    class Block
    {
    public:
        bool recalculate_flag;
        double accelerate_until;
        double decelerate_after;
        Velocity initial_feedrate;
        Velocity final_feedrate;
        Velocity entry_speed;
        Velocity max_entry_speed;
        bool nominal_length_flag;
        Velocity nominal_feedrate;
        double maxTravel;
        double distance;
        Acceleration acceleration;
        Position delta;
        Position absDelta;
        PrintFeatureType feature;
    };
private:
    Velocity max_feedrate[NUM_AXIS] = { 600.0, 600.0, 40.0, 25.0 };
    Velocity minimumfeedrate = 0.01;
    Acceleration acceleration = 3000.0;
    Acceleration max_acceleration[NUM_AXIS] = { 9000.0, 9000.0, 100.0, 10000.0 };
    Velocity max_xy_jerk = 20.0;
    Velocity max_z_jerk = 0.4;
    Velocity max_e_jerk = 5.0;
    Duration extra_time = 0.0;
    Position previous_feedrate;
    Velocity previous_nominal_feedrate;
    Position currentPosition;
    std::vector<Block> blocks;
public:
    void setFirmwareDefaults(const Settings& settings);
    void setPosition(Position newPos);
    void plan(Position newPos, Velocity feedRate, PrintFeatureType feature);
    void addTime(const Duration& time);
    void setAcceleration(const Acceleration& acc);
    void setMaxXyJerk(const Velocity& jerk);
    void reset();
    std::vector<Duration> calculate();
private:
    void reversePass();
    void forwardPass();
    void recalculateTrapezoids();
    void calculateTrapezoidForBlock(Block* block, const Ratio entry_factor, const Ratio exit_factor);
    void plannerReversePassKernel(Block* previous, Block* current, Block* next);
    void plannerForwardPassKernel(Block* previous, Block* current, Block* next);
};
}
#endif
