// What the functions of this unit compute.
#ifndef ANGLE_H
#define ANGLE_H
#include <cmath>
#include <numbers>
#define TAU (2.0 * std::numbers::pi)
namespace cura
{
class AngleRadians;
class AngleDegrees
{
public:
    AngleDegrees() noexcept = default;
    AngleDegrees(const AngleRadians& value);
    AngleDegrees(double value)
        : value_{ std::fmod(std::fmod(value, 360) + 360, 360) }
    {
    }
    operator double() const
    {
        return value_;
    }
    AngleDegrees operator+(const AngleDegrees& other) const
    {
        return std::fmod(std::fmod(value_ + other.value_, 360) + 360, 360);
    }
//= cura::AngleDegrees::operator+
    template<class T>
    AngleDegrees operator+(const T& other) const
    {
        return operator+(AngleDegrees(static_cast<double>(other)));
    }
//END
    AngleDegrees& operator+=(const AngleDegrees& other)
    {
        value_ = std::fmod(std::fmod(value_ + other.value_, 360) + 360, 360);
        return *this;
    }
    AngleDegrees operator-(const AngleDegrees& other) const
    {
        return std::fmod(std::fmod(value_ - other.value_, 360) + 360, 360);
    }
//= skip cura::AngleDegrees::operator-
    template<class T>
    AngleDegrees operator-(const T& other) const
    {
        return operator-(AngleDegrees(static_cast<double>(other)));
    }
//END
    AngleDegrees& operator-=(const AngleDegrees& other)
    {
        value_ = std::fmod(std::fmod(value_ - other.value_, 360) + 360, 360);
        return *this;
    }
    double value_{ 0 };
};
class AngleRadians
{
public:
    AngleRadians() noexcept = default;
    AngleRadians(const AngleDegrees& value);
    AngleRadians(double value)
        : value_(std::fmod(std::fmod(value, TAU) + TAU, TAU))
    {
    }
    operator double() const
    {
        return value_;
    }
    AngleRadians operator+(const AngleRadians& other) const
    {
        return std::fmod(std::fmod(value_ + other.value_, TAU) + TAU, TAU);
    }
    AngleRadians& operator+=(const AngleRadians& other)
    {
        value_ = std::fmod(std::fmod(value_ + other.value_, TAU) + TAU, TAU);
        return *this;
    }
    AngleRadians operator-(const AngleRadians& other) const
    {
        return std::fmod(std::fmod(value_ - other.value_, TAU) + TAU, TAU);
    }
    AngleRadians& operator-=(const AngleRadians& other)
    {
        value_ = std::fmod(std::fmod(value_ - other.value_, TAU) + TAU, TAU);
        return *this;
    }
    double value_{ 0 };
};
inline AngleDegrees::AngleDegrees(const AngleRadians& value)
    : value_(value.value_ * 360 / TAU)
{
}
inline AngleRadians::AngleRadians(const AngleDegrees& value)
    : value_(value.value_ * TAU / 360.0)
{
}
inline double boundedTan(const AngleRadians& angle)
{
    return std::tan(std::min(static_cast<double>(angle), std::numbers::pi / 2.0 - 0.001));
}
}
#endif
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "slicer.h"
#include "infill.h"
#include "infill/LightningTreeNode.h"
#include "utils/PolygonsSegmentIndex.h"
#include "PathOrderOptimizer.h"
//= instance
template cura::AngleDegrees cura::AngleDegrees::operator+<double>(const double &) const;
//END
//= instance
template cura::AngleDegrees cura::AngleDegrees::operator+<int>(const int &) const;
//END
