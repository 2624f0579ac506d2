// What the functions of this unit compute.
#ifndef GEOMETRY_POINT2LL_H
#define GEOMETRY_POINT2LL_H
#define INLINE static inline
#include <cmath>
#include <limits>
#include <numbers>
#include <polyclipping/clipper.hpp>
#include "settings/types/Angle.h"
#include "utils/Coord_t.h"
#include "utils/types/generic.h"
#ifdef __GNUC__
#define DEPRECATED(func) func __attribute__((deprecated))
#elif defined(_MSC_VER)
#define DEPRECATED(func) __declspec(deprecated) func
#else
#pragma message("WARNING: You need to implement DEPRECATED for this compiler")
#define DEPRECATED(func) func
#endif
namespace cura
{
class Point3LL;
using Point2LL = ClipperLib::IntPoint;
#define POINT_MIN std::numeric_limits<ClipperLib::cInt>::min()
#define POINT_MAX std::numeric_limits<ClipperLib::cInt>::max()
static Point2LL no_point(std::numeric_limits<ClipperLib::cInt>::min(), std::numeric_limits<ClipperLib::cInt>::min());
INLINE Point2LL operator-(const Point2LL& p0)
{
    return { -p0.X, -p0.Y };
}
INLINE Point2LL operator+(const Point2LL& p0, const Point2LL& p1)
{
    return { p0.X + p1.X, p0.Y + p1.Y };
}
INLINE Point2LL operator-(const Point2LL& p0, const Point2LL& p1)
{
    return { p0.X - p1.X, p0.Y - p1.Y };
}
INLINE Point2LL operator*(const Point2LL& p0, const coord_t i)
{
    return { p0.X * i, p0.Y * i };
}
//= skip cura::operator*
template<utils::numeric T>
INLINE Point2LL operator*(const Point2LL& p0, const T i)
{
    return { std::llrint(static_cast<T>(p0.X) * i), std::llrint(static_cast<T>(p0.Y) * i) };
}
//END
template<utils::numeric T>
INLINE Point2LL operator*(const T i, const Point2LL& p0)
{
    return p0 * i;
}
INLINE Point2LL operator/(const Point2LL& p0, const coord_t i)
{
    return { p0.X / i, p0.Y / i };
}
INLINE Point2LL operator/(const Point2LL& p0, const Point2LL& p1)
{
    return { p0.X / p1.X, p0.Y / p1.Y };
}
INLINE Point2LL operator%(const Point2LL& p0, const coord_t i)
{
    return { p0.X % i, p0.Y % i };
}
INLINE Point2LL& operator+=(Point2LL& p0, const Point2LL& p1)
{
    p0.X += p1.X;
    p0.Y += p1.Y;
    return p0;
}
INLINE Point2LL& operator-=(Point2LL& p0, const Point2LL& p1)
{
    p0.X -= p1.X;
    p0.Y -= p1.Y;
    return p0;
}
INLINE coord_t vSize2(const Point2LL& p0)
{
    return p0.X * p0.X + p0.Y * p0.Y;
}
INLINE double vSize2f(const Point2LL& p0)
{
    return static_cast<double>(p0.X) * static_cast<double>(p0.X) + static_cast<double>(p0.Y) * static_cast<double>(p0.Y);
}
INLINE bool shorterThen(const Point2LL& p0, const coord_t len)
{
    if (p0.X > len || p0.X < -len)
    {
        return false;
    }
    if (p0.Y > len || p0.Y < -len)
    {
        return false;
    }
    return vSize2(p0) <= len * len;
}
INLINE bool shorterThan(const Point2LL& p0, const coord_t len)
{
    return shorterThen(p0, len);
}
INLINE coord_t vSize(const Point2LL& p0)
{
    return std::llrint(sqrt(static_cast<double>(vSize2(p0))));
}
INLINE coord_t vSizef(const Point2LL& p0)
{
    return std::sqrt(vSize2f(p0));
}
INLINE double vSizeMM(const Point2LL& p0)
{
    double fx = INT2MM(p0.X);
    double fy = INT2MM(p0.Y);
    return std::sqrt(fx * fx + fy * fy);
}
INLINE Point2LL normal(const Point2LL& p0, coord_t length)
{
    const coord_t len{ vSize(p0) };
    if (len < 1)
    {
        return { length, 0 };
    }
    return p0 * length / len;
}
INLINE Point2LL turn90CCW(const Point2LL& p0)
{
    return { -p0.Y, p0.X };
}
INLINE Point2LL rotate(const Point2LL& p0, double angle)
{
    const double cos_component = std::cos(angle);
    const double sin_component = std::sin(angle);
    const auto x = static_cast<double>(p0.X);
    const auto y = static_cast<double>(p0.Y);
    return { std::llrint(cos_component * x - sin_component * y), std::llrint(sin_component * x + cos_component * y) };
}
INLINE coord_t dot(const Point2LL& p0, const Point2LL& p1)
{
    return p0.X * p1.X + p0.Y * p1.Y;
}
INLINE coord_t cross(const Point2LL& p0, const Point2LL& p1)
{
    return p0.X * p1.Y - p0.Y * p1.X;
}
INLINE const Point2LL& make_point(const Point2LL& p)
{
    return p;
}
INLINE const AngleRadians angle_rad(const Point2LL& p)
{
    return std::atan2(p.Y, p.X);
}
INLINE const AngleDegrees angle_deg(const Point2LL& p)
{
    return AngleDegrees(angle_rad(p));
}
Point2LL operator+(const Point2LL& p2, const Point3LL& p3);
Point3LL operator+(const Point3LL& p3, const Point2LL& p2);
Point3LL& operator+=(Point3LL& p3, const Point2LL& p2);
Point3LL operator-(const Point3LL& p3, const Point2LL& p2);
Point3LL& operator-=(Point3LL& p3, const Point2LL& p2);
Point2LL operator-(const Point2LL& p2, const Point3LL& p3);
inline Point2LL lerp(const Point2LL& a, const Point2LL& b, const double t)
{
    return Point2LL(lerp(a.X, b.X, t), lerp(a.Y, b.Y, t));
}
inline bool fuzzy_equal(const Point2LL& a, const Point2LL& b)
{
    return fuzzy_equal(a.X, b.X) && fuzzy_equal(a.Y, b.Y);
}
}
namespace std
{
template<>
struct hash<cura::Point2LL>
{
    size_t operator()(const cura::Point2LL& pp) const noexcept
    {
        static int prime = 31;
        int result = 89;
        result = static_cast<int>(result * prime + pp.X);
        result = static_cast<int>(result * prime + pp.Y);
        return static_cast<size_t>(result);
    }
};
}
namespace ClipperLib
{
//= ClipperLib::operator<
inline bool operator<(const IntPoint& lhs, const IntPoint& rhs)
{
    return lhs.X < rhs.X || (lhs.X == rhs.X && lhs.Y < rhs.Y);
}
//END
}
#endif
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "slicer.h"
#include "infill.h"
#include "infill/LightningTreeNode.h"
#include "utils/PolygonsSegmentIndex.h"
#include "PathOrderOptimizer.h"
//= instance
template ClipperLib::IntPoint cura::operator*<double>(const ClipperLib::IntPoint &, const double);
//END
//= instance
template ClipperLib::IntPoint cura::operator*<float>(const ClipperLib::IntPoint &, const float);
//END
//= instance
template ClipperLib::IntPoint cura::operator*<int>(const ClipperLib::IntPoint &, const int);
//END
//= instance
template ClipperLib::IntPoint cura::operator*<long>(const ClipperLib::IntPoint &, const long);
//END
