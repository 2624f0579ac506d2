// Plane and space geometry primitives.
#include <algorithm>
#include <array>
#include <unordered_set>
#include <unordered_map>
#include <set>
#include <map>
#include <list>
#include <vector>
#include <deque>
#include <memory>
#include <numeric>
#include <optional>
#include <functional>
#include <string>
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "geometry/Polygon.h"
#include "geometry/OpenPolyline.h"
#include "geometry/SingleShape.h"
#include "geometry/MixedLinesSet.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "raft.h"
#include "geometry/Point2LL.h"
#include "geometry/Point3LL.h"
#include "geometry/Point3Matrix.h"
#include "geometry/PointMatrix.h"
#include "settings/types/Angle.h"
#include "settings/types/Ratio.h"
#include "utils/Coord_t.h"
#include "utils/Matrix4x3D.h"
#include "utils/PlanarPolygon3LL.h"
#include "utils/Point3D.h"
#include "utils/Segment3LL.h"
#include "utils/linearAlg2D.h"
#include "utils/math.h"
#include "utils/types/generic.h"
#include "utils/types/numeric_facade.h"
#include <algorithm> // swap
#include <array>
#include <cassert>
#include <cmath>
#include <cmath> // atan2
#include <cmath> //For fmod.
#include <cmath> //For sqrt.
#include <compare>
#include <cstdint>
#include <fmt/format.h>
#include <functional>
#include <iostream> //Auto-serialization.
#include <limits>
#include <limits> //For numeric_limits::min and max.
#include <math.h>
#include <numbers>
#include <optional>
#include <ostream>
#include <polyclipping/clipper.hpp>
#include <range/v3/algorithm/max.hpp>
#include <range/v3/algorithm/min.hpp>
#include <range/v3/algorithm/minmax_element.hpp>
#include <range/v3/view/transform.hpp>
#include <stdint.h>
#include <type_traits> // for operations on any arithmetic number type
#include "utils/linearAlg2D.h"
#include "utils/math.h"
#include "geometry/Point2D.h"
#include "geometry/Point2LL.h"
#include "geometry/Point3LL.h"
#include "geometry/Point3Matrix.h"
#include "utils/Coord_t.h"
#include "utils/Point2F.h"
#include "utils/Point3D.h"
#include "utils/Point3F.h"
#include "utils/Segment3LL.h"
#include "settings/types/Angle.h"
#include "settings/types/Duration.h"
#include "settings/types/LayerIndex.h"
#include "settings/types/Ratio.h"
#include "settings/types/Temperature.h"
#include "settings/types/Velocity.h"
#include "ref.h"

namespace ref
{
using namespace cura;

//= cura::LinearAlg2D::getAngleLeft
double r1(const Point2LL& a, const Point2LL& b, const Point2LL& c)
{
    const Point2LL ba = a - b;
    const Point2LL bc = c - b;
    const coord_t dott = dot(ba, bc); 
    const coord_t det = ba.X * bc.Y - ba.Y * bc.X; 
    if (det == 0)
    {
        if ((ba.X != 0 && (ba.X > 0) == (bc.X > 0)) || (ba.X == 0 && (ba.Y > 0) == (bc.Y > 0)))
        {
            return 0; 
        }
        else
        {
            return std::numbers::pi; 
        }
    }
    const double angle = -atan2(det, dott); 
    if (angle >= 0)
    {
        return angle;
    }
    else
    {
        return std::numbers::pi * 2 + angle;
    }
}

//= cura::LinearAlg2D::getPointOnLineWithDist
bool r2(const Point2LL& p, const Point2LL& a, const Point2LL& b, const coord_t dist, Point2LL& result)
{
    const Point2LL ab = b - a;
    const coord_t ab_size = vSize(ab);
    const Point2LL ap = p - a;
    const coord_t ax_size = (ab_size < 50) ? dot(normal(ab, 1000), ap) / 1000 : dot(ab, ap) / ab_size;
    const coord_t ap_size2 = vSize2(ap);
    const coord_t px_size = sqrt(std::max(coord_t(0), ap_size2 - ax_size * ax_size));
    if (px_size > dist)
    {
        return false;
    }
    const coord_t xr_size = sqrt(dist * dist - px_size * px_size);
    if (ax_size <= 0)
    { 
        const coord_t ar_size = xr_size + ax_size;
        if (ar_size < 0 || ar_size > ab_size)
        { 
            return false;
        }
        else
        {
            result = a + normal(ab, ar_size);
            return true;
        }
    }
    else if (ax_size >= ab_size)
    { 
        const coord_t ar_size = ax_size - xr_size;
        if (ar_size < 0 || ar_size > ab_size)
        { 
            return false;
        }
        else
        {
            result = a + normal(ab, ar_size);
            return true;
        }
    }
    else 
    { 
        const coord_t ar1_size = ax_size - xr_size;
        if (ar1_size >= 0)
        {
            result = a + normal(ab, ar1_size);
            return true;
        }
        const coord_t ar2_size = ax_size + xr_size;
        if (ar2_size < ab_size)
        {
            result = a + normal(ab, ar2_size);
            return true;
        }
        return false;
    }
}

//= cura::LinearAlg2D::getClosestConnection
std::pair<Point2LL, Point2LL> r3(Point2LL a1, Point2LL a2, Point2LL b1, Point2LL b2)
{
    Point2LL b1_on_a = cura::LinearAlg2D::getClosestOnLineSegment(b1, a1, a2);
    coord_t b1_on_a_dist2 = vSize2(b1_on_a - b1);
    Point2LL b2_on_a = cura::LinearAlg2D::getClosestOnLineSegment(b2, a1, a2);
    coord_t b2_on_a_dist2 = vSize2(b2_on_a - b2);
    Point2LL a1_on_b = cura::LinearAlg2D::getClosestOnLineSegment(a1, b1, b2);
    coord_t a1_on_b_dist2 = vSize2(a1_on_b - a1);
    Point2LL a2_on_b = cura::LinearAlg2D::getClosestOnLineSegment(a1, b1, b2);
    coord_t a2_on_b_dist2 = vSize2(a2_on_b - a2);
    if (b1_on_a_dist2 < b2_on_a_dist2 && b1_on_a_dist2 < a1_on_b_dist2 && b1_on_a_dist2 < a2_on_b_dist2)
    {
        return std::make_pair(b1_on_a, b1);
    }
    else if (b2_on_a_dist2 < a1_on_b_dist2 && b2_on_a_dist2 < a2_on_b_dist2)
    {
        return std::make_pair(b2_on_a, b2);
    }
    else if (a1_on_b_dist2 < a2_on_b_dist2)
    {
        return std::make_pair(a1, a1_on_b);
    }
    else
    {
        return std::make_pair(a2, a2_on_b);
    }
}

//= cura::LinearAlg2D::lineSegmentsCollide
bool r4(const Point2LL& a_from_transformed, const Point2LL& a_to_transformed, Point2LL b_from_transformed, Point2LL b_to_transformed)
{
    if ((b_from_transformed.Y >= a_from_transformed.Y && b_to_transformed.Y <= a_from_transformed.Y)
        || (b_to_transformed.Y >= a_from_transformed.Y && b_from_transformed.Y <= a_from_transformed.Y))
    {
        if (b_to_transformed.Y == b_from_transformed.Y)
        {
            if (b_to_transformed.X < b_from_transformed.X)
            {
                std::swap(b_to_transformed.X, b_from_transformed.X);
            }
            if (b_from_transformed.X > a_to_transformed.X)
            {
                return false;
            }
            if (b_to_transformed.X < a_from_transformed.X)
            {
                return false;
            }
            return true;
        }
        else
        {
            const coord_t x
                = b_from_transformed.X + (b_to_transformed.X - b_from_transformed.X) * (a_from_transformed.Y - b_from_transformed.Y) / (b_to_transformed.Y - b_from_transformed.Y);
            if (x >= a_from_transformed.X && x <= a_to_transformed.X)
            {
                return true;
            }
        }
    }
    return false;
}

//= cura::LinearAlg2D::getDist2FromLine
coord_t r5(const Point2LL& p, const Point2LL& a, const Point2LL& b)
{
    const auto dist = cura::LinearAlg2D::getDistFromLine(p, a, b);
    return dist * dist;
}

//= cura::LinearAlg2D::isInsideCorner
bool r6(const Point2LL a, const Point2LL b, const Point2LL c, const Point2LL query_point)
{
    constexpr coord_t normal_length = 10000; 
    const Point2LL ba = normal(a - b, normal_length);
    const Point2LL bc = normal(c - b, normal_length);
    const Point2LL bq = query_point - b;
    const Point2LL perpendicular = turn90CCW(bq); 
    const coord_t project_a_perpendicular = dot(ba, perpendicular); 
    const coord_t project_c_perpendicular = dot(bc, perpendicular); 
    if ((project_a_perpendicular > 0) != (project_c_perpendicular > 0)) 
    {
        return project_a_perpendicular > 0; 
    }
    else 
    {
        const coord_t project_a_parallel = dot(ba, bq); 
        const coord_t project_c_parallel = dot(bc, bq);
        return (project_c_parallel < project_a_parallel) == (project_a_perpendicular > 0);
    }
}

//= cura::LinearAlg2D::getDistFromLine
coord_t r7(const Point2LL& p, const Point2LL& a, const Point2LL& b)
{
    const Point2LL vab = b - a;
    const Point2LL vap = p - a;
    const double ab_size = vSize(vab);
    if (ab_size == 0) 
    {
        return vSize(vap);
    }
    const coord_t area_times_two = std::abs((p.X - b.X) * (p.Y - a.Y) + (a.X - p.X) * (p.Y - b.Y)); 
    const coord_t px_size = area_times_two / ab_size;
    return px_size;
}

//= cura::LinearAlg2D::getBisectorVector
Point2LL r8(const Point2LL& intersect, const Point2LL& a, const Point2LL& b, const coord_t vec_len)
{
    const auto a0 = a - intersect;
    const auto b0 = b - intersect;
    return (((a0 * vec_len) / std::max(1LL, vSize(a0))) + ((b0 * vec_len) / std::max(1LL, vSize(b0)))) / 2;
}

//= cura::LinearAlg2D::rotateAround
Point3Matrix r9(const Point2LL& middle, double rotation)
{
    PointMatrix rotation_matrix(rotation);
    Point3Matrix rotation_matrix_homogeneous(rotation_matrix);
    return Point3Matrix::translate(middle).compose(rotation_matrix_homogeneous).compose(Point3Matrix::translate(-middle));
}

//= cura::LinearAlg2D::lineLineIntersection
bool r10(const Point2LL& p1, const Point2LL& p2, const Point2LL& p3, const Point2LL& p4, float& t, float& u)
{
    const float x1mx2 = p1.X - p2.X;
    const float x1mx3 = p1.X - p3.X;
    const float x3mx4 = p3.X - p4.X;
    const float y1my2 = p1.Y - p2.Y;
    const float y1my3 = p1.Y - p3.Y;
    const float y3my4 = p3.Y - p4.Y;
    t = x1mx3 * y3my4 - y1my3 * x3mx4;
    u = x1mx3 * y1my2 - y1my3 * x1mx2;
    const float div = x1mx2 * y3my4 - y1my2 * x3mx4;
    if (div == 0.0f)
    {
        return false;
    }
    t /= div;
    u /= div;
    return true;
}

//= cura::LinearAlg2D::segmentSegmentIntersection
bool r11(const Point2LL& p1, const Point2LL& p2, const Point2LL& p3, const Point2LL& p4, float& t, float& u)
{
    return cura::LinearAlg2D::lineLineIntersection(p1, p2, p3, p4, t, u) && t >= 0.0f && u >= 0.0f && t <= 1.0f && u <= 1.0f;
}

//= cura::LinearAlg2D::lineLineIntersection
bool r12(const Point2LL& a, const Point2LL& b, const Point2LL& c, const Point2LL& d, Point2LL& output)
{
    float t, u;
    if (! cura::LinearAlg2D::lineLineIntersection(a, b, c, d, t, u))
    {
        return false;
    }
    const Point2LL result = a + (b - a) * t;
    if (std::abs(result.X) > std::numeric_limits<int32_t>::max() || std::abs(result.Y) > std::numeric_limits<int32_t>::max())
    {
        return false;
    }
    output = result;
    return true;
}

//= cura::LinearAlg2D::lineHorizontalLineIntersection
std::optional<coord_t> r13(const Point2LL& p1, const Point2LL& p2, const coord_t line_y)
{
    if (p1.Y == p2.Y)
    {
        return std::nullopt;
    }
    if (p1.X == p2.X)
    {
        return p1.X;
    }
    if (line_y == p1.Y)
    {
        return p1.X;
    }
    if (line_y == p2.Y)
    {
        return p2.X;
    }
    const double coeff_a = static_cast<double>(p2.Y - p1.Y) / (p2.X - p1.X);
    const double coeff_b = p1.Y - coeff_a * p1.X;
    return std::llrint((line_y - coeff_b) / coeff_a);
}

//= cura::LinearAlg2D::segmentHorizontalLineIntersection
std::optional<coord_t> r14(const Point2LL& p1, const Point2LL& p2, const coord_t line_y)
{
    const auto [min_y, max_y] = std::minmax(p1.Y, p2.Y);
    if (min_y > line_y || max_y < line_y)
    {
        return std::nullopt;
    }
    return cura::LinearAlg2D::lineHorizontalLineIntersection(p1, p2, line_y);
}

//= cura::LinearAlg2D::getSlopedWidth
coord_t r15(const coord_t base_width, const coord_t base_height, const double slope_magnitude, const coord_t actual_height)
{
    if (base_width == 0 || base_height == 0)
    {
        return 0;
    }
    const double factor = std::pow((1.0 - static_cast<double>(actual_height) / static_cast<double>(base_height)), slope_magnitude);
    return std::llrint(static_cast<double>(base_width) * factor);
}

//= cura::LinearAlg2D::pointLiesOnTheRightOfLine
short r16(const Point2LL& p, const Point2LL& p0, const Point2LL& p1)
{
    if (std::max(p0.X, p1.X) >= p.X)
    {
        const coord_t pd_y = p1.Y - p0.Y;
        if (pd_y < 0) 
        {
            if (p1.Y <= p.Y && p0.Y > p.Y) 
            {
                const coord_t dx = (p1.X - p0.X) * (p1.Y - p.Y) - (p1.X - p.X) * pd_y;
                if (dx == 0) 
                {
                    return 0;
                }
                if (dx > 0)
                {
                    return 1;
                }
            }
        }
        else if (p.Y >= p0.Y)
        {
            if (p.Y < p1.Y) 
            {
                const coord_t dx = (p1.X - p0.X) * (p.Y - p0.Y) - (p.X - p0.X) * pd_y;
                if (dx == 0) 
                {
                    return 0;
                }
                if (dx > 0)
                {
                    return 1;
                }
            }
            else if (p.Y == p1.Y)
            {
                if (p.X == p1.X || (pd_y == 0 && std::min(p0.X, p1.X) <= p.X))
                {
                    return 0;
                }
            }
        }
    }
    return -1;
}

//= cura::LinearAlg2D::pointIsProjectedBeyondLine
short r17(const Point2LL& from, const Point2LL& a, const Point2LL& b)
{
    const Point2LL vec = b - a;
    const Point2LL point_vec = from - a;
    const coord_t dot_prod = dot(point_vec, vec);
    if (dot_prod < 0)
    { 
        return -1;
    }
    if (dot_prod > vSize2(vec))
    { 
        return 1;
    }
    return 0;
}

//= cura::LinearAlg2D::getClosestOnLineSegment
Point2LL r18(const Point2LL& from, const Point2LL& p0, const Point2LL& p1)
{
    const Point2LL direction = p1 - p0;
    const Point2LL to_from = from - p0;
    const coord_t projected_x = dot(to_from, direction);
    const coord_t x_p0 = 0;
    const coord_t x_p1 = vSize2(direction);
    if (x_p1 == 0)
    {
        return p0;
    }
    if (projected_x <= x_p0)
    {
        return p0;
    }
    if (projected_x >= x_p1)
    {
        return p1;
    }
    else
    {
        return p0 + projected_x * direction / x_p1;
    }
}

//= cura::LinearAlg2D::getClosestOnLine
Point2LL r19(const Point2LL& from, const Point2LL& p0, const Point2LL& p1)
{
    if (p1 == p0)
    {
        return p0;
    }
    const Point2LL direction = p1 - p0;
    const Point2LL to_from = from - p0;
    const coord_t projected_x = dot(to_from, direction);
    Point2LL ret = p0 + projected_x / vSize(direction) * direction / vSize(direction);
    return ret;
}

//= cura::LinearAlg2D::getDist2FromLineSegment
coord_t r20(const Point2LL& a, const Point2LL& b, const Point2LL& c, int16_t* b_is_beyond_ac)
{
    const Point2LL ac = c - a;
    const coord_t ac_size = vSize(ac);
    const Point2LL ab = b - a;
    if (ac_size == 0)
    {
        const coord_t ab_dist2 = vSize2(ab);
        if (ab_dist2 == 0 && b_is_beyond_ac)
        {
            *b_is_beyond_ac = 0; 
        }
        return ab_dist2;
    }
    const coord_t projected_x = dot(ab, ac);
    const coord_t ax_size = projected_x / ac_size;
    if (ax_size < 0)
    { 
        if (b_is_beyond_ac)
        {
            *b_is_beyond_ac = -1;
        }
        return vSize2(ab);
    }
    if (ax_size > ac_size)
    { 
        if (b_is_beyond_ac)
        {
            *b_is_beyond_ac = 1;
        }
        return vSize2(b - c);
    }
    if (b_is_beyond_ac)
    {
        *b_is_beyond_ac = 0;
    }
    const Point2LL ax = ac * ax_size / ac_size;
    const Point2LL bx = ab - ax;
    return vSize2(bx);
}

//= cura::LinearAlg2D::lineSegmentsAreCloserThan
bool r21(const Point2LL& a, const Point2LL& b, const Point2LL& c, const Point2LL& d, const coord_t max_dist)
{
    const coord_t max_dist2 = max_dist * max_dist;
    return cura::LinearAlg2D::getDist2FromLineSegment(a, c, b) <= max_dist2 || cura::LinearAlg2D::getDist2FromLineSegment(a, d, b) <= max_dist2 || cura::LinearAlg2D::getDist2FromLineSegment(c, a, d) <= max_dist2
        || cura::LinearAlg2D::getDist2FromLineSegment(c, b, d) <= max_dist2;
}

//= cura::LinearAlg2D::getDist2BetweenLineSegments
coord_t r22(const Point2LL& a, const Point2LL& b, const Point2LL& c, const Point2LL& d)
{
    return std::min(cura::LinearAlg2D::getDist2FromLineSegment(a, c, b), std::min(cura::LinearAlg2D::getDist2FromLineSegment(a, d, b), std::min(cura::LinearAlg2D::getDist2FromLineSegment(c, a, d), cura::LinearAlg2D::getDist2FromLineSegment(c, b, d))));
}

//= cura::LinearAlg2D::pointIsLeftOfLine
coord_t r23(const Point2LL& p, const Point2LL& a, const Point2LL& b)
{
    return (b.X - a.X) * (p.Y - a.Y) - (b.Y - a.Y) * (p.X - a.X);
}

//= cura::LinearAlg2D::isAcuteCorner
coord_t r24(const Point2LL& a, const Point2LL& b, const Point2LL& c)
{
    const Point2LL ba = a - b;
    const Point2LL bc = c - b;
    return dot(ba, bc);
}

//= cura::square | ta=long long
namespace n25
{
using T = long long;
T r25(const T& a)
{
    return a * a;
}
} // namespace n25

//= cura::square | ta=cura::Velocity
namespace n26
{
using T = cura::Velocity;
T r26(const T& a)
{
    return a * a;
}
} // namespace n26

//= cura::round_divide_signed
int64_t r27(const int64_t dividend, const int64_t divisor)
{
    if ((dividend < 0) ^ (divisor < 0))
    {
        return (dividend - divisor / 2) / divisor;
    }
    return (dividend + divisor / 2) / divisor;
}

//= cura::ceil_divide_signed
int64_t r28(const int64_t dividend, const int64_t divisor)
{
    int64_t quotient = dividend / divisor;
    int64_t remainder = dividend % divisor;
    if (remainder != 0 && ((dividend > 0 && divisor > 0) || (dividend < 0 && divisor < 0)))
    {
        quotient += 1;
    }
    return quotient;
}

//= cura::floor_divide_signed
int64_t r29(const int64_t dividend, const int64_t divisor)
{
    const int64_t quotient = dividend / divisor;
    const int64_t remainder = dividend % divisor;
    if (remainder != 0 && ((dividend > 0 && divisor < 0) || (dividend < 0 && divisor > 0)))
    {
        return quotient - 1;
    }
    return quotient;
}

//= cura::round_divide
uint64_t r30(const uint64_t dividend, const uint64_t divisor)
{
    return (dividend + divisor / 2) / divisor;
}

//= cura::round_up_divide
uint64_t r31(const uint64_t dividend, const uint64_t divisor)
{
    return (dividend + divisor - 1) / divisor;
}

//= cura::inverse_lerp | ta=double
namespace n32
{
using T = double;
double r32(T range_min, T range_max, T value)
{
    if (range_min == range_max)
    {
        return 0.0;
    }
    return static_cast<double>(value - range_min) / (range_max - range_min);
}
} // namespace n32

//= cura::randf | ta=double
namespace n33
{
using T = double;
T r33()
{
    return static_cast<T>(std::rand()) / static_cast<T>(RAND_MAX);
}
} // namespace n33

//= cura::is_zero | ta=double
namespace n34
{
using T = double;
bool r34(T value, T epsilon)
{
    return std::abs(value) < epsilon;
}
} // namespace n34

//= cura::fuzzy_equal | ta=double
namespace n35
{
using T = double;
bool r35(T value1, T value2, T epsilon)
{
    return std::abs(value1 - value2) <= epsilon;
}
} // namespace n35

//= cura::sign | ta=long long
namespace n36
{
using T = long long;
int8_t r36(T value)
{
    return std::signbit(value) ? -1 : 1;
}
} // namespace n36

//= cura::Point2D::Point2D
void r37(cura::Point2D& self, const double x, const double y)
{
    member(self.x_) = x;
    member(self.y_) = y;
}

//= cura::Point2D::x
double r38(const cura::Point2D& self)
{
    return self.x_;
}

//= cura::Point2D::y
double r39(const cura::Point2D& self)
{
    return self.y_;
}

//= cura::Point2D::vSize2
double r40(const cura::Point2D& self)
{
    return self.x_ * self.x_ + self.y_ * self.y_;
}

//= cura::Point2D::vSize
double r41(const cura::Point2D& self)
{
    return std::sqrt(self.vSize2());
}

//= cura::Point2D::vNormalized
std::optional<Point2D> r42(const cura::Point2D& self)
{
    const double size = self.vSize();
    if (is_zero(size))
    {
        return std::nullopt;
    }
    return self / size;
}

//= cura::Point2D::rotated90CCW
Point2D r43(const cura::Point2D& self)
{
    return Point2D(-self.y_, self.x_);
}

//= cura::Point2D::operator/
Point2D r44(const cura::Point2D& self, const double scale)
{
    return Point2D(self.x_ / scale, self.y_ / scale);
}

//= cura::Point2D::operator*
Point2D r45(const cura::Point2D& self, const double scale)
{
    return Point2D(self.x_ * scale, self.y_ * scale);
}

//= cura::Point2D::operator-
Point2D r46(const cura::Point2D& self, const Point2D& other)
{
    return Point2D(self.x_ - other.x_, self.y_ - other.y_);
}

//= cura::Point2D::operator+
Point2D r47(const cura::Point2D& self, const Point2D& other)
{
    return Point2D(self.x_ + other.x_, self.y_ + other.y_);
}

//= cura::Point2D::operator-
Point2D r48(const cura::Point2D& self)
{
    return Point2D(-self.x_, -self.y_);
}

//= cura::Point2D::dot
double r49(const Point2D& p0, const Point2D& p1)
{
    return p0.x_ * p1.x_ + p0.y_ * p1.y_;
}

//= cura::lerp
Point2D r50(const Point2D& a, const Point2D& b, const double t)
{
    return Point2D(std::lerp(a.x(), b.x(), t), std::lerp(a.y(), b.y(), t));
}

//= cura::operator-
namespace n51
{
#define INLINE static inline
INLINE Point2LL r51(const Point2LL& p0)
{
    return { -p0.X, -p0.Y };
}
} // namespace n51

//= cura::operator+
namespace n52
{
#define INLINE static inline
INLINE Point2LL r52(const Point2LL& p0, const Point2LL& p1)
{
    return { p0.X + p1.X, p0.Y + p1.Y };
}
} // namespace n52

//= cura::operator-
namespace n53
{
#define INLINE static inline
INLINE Point2LL r53(const Point2LL& p0, const Point2LL& p1)
{
    return { p0.X - p1.X, p0.Y - p1.Y };
}
} // namespace n53

//= cura::operator*
namespace n54
{
#define INLINE static inline
INLINE Point2LL r54(const Point2LL& p0, const coord_t i)
{
    return { p0.X * i, p0.Y * i };
}
} // namespace n54

//= cura::operator* | ta=long long
namespace n57
{
using T = long long;
#define INLINE static inline
INLINE Point2LL r57(const T i, const Point2LL& p0)
{
    return p0 * i;
}
} // namespace n57

//= cura::operator* | ta=long
namespace n58
{
using T = long;
#define INLINE static inline
INLINE Point2LL r58(const T i, const Point2LL& p0)
{
    return p0 * i;
}
} // namespace n58

//= cura::operator/
namespace n59
{
#define INLINE static inline
INLINE Point2LL r59(const Point2LL& p0, const coord_t i)
{
    return { p0.X / i, p0.Y / i };
}
} // namespace n59

//= cura::operator/
namespace n60
{
#define INLINE static inline
INLINE Point2LL r60(const Point2LL& p0, const Point2LL& p1)
{
    return { p0.X / p1.X, p0.Y / p1.Y };
}
} // namespace n60

//= cura::operator%
namespace n61
{
#define INLINE static inline
INLINE Point2LL r61(const Point2LL& p0, const coord_t i)
{
    return { p0.X % i, p0.Y % i };
}
} // namespace n61

//= cura::operator+=
namespace n62
{
#define INLINE static inline
INLINE Point2LL& r62(Point2LL& p0, const Point2LL& p1)
{
    p0.X += p1.X;
    p0.Y += p1.Y;
    return p0;
}
} // namespace n62

//= cura::operator-=
namespace n63
{
#define INLINE static inline
INLINE Point2LL& r63(Point2LL& p0, const Point2LL& p1)
{
    p0.X -= p1.X;
    p0.Y -= p1.Y;
    return p0;
}
} // namespace n63

//= cura::vSize2
namespace n64
{
#define INLINE static inline
INLINE coord_t r64(const Point2LL& p0)
{
    return p0.X * p0.X + p0.Y * p0.Y;
}
} // namespace n64

//= cura::vSize2f
namespace n65
{
#define INLINE static inline
INLINE double r65(const Point2LL& p0)
{
    return static_cast<double>(p0.X) * static_cast<double>(p0.X) + static_cast<double>(p0.Y) * static_cast<double>(p0.Y);
}
} // namespace n65

//= cura::shorterThen
namespace n66
{
#define INLINE static inline
INLINE bool r66(const Point2LL& p0, const coord_t len)
{
    if (p0.X > len || p0.X < -len)
    {
        return false;
    }
    if (p0.Y > len || p0.Y < -len)
    {
        return false;
    }
    return vSize2(p0) <= len * len;
}
} // namespace n66

//= cura::shorterThan
namespace n67
{
#define INLINE static inline
INLINE bool r67(const Point2LL& p0, const coord_t len)
{
    return shorterThen(p0, len);
}
} // namespace n67

//= cura::vSize
namespace n68
{
#define INLINE static inline
INLINE coord_t r68(const Point2LL& p0)
{
    return std::llrint(sqrt(static_cast<double>(vSize2(p0))));
}
} // namespace n68

//= cura::vSizef
namespace n69
{
#define INLINE static inline
INLINE coord_t r69(const Point2LL& p0)
{
    return std::sqrt(vSize2f(p0));
}
} // namespace n69

//= cura::vSizeMM
namespace n70
{
#define INLINE static inline
INLINE double r70(const Point2LL& p0)
{
    double fx = INT2MM(p0.X);
    double fy = INT2MM(p0.Y);
    return std::sqrt(fx * fx + fy * fy);
}
} // namespace n70

//= cura::normal
namespace n71
{
#define INLINE static inline
INLINE Point2LL r71(const Point2LL& p0, coord_t length)
{
    const coord_t len{ vSize(p0) };
    if (len < 1)
    {
        return { length, 0 };
    }
    return p0 * length / len;
}
} // namespace n71

//= cura::turn90CCW
namespace n72
{
#define INLINE static inline
INLINE Point2LL r72(const Point2LL& p0)
{
    return { -p0.Y, p0.X };
}
} // namespace n72

//= cura::rotate
namespace n73
{
#define INLINE static inline
INLINE Point2LL r73(const Point2LL& p0, double angle)
{
    const double cos_component = std::cos(angle);
    const double sin_component = std::sin(angle);
    const auto x = static_cast<double>(p0.X);
    const auto y = static_cast<double>(p0.Y);
    return { std::llrint(cos_component * x - sin_component * y), std::llrint(sin_component * x + cos_component * y) };
}
} // namespace n73

//= cura::dot
namespace n74
{
#define INLINE static inline
INLINE coord_t r74(const Point2LL& p0, const Point2LL& p1)
{
    return p0.X * p1.X + p0.Y * p1.Y;
}
} // namespace n74

//= cura::cross
namespace n75
{
#define INLINE static inline
INLINE coord_t r75(const Point2LL& p0, const Point2LL& p1)
{
    return p0.X * p1.Y - p0.Y * p1.X;
}
} // namespace n75

//= cura::make_point
namespace n76
{
#define INLINE static inline
INLINE const Point2LL& r76(const Point2LL& p)
{
    return p;
}
} // namespace n76

//= cura::angle_rad
namespace n77
{
#define INLINE static inline
INLINE const AngleRadians r77(const Point2LL& p)
{
    return std::atan2(p.Y, p.X);
}
} // namespace n77

//= cura::angle_deg
namespace n78
{
#define INLINE static inline
INLINE const AngleDegrees r78(const Point2LL& p)
{
    return AngleDegrees(angle_rad(p));
}
} // namespace n78

//= cura::lerp
Point2LL r79(const Point2LL& a, const Point2LL& b, const double t)
{
    return Point2LL(lerp(a.X, b.X, t), lerp(a.Y, b.Y, t));
}

//= cura::fuzzy_equal
bool r80(const Point2LL& a, const Point2LL& b)
{
    return fuzzy_equal(a.X, b.X) && fuzzy_equal(a.Y, b.Y);
}

//= std::hash::operator() | std::hash<ClipperLib::IntPoint>
namespace n81
{
using hash = std::hash<ClipperLib::IntPoint>;
size_t r81(const std::hash<ClipperLib::IntPoint>& self, const cura::Point2LL& pp)
{
    static int prime = 31;
    int result = 89;
    result = static_cast<int>(result * prime + pp.X);
    result = static_cast<int>(result * prime + pp.Y);
    return static_cast<size_t>(result);
}
} // namespace n81

//= cura::Point3LL::Point3LL
void r83(cura::Point3LL& self, const coord_t x, const coord_t y, const coord_t z)
{
    member(self.x_) = x;
    member(self.y_) = y;
    member(self.z_) = z;
}

//= cura::Point3LL::operator* | ta=float
namespace n84
{
using T = float;
Point3LL r84(const cura::Point3LL& self, const T& i)
{
    return { std::llround(static_cast<T>(self.x_) * i), std::llround(static_cast<T>(self.y_) * i), std::llround(static_cast<T>(self.z_) * i) };
}
} // namespace n84

//= cura::Point3LL::operator* | ta=double
namespace n85
{
using T = double;
Point3LL r85(const cura::Point3LL& self, const T& i)
{
    return { std::llround(static_cast<T>(self.x_) * i), std::llround(static_cast<T>(self.y_) * i), std::llround(static_cast<T>(self.z_) * i) };
}
} // namespace n85

//= cura::Point3LL::operator/ | ta=int
namespace n86
{
using T = int;
Point3LL r86(const cura::Point3LL& self, const T& i)
{
    return { self.x_ / i, self.y_ / i, self.z_ / i };
}
} // namespace n86

//= cura::Point3LL::operator/ | ta=long long
namespace n87
{
using T = long long;
Point3LL r87(const cura::Point3LL& self, const T& i)
{
    return { self.x_ / i, self.y_ / i, self.z_ / i };
}
} // namespace n87

//= cura::Point3LL::operator% | ta=int
namespace n88
{
using T = int;
Point3LL r88(const cura::Point3LL& self, const T& i)
{
    return { self.x_ % i, self.y_ % i, self.z_ % i };
}
} // namespace n88

//= cura::Point3LL::operator/= | ta=int
namespace n89
{
using T = int;
Point3LL& r89(cura::Point3LL& self, const T i)
{
    self.x_ /= i;
    self.y_ /= i;
    self.z_ /= i;
    return self;
}
} // namespace n89

//= cura::Point3LL::max
coord_t r90(const cura::Point3LL& self)
{
    if (self.x_ > self.y_ && self.x_ > self.z_)
    {
        return self.x_;
    }
    if (self.y_ > self.z_)
    {
        return self.y_;
    }
    return self.z_;
}

//= cura::Point3LL::testLength
bool r91(const cura::Point3LL& self, coord_t len)
{
    if (self.x_ > len || self.x_ < -len)
    {
        return false;
    }
    if (self.y_ > len || self.y_ < -len)
    {
        return false;
    }
    if (self.z_ > len || self.z_ < -len)
    {
        return false;
    }
    return self.vSize2() <= len * len;
}

//= cura::Point3LL::vSize2
coord_t r92(const cura::Point3LL& self)
{
    return self.x_ * self.x_ + self.y_ * self.y_ + self.z_ * self.z_;
}

//= cura::Point3LL::vSize2f
double r93(cura::Point3LL& self)
{
    return static_cast<double>(self.x_) * static_cast<double>(self.x_) + static_cast<double>(self.y_) * static_cast<double>(self.y_) + static_cast<double>(self.z_) * static_cast<double>(self.z_);
}

//= cura::Point3LL::vSize
coord_t r94(const cura::Point3LL& self)
{
    return std::llrint(sqrt(static_cast<double>(self.vSize2())));
}

//= cura::Point3LL::vSizeMM
double r95(const cura::Point3LL& self)
{
    double fx = INT2MM(self.x_);
    double fy = INT2MM(self.y_);
    double fz = INT2MM(self.z_);
    return sqrt(fx * fx + fy * fy + fz * fz);
}

//= cura::Point3LL::dot
coord_t r96(const cura::Point3LL& self, const Point3LL& p)
{
    return self.x_ * p.x_ + self.y_ * p.y_ + self.z_ * p.z_;
}

//= cura::Point3LL::operator[]
coord_t& r97(cura::Point3LL& self, const size_t index)
{
    switch (index)
    {
    case 0:
        return self.x_;
    case 1:
        return self.y_;
    default:
        return self.z_;
    }
}

//= cura::Point3LL::operator[]
const coord_t& r98(const cura::Point3LL& self, const size_t index)
{
    return const_cast<Point3LL*>((&self))->operator[](index);
}

//= cura::operator* | ta=double
namespace n99
{
using T = double;
Point3LL r99(const T i, const Point3LL& rhs)
{
    return rhs * i;
}
} // namespace n99

//= cura::operator* | ta=long long
namespace n100
{
using T = long long;
Point3LL r100(const T i, const Point3LL& rhs)
{
    return rhs * i;
}
} // namespace n100

//= cura::lerp
Point3LL r101(const Point3LL& a, const Point3LL& b, const double t)
{
    return Point3LL(cura::lerp(a.x_, b.x_, t), cura::lerp(a.y_, b.y_, t), cura::lerp(a.z_, b.z_, t));
}

//= std::hash::operator() | std::hash<cura::Point3LL>
namespace n102
{
using hash = std::hash<cura::Point3LL>;
size_t r102(const std::hash<cura::Point3LL>& self, const cura::Point3LL& pp)
{
    static int prime = 31;
    int result = 89;
    result = static_cast<int>(result * prime + pp.x_);
    result = static_cast<int>(result * prime + pp.y_);
    result = static_cast<int>(result * prime + pp.z_);
    return static_cast<size_t>(result);
}
} // namespace n102

//= cura::Point3Matrix::Point3Matrix
void r103(cura::Point3Matrix& self, const PointMatrix& b)
{
    self.matrix.at(0) = b.matrix.at(0);
    self.matrix.at(1) = b.matrix.at(1);
    self.matrix.at(2) = 0;
    self.matrix.at(3) = b.matrix.at(2);
    self.matrix.at(4) = b.matrix.at(3);
    self.matrix.at(5) = 0;
    self.matrix.at(6) = 0;
    self.matrix.at(7) = 0;
    self.matrix.at(8) = 1;
}

//= cura::Point3Matrix::apply
Point3LL r104(const cura::Point3Matrix& self, const Point3LL& p)
{
    const auto x = static_cast<double>(p.x_);
    const auto y = static_cast<double>(p.y_);
    const auto z = static_cast<double>(p.z_);
    return { std::llrint(x * self.matrix.at(0) + y * self.matrix.at(1) + z * self.matrix.at(2)),
             std::llrint(x * self.matrix.at(3) + y * self.matrix.at(4) + z * self.matrix.at(5)),
             std::llrint(x * self.matrix.at(6) + y * self.matrix.at(7) + z * self.matrix.at(8)) };
}

//= cura::Point3Matrix::apply
Point2LL r105(const cura::Point3Matrix& self, const Point2LL& p)
{
    Point3LL result = self.apply(Point3LL(p.X, p.Y, 1));
    return { result.x_ / result.z_, result.y_ / result.z_ };
}

//= cura::Point3Matrix::translate
Point3Matrix r106(const Point2LL& p)
{
    Point3Matrix ret; 
    ret.matrix.at(2) = static_cast<double>(p.X);
    ret.matrix.at(5) = static_cast<double>(p.Y);
    return ret;
}

//= cura::Point3Matrix::compose
Point3Matrix r107(const cura::Point3Matrix& self, const Point3Matrix& b)
{
    Point3Matrix ret;
    for (int outx = 0; outx < 3; outx++)
    {
        for (int outy = 0; outy < 3; outy++)
        {
            ret.matrix.at(outy * 3 + outx) = 0;
            for (int in = 0; in < 3; in++)
            {
                ret.matrix.at(outy * 3 + outx) += self.matrix.at(outy * 3 + in) * b.matrix.at(in * 3 + outx);
            }
        }
    }
    return ret;
}

//= cura::operator+
Point2LL r108(const Point2LL& p2, const Point3LL& p3)
{
    return { p3.x_ + p2.X, p3.y_ + p2.Y };
}

//= cura::operator+
Point3LL r109(const Point3LL& p3, const Point2LL& p2)
{
    return { p3.x_ + p2.X, p3.y_ + p2.Y, p3.z_ };
}

//= cura::operator+=
Point3LL& r110(Point3LL& p3, const Point2LL& p2)
{
    p3.x_ += p2.X;
    p3.y_ += p2.Y;
    return p3;
}

//= cura::operator-
Point3LL r111(const Point3LL& p3, const Point2LL& p2)
{
    return { p3.x_ - p2.X, p3.y_ - p2.Y, p3.z_ };
}

//= cura::operator-=
Point3LL& r112(Point3LL& p3, const Point2LL& p2)
{
    p3.x_ -= p2.X;
    p3.y_ -= p2.Y;
    return p3;
}

//= cura::operator-
Point2LL r113(const Point2LL& p2, const Point3LL& p3)
{
    return { p2.X - p3.x_, p2.Y - p3.y_ };
}

//= cura::Point3LL::Point3LL
void r114(cura::Point3LL& self, const Point2LL& point, const coord_t z)
{
        member(self.x_) = point.X;
        member(self.y_) = point.Y;
        member(self.z_) = z;
}

//= cura::Point3LL::operator+
Point3LL r115(const cura::Point3LL& self, const Point3LL& p)
{
    return Point3LL(self.x_ + p.x_, self.y_ + p.y_, self.z_ + p.z_);
}

//= cura::Point3LL::operator-
Point3LL r116(const cura::Point3LL& self)
{
    return Point3LL(-self.x_, -self.y_, -self.z_);
}

//= cura::Point3LL::operator-
Point3LL r117(const cura::Point3LL& self, const Point3LL& p)
{
    return Point3LL(self.x_ - p.x_, self.y_ - p.y_, self.z_ - p.z_);
}

//= cura::Point3LL::operator*
Point3LL r118(const cura::Point3LL& self, const Point3LL& p)
{
    return Point3LL(self.x_ * p.x_, self.y_ * p.y_, self.z_ * p.z_);
}

//= cura::Point3LL::operator/
Point3LL r119(const cura::Point3LL& self, const Point3LL& p)
{
    return Point3LL(self.x_ / p.x_, self.y_ / p.y_, self.z_ / p.z_);
}

//= cura::Point3LL::operator+=
Point3LL& r120(cura::Point3LL& self, const Point3LL& p)
{
    self.x_ += p.x_;
    self.y_ += p.y_;
    self.z_ += p.z_;
    return self;
}

//= cura::Point3LL::operator-=
Point3LL& r121(cura::Point3LL& self, const Point3LL& p)
{
    self.x_ -= p.x_;
    self.y_ -= p.y_;
    self.z_ -= p.z_;
    return self;
}

//= cura::Point3LL::operator*=
Point3LL& r122(cura::Point3LL& self, const Point3LL& p)
{
    self.x_ *= p.x_;
    self.y_ *= p.y_;
    self.z_ *= p.z_;
    return self;
}

//= cura::Point3LL::operator/=
Point3LL& r123(cura::Point3LL& self, const Point3LL& p)
{
    self.x_ /= p.x_;
    self.y_ /= p.y_;
    self.z_ /= p.z_;
    return self;
}

//= cura::Point3LL::toPoint2LL
Point2LL r124(const cura::Point3LL& self)
{
    return Point2LL(self.x_, self.y_);
}

//= cura::Point3LL::resized
Point3LL r125(const cura::Point3LL& self, coord_t length)
{
    const coord_t actual_length = self.vSize();
    if (actual_length < 1)
    {
        return { length, 0, 0 };
    }
    return ((self) * length) / actual_length;
}

//= cura::PointMatrix::PointMatrix
void r126(cura::PointMatrix& self, double rotation)
{
    rotation = rotation / 180 * std::numbers::pi;
    self.matrix.at(0) = std::cos(rotation);
    self.matrix.at(1) = -std::sin(rotation);
    self.matrix.at(2) = -self.matrix.at(1);
    self.matrix.at(3) = self.matrix.at(0);
}

//= cura::PointMatrix::PointMatrix
void r127(cura::PointMatrix& self, const AngleDegrees& rotation)
{
        base<PointMatrix>(self) = ::cura::PointMatrix(rotation.value_);
}

//= cura::PointMatrix::PointMatrix
void r128(cura::PointMatrix& self, const AngleRadians& rotation)
{
        base<PointMatrix>(self) = ::cura::PointMatrix(AngleDegrees(rotation));
}

//= cura::PointMatrix::PointMatrix
void r129(cura::PointMatrix& self, const Point2LL& p)
{
    self.matrix.at(0) = static_cast<double>(p.X);
    self.matrix.at(1) = static_cast<double>(p.Y);
    double f = std::sqrt((self.matrix.at(0) * self.matrix.at(0)) + (self.matrix.at(1) * self.matrix.at(1)));
    self.matrix.at(0) /= f;
    self.matrix.at(1) /= f;
    self.matrix.at(2) = -self.matrix.at(1);
    self.matrix.at(3) = self.matrix.at(0);
}

//= cura::PointMatrix::scale
PointMatrix r130(double s)
{
    PointMatrix ret;
    ret.matrix.at(0) = s;
    ret.matrix.at(3) = s;
    return ret;
}

//= cura::PointMatrix::apply
Point2LL r131(const cura::PointMatrix& self, const Point2LL& p)
{
    const auto x = static_cast<double>(p.X);
    const auto y = static_cast<double>(p.Y);
    return { std::llrint(x * self.matrix.at(0) + y * self.matrix.at(1)), std::llrint(x * self.matrix.at(2) + y * self.matrix.at(3)) };
}

//= cura::PointMatrix::unapply
Point2LL r132(const cura::PointMatrix& self, const Point2LL& p)
{
    const auto x = static_cast<double>(p.X);
    const auto y = static_cast<double>(p.Y);
    return { std::llrint(x * self.matrix.at(0) + y * self.matrix.at(2)), std::llrint(x * self.matrix.at(1) + y * self.matrix.at(3)) };
}

//= cura::PointMatrix::inverse
PointMatrix r133(const cura::PointMatrix& self)
{
    PointMatrix ret;
    double det = self.matrix.at(0) * self.matrix.at(3) - self.matrix.at(1) * self.matrix.at(2);
    ret.matrix.at(0) = self.matrix.at(3) / det;
    ret.matrix.at(1) = -self.matrix.at(1) / det;
    ret.matrix.at(2) = -self.matrix.at(2) / det;
    ret.matrix.at(3) = self.matrix.at(0) / det;
    return ret;
}

//= cura::Matrix4x3D::scale
Matrix4x3D r134(const Ratio scale, const Point3LL origin)
{
    return Matrix4x3D::scale(scale, scale, scale, origin);
}

//= cura::Matrix4x3D::scale
Matrix4x3D r135(const Ratio scale_x, const Ratio scale_y, const Ratio scale_z, const Point3LL origin)
{
    Matrix4x3D result;
    result.m[0][0] = scale_x; 
    result.m[1][1] = scale_y; 
    result.m[2][2] = scale_z; 
    result.m[3][0] = (scale_x - 1.0) * -origin.x_; 
    result.m[3][1] = (scale_y - 1.0) * -origin.y_;
    result.m[3][2] = (scale_z - 1.0) * -origin.z_;
    return result;
}

//= cura::Matrix4x3D::Matrix4x3D
void r136(cura::Matrix4x3D& self)
{
    self.m[0][0] = 1.0;
    self.m[1][0] = 0.0;
    self.m[2][0] = 0.0;
    self.m[3][0] = 0.0;
    self.m[0][1] = 0.0;
    self.m[1][1] = 1.0;
    self.m[2][1] = 0.0;
    self.m[3][1] = 0.0;
    self.m[0][2] = 0.0;
    self.m[1][2] = 0.0;
    self.m[2][2] = 1.0;
    self.m[3][2] = 0.0;
}

//= cura::Matrix4x3D::apply
Point3LL r137(const cura::Matrix4x3D& self, const Point3D& p)
{
    return Point3LL(
        MM2INT(p.x_ * self.m[0][0] + p.y_ * self.m[1][0] + p.z_ * self.m[2][0] + self.m[3][0]),
        MM2INT(p.x_ * self.m[0][1] + p.y_ * self.m[1][1] + p.z_ * self.m[2][1] + self.m[3][1]),
        MM2INT(p.x_ * self.m[0][2] + p.y_ * self.m[1][2] + p.z_ * self.m[2][2] + self.m[3][2]));
}

//= cura::Matrix4x3D::apply
Point3LL r138(const cura::Matrix4x3D& self, const Point3LL& p)
{
    return Point3LL(
        self.m[0][0] * p.x_ + self.m[1][0] * p.y_ + self.m[2][0] * p.z_ + self.m[3][0],
        self.m[0][1] * p.x_ + self.m[1][1] * p.y_ + self.m[2][1] * p.z_ + self.m[3][1],
        self.m[0][2] * p.x_ + self.m[1][2] * p.y_ + self.m[2][2] * p.z_ + self.m[3][2]);
}

//= cura::PlanarPolygon3LL::PlanarPolygon3LL
void r139(cura::PlanarPolygon3LL& self, std::vector<Segment3LL>&& segments)
{
        member(self.segments_) = std::move(segments);
}

//= cura::PlanarPolygon3LL::PlanarPolygon3LL
void r140(cura::PlanarPolygon3LL& self, const std::initializer_list<Segment3LL>& segments)
{
        member(self.segments_) = segments;
}

//= cura::PlanarPolygon3LL::intersectionWithLayer
std::optional<PlanarPolygon3LL> r141(const cura::PlanarPolygon3LL& self, const coord_t layer_start, const coord_t layer_end, const std::function<std::optional<Segment3LL>(const Segment3LL&, const coord_t, const coord_t)>& function_intersect_with_layer)
{
    std::vector<Segment3LL> new_segments;
    const auto join_segments = [&new_segments](const Segment3LL& next_segment)
    {
        const coord_t join_distance = (new_segments.back().end() - next_segment.start()).vSize2();
        if (join_distance > EPSILON * EPSILON)
        {
            new_segments.push_back(Segment3LL(new_segments.back().end(), next_segment.start()));
        }
        else
        {
            new_segments.back().setEnd(next_segment.start());
        }
    };
    for (const Segment3LL& segment : self.segments_)
    {
        const std::optional<Segment3LL> cropped_segment = function_intersect_with_layer(segment, layer_start, layer_end);
        if (cropped_segment.has_value())
        {
            if (! new_segments.empty())
            {
                join_segments(*cropped_segment);
            }
            new_segments.push_back(*cropped_segment);
        }
    }
    if (new_segments.size() < 2)
    {
        return std::nullopt;
    }
    join_segments(new_segments.front());
    return PlanarPolygon3LL(std::move(new_segments));
}

//= cura::PlanarPolygon3LL::intersectionWithXLayer
std::optional<PlanarPolygon3LL> r142(const cura::PlanarPolygon3LL& self, const coord_t layer_start_x, const coord_t layer_end_x)
{
    return self.intersectionWithLayer(layer_start_x, layer_end_x, &Segment3LL::intersectionWithXLayer);
}

//= cura::PlanarPolygon3LL::intersectionWithYLayer
std::optional<PlanarPolygon3LL> r143(const cura::PlanarPolygon3LL& self, const coord_t layer_start_y, const coord_t layer_end_y)
{
    return self.intersectionWithLayer(layer_start_y, layer_end_y, &Segment3LL::intersectionWithYLayer);
}

//= cura::PlanarPolygon3LL::intersectionWithZLayer
std::optional<PlanarPolygon3LL> r144(const cura::PlanarPolygon3LL& self, const coord_t layer_start_z, const coord_t layer_end_z)
{
    return self.intersectionWithLayer(layer_start_z, layer_end_z, &Segment3LL::intersectionWithZLayer);
}

//= cura::PlanarPolygon3LL::minmaxX
std::tuple<coord_t, coord_t> r145(const cura::PlanarPolygon3LL& self)
{
    return self.minmax(
        [](const Segment3LL& segment)
        {
            return segment.start().x_;
        });
}

//= cura::PlanarPolygon3LL::minmaxY
std::tuple<coord_t, coord_t> r146(const cura::PlanarPolygon3LL& self)
{
    return self.minmax(
        [](const Segment3LL& segment)
        {
            return segment.start().y_;
        });
}

//= cura::PlanarPolygon3LL::minmaxZ
std::tuple<coord_t, coord_t> r147(const cura::PlanarPolygon3LL& self)
{
    return self.minmax(
        [](const Segment3LL& segment)
        {
            return segment.start().z_;
        });
}

//= cura::PlanarPolygon3LL::minmax
std::tuple<coord_t, coord_t> r148(const cura::PlanarPolygon3LL& self, const std::function<coord_t(const Segment3LL& segment)>& get_coordinate)
{
    const auto segments_coordinates = self.segments_ | ranges::views::transform(get_coordinate);
    auto result = ranges::minmax_element(segments_coordinates);
    return std::make_tuple(*result.min, *result.max);
}

//= cura::Segment3LL::Segment3LL
void r149(cura::Segment3LL& self, const Point3LL& start, const Point3LL& end)
{
        member(self.start_) = start;
        member(self.end_) = end;
}

//= cura::Segment3LL::pointAtX
Point3LL r150(const cura::Segment3LL& self, const coord_t x)
{
    const Point3LL direction = self.end_ - self.start_;
    const double factor = static_cast<double>(x - self.start_.x_) / (direction.x_);
    return Point3LL(x, std::llrint(self.start_.y_ + factor * direction.y_), std::llrint(self.start_.z_ + factor * direction.z_));
}

//= cura::Segment3LL::pointAtY
Point3LL r151(const cura::Segment3LL& self, const coord_t y)
{
    const Point3LL direction = self.end_ - self.start_;
    const double factor = static_cast<double>(y - self.start_.y_) / (direction.y_);
    return Point3LL(std::llrint(self.start_.x_ + factor * direction.x_), y, std::llrint(self.start_.z_ + factor * direction.z_));
}

//= cura::Segment3LL::pointAtZ
Point3LL r152(const cura::Segment3LL& self, const coord_t z)
{
    const Point3LL direction = self.end_ - self.start_;
    const double factor = static_cast<double>(z - self.start_.z_) / (direction.z_);
    return Point3LL(std::llrint(self.start_.x_ + factor * direction.x_), std::llrint(self.start_.y_ + factor * direction.y_), z);
}

//= cura::Segment3LL::intersectionWithLayer
namespace n153
{
using LayerLocation = cura::Segment3LL::LayerLocation;
std::optional<Segment3LL> r153(const cura::Segment3LL& self, const coord_t start_coordinate, const coord_t end_coordinate, const coord_t layer_start, const coord_t layer_end, const std::function<Point3LL(const Point3LL& point, const LayerLocation insideness, const coord_t layer_start, const coord_t layer_end)>& function_crop_point)
{
    const LayerLocation segment_start_inside = self.pointIsInside(start_coordinate, layer_start, layer_end);
    const LayerLocation segment_end_inside = self.pointIsInside(end_coordinate, layer_start, layer_end);
    if (segment_end_inside == segment_start_inside)
    {
        if (segment_start_inside == LayerLocation::Inside)
        {
            return self;
        }
        return std::nullopt;
    }
    const Point3LL new_segment_start = function_crop_point(self.start_, segment_start_inside, layer_start, layer_end);
    const Point3LL new_segment_end = function_crop_point(self.end_, segment_end_inside, layer_start, layer_end);
    if ((new_segment_end - new_segment_start).vSize2() < EPSILON * EPSILON)
    {
        return std::nullopt;
    }
    return Segment3LL(new_segment_start, new_segment_end);
}
} // namespace n153

//= cura::Segment3LL::pointIsInside
namespace n154
{
using LayerLocation = cura::Segment3LL::LayerLocation;
Segment3LL::LayerLocation r154(const coord_t point, const coord_t layer_start, const coord_t layer_end)
{
    if (point < layer_start)
    {
        return LayerLocation::Below;
    }
    if (point > layer_end)
    {
        return LayerLocation::Above;
    }
    return LayerLocation::Inside;
}
} // namespace n154

//= cura::Segment3LL::croppedPoint
namespace n155
{
using LayerLocation = cura::Segment3LL::LayerLocation;
Point3LL r155(const Point3LL& point, const LayerLocation insideness, const coord_t layer_start, const coord_t layer_end, const std::function<Point3LL(const coord_t)>& function_point_at)
{
    switch (insideness)
    {
    case LayerLocation::Inside:
        return point;
    case LayerLocation::Below:
        return function_point_at(layer_start);
    case LayerLocation::Above:
        return function_point_at(layer_end);
    }
    return Point3LL();
}
} // namespace n155

//= cura::Segment3LL::croppedPointX
namespace n156
{
using LayerLocation = cura::Segment3LL::LayerLocation;
Point3LL r156(const cura::Segment3LL& self, const Point3LL& point, const LayerLocation insideness, const coord_t layer_start, const coord_t layer_end)
{
    return self.croppedPoint(point, insideness, layer_start, layer_end, std::bind(&Segment3LL::pointAtX, (&self), std::placeholders::_1));
}
} // namespace n156

//= cura::Segment3LL::croppedPointY
namespace n157
{
using LayerLocation = cura::Segment3LL::LayerLocation;
Point3LL r157(const cura::Segment3LL& self, const Point3LL& point, const LayerLocation insideness, const coord_t layer_start, const coord_t layer_end)
{
    return self.croppedPoint(point, insideness, layer_start, layer_end, std::bind(&Segment3LL::pointAtY, (&self), std::placeholders::_1));
}
} // namespace n157

//= cura::Segment3LL::croppedPointZ
namespace n158
{
using LayerLocation = cura::Segment3LL::LayerLocation;
Point3LL r158(const cura::Segment3LL& self, const Point3LL& point, const LayerLocation insideness, const coord_t layer_start, const coord_t layer_end)
{
    return self.croppedPoint(point, insideness, layer_start, layer_end, std::bind(&Segment3LL::pointAtZ, (&self), std::placeholders::_1));
}
} // namespace n158

//= cura::Segment3LL::intersectionWithXLayer
std::optional<Segment3LL> r159(const cura::Segment3LL& self, const coord_t layer_start, const coord_t layer_end)
{
    return self.intersectionWithLayer(
        self.start_.x_,
        self.end_.x_,
        layer_start,
        layer_end,
        std::bind(&Segment3LL::croppedPointX, (&self), std::placeholders::_1, std::placeholders::_2, std::placeholders::_3, std::placeholders::_4));
}

//= cura::Segment3LL::intersectionWithYLayer
std::optional<Segment3LL> r160(const cura::Segment3LL& self, const coord_t layer_start, const coord_t layer_end)
{
    return self.intersectionWithLayer(
        self.start_.y_,
        self.end_.y_,
        layer_start,
        layer_end,
        std::bind(&Segment3LL::croppedPointY, (&self), std::placeholders::_1, std::placeholders::_2, std::placeholders::_3, std::placeholders::_4));
}

//= cura::Segment3LL::intersectionWithZLayer
std::optional<Segment3LL> r161(const cura::Segment3LL& self, const coord_t layer_start, const coord_t layer_end)
{
    return self.intersectionWithLayer(
        self.start_.z_,
        self.end_.z_,
        layer_start,
        layer_end,
        std::bind(&Segment3LL::croppedPointZ, (&self), std::placeholders::_1, std::placeholders::_2, std::placeholders::_3, std::placeholders::_4));
}

//= cura::operator""_mu
coord_t r162(unsigned long long i)
{
    return static_cast<coord_t>(i);
}

//= cura::lerp | ta=double
namespace n163
{
using FactorType = double;
coord_t r163(coord_t a, coord_t b, FactorType t)
{
    return std::llrint(std::lerp(static_cast<double>(a), static_cast<double>(b), t));
}
} // namespace n163

//= cura::fuzzy_is_zero
bool r164(const coord_t value)
{
    return std::abs(value) <= EPSILON;
}

//= cura::fuzzy_equal
bool r165(const coord_t a, const coord_t b)
{
    return fuzzy_is_zero(b - a);
}

//= cura::fuzzy_not_equal
bool r166(const coord_t a, const coord_t b)
{
    return ! fuzzy_equal(a, b);
}

//= cura::fuzzy_is_greater
bool r167(const coord_t a, const coord_t b)
{
    return a - b > EPSILON;
}

//= cura::fuzzy_is_greater_or_equal
bool r168(const coord_t a, const coord_t b)
{
    return a > b - EPSILON;
}

//= cura::fuzzy_is_lesser
bool r169(const coord_t a, const coord_t b)
{
    return b - a > EPSILON;
}

//= cura::fuzzy_is_lesser_or_equal
bool r170(const coord_t a, const coord_t b)
{
    return b > a - EPSILON;
}

//= cura::Point2F::Point2F
void r171(cura::Point2F& self)
{
}

//= cura::Point2F::Point2F
void r172(cura::Point2F& self, float x, float y)
{
    member(self.x_) = x;
    member(self.y_) = y;
}

//= cura::Point2F::vSize2
double r173(const cura::Point2F& self)
{
    return self.x_ * self.x_ + self.y_ * self.y_;
}

//= cura::Point2F::vSize
double r174(const cura::Point2F& self)
{
    return std::sqrt(self.vSize2());
}

//= cura::Point2F::vNormalized
Point2F r175(const cura::Point2F& self)
{
    return self / self.vSize();
}

//= cura::Point2F::operator/
Point2F r176(const cura::Point2F& self, const double scale)
{
    return Point2F(self.x_ / scale, self.y_ / scale);
}

//= cura::lerp
Point2F r177(const Point2F& a, const Point2F& b, const float t)
{
    return Point2F(std::lerp(a.x_, b.x_, t), std::lerp(a.y_, b.y_, t));
}

//= cura::Point3D::Point3D
void r178(cura::Point3D& self)
{
}

//= cura::Point3D::Point3D
void r179(cura::Point3D& self, double x, double y, double z)
{
    member(self.x_) = x;
    member(self.y_) = y;
    member(self.z_) = z;
}

//= cura::Point3D::Point3D
void r180(cura::Point3D& self, const Point3LL& p, const double scale)
{
    member(self.x_) = static_cast<double>(p.x_) * scale;
    member(self.y_) = static_cast<double>(p.y_) * scale;
    member(self.z_) = static_cast<double>(p.z_) * scale;
}

//= cura::Point3D::operator+=
Point3D& r181(cura::Point3D& self, const Point3D& p)
{
    self.x_ += p.x_;
    self.y_ += p.y_;
    self.z_ += p.z_;
    return self;
}

//= cura::Point3D::operator-=
Point3D& r182(cura::Point3D& self, const Point3D& p)
{
    self.x_ -= p.x_;
    self.y_ -= p.y_;
    self.z_ -= p.z_;
    return self;
}

//= cura::Point3D::operator*=
Point3D& r183(cura::Point3D& self, const double f)
{
    self.x_ *= f;
    self.y_ *= f;
    self.z_ *= f;
    return self;
}

//= cura::Point3D::operator==
bool r184(const cura::Point3D& self, const Point3D& p)
{
    return self.x_ == p.x_ && self.y_ == p.y_ && self.z_ == p.z_;
}

//= cura::Point3D::operator!=
bool r185(const cura::Point3D& self, Point3D& p)
{
    return self.x_ != p.x_ || self.y_ != p.y_ || self.z_ != p.z_;
}

//= cura::Point3D::operator+
Point3D r186(const cura::Point3D& self, const Point3D& other)
{
    return Point3D(self.x_ + other.x_, self.y_ + other.y_, self.z_ + other.z_);
}

//= cura::Point3D::operator/
Point3D r187(const cura::Point3D& self, const double divisor)
{
    return Point3D(self.x_ / divisor, self.y_ / divisor, self.z_ / divisor);
}

//= cura::Point3D::operator*
Point3D r188(const cura::Point3D& self, const double factor)
{
    return Point3D(self.x_ * factor, self.y_ * factor, self.z_ * factor);
}

//= cura::Point3D::operator*
double r189(const cura::Point3D& self, const Point3D& other)
{
    return self.x_ * other.x_ + self.y_ * other.y_ + self.z_ * other.z_;
}

//= cura::Point3D::operator-
Point3D r190(const cura::Point3D& self, const Point3D& other)
{
    return Point3D(self.x_ - other.x_, self.y_ - other.y_, self.z_ - other.z_);
}

//= cura::Point3D::max
double r191(const cura::Point3D& self)
{
    if (self.x_ > self.y_ && self.x_ > self.z_)
        return self.x_;
    if (self.y_ > self.z_)
        return self.y_;
    return self.z_;
}

//= cura::Point3D::testLength
bool r192(const cura::Point3D& self, double len)
{
    return self.vSize2() <= len * len;
}

//= cura::Point3D::vSize2
double r193(const cura::Point3D& self)
{
    return self.x_ * self.x_ + self.y_ * self.y_ + self.z_ * self.z_;
}

//= cura::Point3D::vSize
double r194(const cura::Point3D& self)
{
    return sqrt(self.vSize2());
}

//= cura::Point3D::normalized
Point3D r195(const cura::Point3D& self)
{
    return (self) / self.vSize();
}

//= cura::Point3D::cross
Point3D r196(const cura::Point3D& self, const Point3D& p)
{
    return Point3D(self.y_ * p.z_ - self.z_ * p.y_, self.z_ * p.x_ - self.x_ * p.z_, self.x_ * p.y_ - self.y_ * p.x_);
}

//= cura::Point3D::cross
Point3D r197(const Point3LL& a, const Point3LL& b)
{
    return Point3D(a).cross(Point3D(b));
}

//= cura::Point3D::dot
double r198(const cura::Point3D& self, const Point3D& p)
{
    return self.x_ * p.x_ + self.y_ * p.y_ + self.z_ * p.z_;
}

//= cura::Point3D::toPoint3
Point3LL r199(cura::Point3D& self)
{
    return Point3LL(MM2INT(self.x_), MM2INT(self.y_), MM2INT(self.z_));
}

//= cura::Point3F::Point3F
void r200(cura::Point3F& self)
{
}

//= cura::Point3F::Point3F
void r201(cura::Point3F& self, float x, float y, float z)
{
    member(self.x_) = x;
    member(self.y_) = y;
    member(self.z_) = z;
}

//= cura::Point3F::toPoint3d
Point3D r202(const cura::Point3F& self)
{
    return Point3D(static_cast<double>(self.x_), static_cast<double>(self.y_), static_cast<double>(self.z_));
}

//= cura::Segment3LL::start
const Point3LL& r203(const cura::Segment3LL& self)
{
    return self.start_;
}

//= cura::Segment3LL::end
const Point3LL& r204(const cura::Segment3LL& self)
{
    return self.end_;
}

//= cura::Segment3LL::setEnd
void r205(cura::Segment3LL& self, const Point3LL& end)
{
    self.end_ = end;
}

//= cura::AngleDegrees::AngleDegrees
void r206(cura::AngleDegrees& self, double value)
{
    member(self.value_) = {std::fmod(std::fmod(value, 360) + 360, 360)};
}

//= cura::AngleDegrees::operator double
double r207(const cura::AngleDegrees& self)
{
    return self.value_;
}

//= cura::AngleDegrees::operator+
AngleDegrees r208(const cura::AngleDegrees& self, const AngleDegrees& other)
{
    return std::fmod(std::fmod(self.value_ + other.value_, 360) + 360, 360);
}

//= cura::AngleDegrees::operator+=
AngleDegrees& r211(cura::AngleDegrees& self, const AngleDegrees& other)
{
    self.value_ = std::fmod(std::fmod(self.value_ + other.value_, 360) + 360, 360);
    return self;
}

//= cura::AngleDegrees::operator-
AngleDegrees r212(const cura::AngleDegrees& self, const AngleDegrees& other)
{
    return std::fmod(std::fmod(self.value_ - other.value_, 360) + 360, 360);
}

//= cura::AngleDegrees::operator-=
AngleDegrees& r213(cura::AngleDegrees& self, const AngleDegrees& other)
{
    self.value_ = std::fmod(std::fmod(self.value_ - other.value_, 360) + 360, 360);
    return self;
}

//= cura::AngleRadians::AngleRadians
namespace n214
{
#define TAU (2.0 * std::numbers::pi)
void r214(cura::AngleRadians& self, double value)
{
    member(self.value_) = {std::fmod(std::fmod(value, TAU) + TAU, TAU)};
}
} // namespace n214

//= cura::AngleRadians::operator double
double r215(const cura::AngleRadians& self)
{
    return self.value_;
}

//= cura::AngleRadians::operator+
namespace n216
{
#define TAU (2.0 * std::numbers::pi)
AngleRadians r216(const cura::AngleRadians& self, const AngleRadians& other)
{
    return std::fmod(std::fmod(self.value_ + other.value_, TAU) + TAU, TAU);
}
} // namespace n216

//= cura::AngleRadians::operator+=
namespace n217
{
#define TAU (2.0 * std::numbers::pi)
AngleRadians& r217(cura::AngleRadians& self, const AngleRadians& other)
{
    self.value_ = std::fmod(std::fmod(self.value_ + other.value_, TAU) + TAU, TAU);
    return self;
}
} // namespace n217

//= cura::AngleRadians::operator-
namespace n218
{
#define TAU (2.0 * std::numbers::pi)
AngleRadians r218(const cura::AngleRadians& self, const AngleRadians& other)
{
    return std::fmod(std::fmod(self.value_ - other.value_, TAU) + TAU, TAU);
}
} // namespace n218

//= cura::AngleRadians::operator-=
namespace n219
{
#define TAU (2.0 * std::numbers::pi)
AngleRadians& r219(cura::AngleRadians& self, const AngleRadians& other)
{
    self.value_ = std::fmod(std::fmod(self.value_ - other.value_, TAU) + TAU, TAU);
    return self;
}
} // namespace n219

//= cura::AngleDegrees::AngleDegrees
namespace n220
{
#define TAU (2.0 * std::numbers::pi)
void r220(cura::AngleDegrees& self, const AngleRadians& value)
{
        member(self.value_) = value.value_ * 360 / TAU;
}
} // namespace n220

//= cura::AngleRadians::AngleRadians
namespace n221
{
#define TAU (2.0 * std::numbers::pi)
void r221(cura::AngleRadians& self, const AngleDegrees& value)
{
        member(self.value_) = value.value_ * TAU / 360.0;
}
} // namespace n221

//= cura::boundedTan
double r222(const AngleRadians& angle)
{
    return std::tan(std::min(static_cast<double>(angle), std::numbers::pi / 2.0 - 0.001));
}

//= cura::Duration::Duration
void r223(cura::Duration& self)
{
    member(self.value_) = 0;
}

//= cura::Duration::Duration
void r224(cura::Duration& self, double value)
{
    member(self.value_) = value > 0.0 ? value : 0.0;
}

//= cura::Duration::operator double
double r225(const cura::Duration& self)
{
    return self.value_;
}

//= cura::Duration::operator+
Duration r226(const cura::Duration& self, const Duration& other)
{
    return Duration(self.value_ + other.value_);
}

//= cura::Duration::operator-
Duration r227(const cura::Duration& self, const Duration& other)
{
    return Duration(self.value_ - other.value_);
}

//= cura::Duration::operator+=
Duration& r228(cura::Duration& self, const Duration& other)
{
    self.value_ += other.value_;
    return self;
}

//= cura::Duration::operator-=
Duration& r229(cura::Duration& self, const Duration& other)
{
    self.value_ -= other.value_;
    return self;
}

//= cura::operator""_s
Duration r230(const long double seconds)
{
    return Duration(static_cast<double>(seconds));
}

//= cura::operator<<
std::ostream& r231(std::ostream& out, const Duration seconds)
{
    constexpr bool pretty_print = false;
    double s = seconds;
    if (pretty_print && seconds > 60)
    {
        int min = static_cast<int>(seconds) / 60;
        s -= min * 60;
        if (min > 60)
        {
            int hrs = min / 60;
            min -= hrs * 60;
            out << hrs << "h ";
        }
        out << min << "min ";
    }
    out << s << (pretty_print ? "s" : "");
    return out;
}

//= cura::operator*
Duration r232(const double lhs, const Duration& rhs)
{
    return Duration(lhs * rhs.value_);
}

//= cura::LayerIndex::operator==
bool r239(const cura::LayerIndex& self, const LayerIndex& other)
{
    return self.value == other.value;
}

//= cura::LayerIndex::operator+=
LayerIndex& r244(cura::LayerIndex& self, const LayerIndex& other)
{
    self.value += other.value;
    return self;
}

//= cura::LayerIndex::operator-=
LayerIndex& r247(cura::LayerIndex& self, const LayerIndex& other)
{
    self.value -= other.value;
    return self;
}

//= cura::LayerIndex::operator*=
LayerIndex& r250(cura::LayerIndex& self, const LayerIndex& other)
{
    self.value *= other.value;
    return self;
}

//= cura::LayerIndex::operator/=
LayerIndex& r251(cura::LayerIndex& self, const LayerIndex& other)
{
    self.value /= other.value;
    return self;
}

//= cura::LayerIndex::operator+
LayerIndex r252(const cura::LayerIndex& self, const LayerIndex& other)
{
    return { self.value + other.value };
}

//= cura::LayerIndex::operator+
LayerIndex r253(const cura::LayerIndex& self, LayerIndex&& other)
{
    return { self.value + other.value };
}

//= cura::LayerIndex::operator-
LayerIndex r256(const cura::LayerIndex& self, const LayerIndex& other)
{
    return { self.value - other.value };
}

//= cura::LayerIndex::operator*
LayerIndex r259(const cura::LayerIndex& self, const LayerIndex& other)
{
    return { self.value * other.value };
}

//= cura::LayerIndex::operator/
LayerIndex r261(const cura::LayerIndex& self, const LayerIndex& other)
{
    return { self.value / other.value };
}

//= cura::LayerIndex::operator-
LayerIndex r264(const cura::LayerIndex& self)
{
    return { -self.value };
}

//= cura::LayerIndex::operator++
LayerIndex& r265(cura::LayerIndex& self)
{
    ++self.value;
    return self;
}

//= cura::LayerIndex::operator--
LayerIndex& r267(cura::LayerIndex& self)
{
    --self.value;
    return self;
}

//= cura::format_as
auto r269(LayerIndex index)
{
    return index.value;
}

//= cura::distance
LayerIndex r270(const LayerIndex& lhs, const LayerIndex& rhs)
{
    return rhs - lhs;
}

//= cura::operator""_r
Ratio r273(const long double ratio)
{
    return { ratio };
}

//= cura::Temperature::Temperature
void r274(cura::Temperature& self)
{
member(self.value) = 0.0;};

//= cura::Temperature::Temperature
void r275(cura::Temperature& self, double value_t)
{
member(self.value) = value_t;};

//= cura::Temperature::operator double
double r276(const cura::Temperature& self)
{
    return self.value;
}

//= cura::Temperature::operator+
Temperature r277(const cura::Temperature& self, const Temperature& other)
{
    return Temperature(self.value + other.value);
};

//= cura::Temperature::operator-
Temperature r278(const cura::Temperature& self, const Temperature& other)
{
    return Temperature(self.value - other.value);
};

//= cura::Temperature::operator+=
Temperature& r279(cura::Temperature& self, const Temperature& other)
{
    self.value += other.value;
    return self;
}

//= cura::Temperature::operator-=
Temperature& r280(cura::Temperature& self, const Temperature& other)
{
    self.value -= other.value;
    return self;
}

//END
}  // namespace ref
