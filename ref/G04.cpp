// Bounding boxes.
#include <algorithm>
#include <array>
#include <unordered_set>
#include <unordered_map>
#include <set>
#include <map>
#include <list>
#include <vector>
#include <deque>
#include <memory>
#include <numeric>
#include <optional>
#include <functional>
#include <string>
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "geometry/Polygon.h"
#include "geometry/OpenPolyline.h"
#include "geometry/SingleShape.h"
#include "geometry/MixedLinesSet.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "raft.h"
#include "geometry/OpenLinesSet.h"
#include "geometry/Polygon.h"
#include "geometry/Shape.h"
#include "utils/AABB.h"
#include "utils/AABB3D.h"
#include "utils/linearAlg2D.h"
#include <algorithm>
#include <limits>
#include "ref.h"

namespace ref
{
using namespace cura;

//= cura::AABB::AABB
void r1(cura::AABB& self)
{
        member(self.min_) = {POINT_MAX, POINT_MAX};
        member(self.max_) = {POINT_MIN, POINT_MIN};
}

//= cura::AABB::AABB
void r2(cura::AABB& self, const Point2LL& min, const Point2LL& max)
{
        member(self.min_) = min;
        member(self.max_) = max;
}

//= cura::AABB::AABB
void r3(cura::AABB& self, const std::initializer_list<Point2LL>& points)
{
        base<AABB>(self) = ::cura::AABB();
    for (const auto& pt : points)
    {
        self.include(pt);
    }
}

//= cura::AABB::AABB
void r4(cura::AABB& self, const Shape& shape)
{
        member(self.min_) = {POINT_MAX, POINT_MAX};
        member(self.max_) = {POINT_MIN, POINT_MIN};
    self.calculate(shape);
}

//= cura::AABB::AABB
void r5(cura::AABB& self, const OpenLinesSet& lines)
{
        member(self.min_) = {POINT_MAX, POINT_MAX};
        member(self.max_) = {POINT_MIN, POINT_MIN};
    self.calculate(lines);
}

//= cura::AABB::AABB
void r6(cura::AABB& self, const PointsSet& poly)
{
        member(self.min_) = {POINT_MAX, POINT_MAX};
        member(self.max_) = {POINT_MIN, POINT_MIN};
    self.calculate(poly);
}

//= cura::AABB::getMiddle
Point2LL r7(const cura::AABB& self)
{
    return (self.min_ + self.max_) / 2;
}

//= cura::AABB::distanceSquared
coord_t r8(const cura::AABB& self, const Point2LL& p)
{
    const Point2LL a = Point2LL(self.max_.X, self.min_.Y);
    const Point2LL b = Point2LL(self.min_.X, self.max_.Y);
    return (self.contains(p) ? -1 : 1)
         * std::min({ LinearAlg2D::getDist2FromLineSegment(self.min_, a, p),
                      LinearAlg2D::getDist2FromLineSegment(a, self.max_, p),
                      LinearAlg2D::getDist2FromLineSegment(self.max_, b, p),
                      LinearAlg2D::getDist2FromLineSegment(b, self.min_, p) });
}

//= cura::AABB::distanceSquared
coord_t r9(const cura::AABB& self, const AABB& other)
{
    return std::min({
        self.distanceSquared(other.min_),
        other.distanceSquared(self.min_),
        self.distanceSquared(other.max_),
        other.distanceSquared(self.max_),
        self.distanceSquared(Point2LL(other.max_.X, other.min_.Y)),
        other.distanceSquared(Point2LL(self.max_.X, self.min_.Y)),
        self.distanceSquared(Point2LL(other.min_.X, other.max_.Y)),
        other.distanceSquared(Point2LL(self.min_.X, self.max_.Y)),
    });
}

//= cura::AABB::calculate
void r10(cura::AABB& self, const Shape& shape)
{
    self.min_ = Point2LL(POINT_MAX, POINT_MAX);
    self.max_ = Point2LL(POINT_MIN, POINT_MIN);
    for (const Polygon& poly : shape)
    {
        for (const Point2LL& point : poly)
        {
            self.include(point);
        }
    }
}

//= cura::AABB::calculate
void r11(cura::AABB& self, const OpenLinesSet& lines)
{
    self.min_ = Point2LL(POINT_MAX, POINT_MAX);
    self.max_ = Point2LL(POINT_MIN, POINT_MIN);
    for (const OpenPolyline& line : lines)
    {
        for (const Point2LL& point : line)
        {
            self.include(point);
        }
    }
}

//= cura::AABB::calculate
void r12(cura::AABB& self, const PointsSet& poly)
{
    self.min_ = Point2LL(POINT_MAX, POINT_MAX);
    self.max_ = Point2LL(POINT_MIN, POINT_MIN);
    for (const Point2LL& p : poly)
    {
        self.include(p);
    }
}

//= cura::AABB::contains
bool r13(const cura::AABB& self, const Point2LL& point)
{
    return point.X >= self.min_.X && point.X <= self.max_.X && point.Y >= self.min_.Y && point.Y <= self.max_.Y;
}

//= cura::AABB::contains
bool r14(const cura::AABB& self, const AABB& other)
{
    if (self.area() < 0)
    {
        return false;
    }
    if (other.area() < 0)
    {
        return true;
    }
    return other.min_.X >= self.min_.X && other.max_.X <= self.max_.X && other.min_.Y >= self.min_.Y && other.max_.Y <= self.max_.Y;
}

//= cura::AABB::area
coord_t r15(const cura::AABB& self)
{
    if (self.max_.X < self.min_.X || self.max_.Y < self.min_.Y)
    {
        return -1;
    } 
    return (self.max_.X - self.min_.X) * (self.max_.Y - self.min_.Y);
}

//= cura::AABB::hit
bool r16(const cura::AABB& self, const AABB& other)
{
    if (self.max_.X < other.min_.X)
        return false;
    if (self.min_.X > other.max_.X)
        return false;
    if (self.max_.Y < other.min_.Y)
        return false;
    if (self.min_.Y > other.max_.Y)
        return false;
    return true;
}

//= cura::AABB::include
void r17(cura::AABB& self, const Point2LL& point)
{
    self.min_.X = std::min(self.min_.X, point.X);
    self.min_.Y = std::min(self.min_.Y, point.Y);
    self.max_.X = std::max(self.max_.X, point.X);
    self.max_.Y = std::max(self.max_.Y, point.Y);
}

//= cura::AABB::include
void r18(cura::AABB& self, const PointsSet& polygon)
{
    for (const Point2LL& point : polygon)
    {
        self.include(point);
    }
}

//= cura::AABB::include
void r19(cura::AABB& self, const AABB& other)
{
    self.min_.X = std::min(self.min_.X, other.min_.X);
    self.min_.Y = std::min(self.min_.Y, other.min_.Y);
    self.max_.X = std::max(self.max_.X, other.max_.X);
    self.max_.Y = std::max(self.max_.Y, other.max_.Y);
}

//= cura::AABB::expand
void r20(cura::AABB& self, int dist)
{
    if (self.min_ == Point2LL(POINT_MAX, POINT_MAX) || self.max_ == Point2LL(POINT_MIN, POINT_MIN))
    {
        return;
    }
    self.min_.X -= dist;
    self.min_.Y -= dist;
    self.max_.X += dist;
    self.max_.Y += dist;
}

//= cura::AABB::toPolygon
Polygon r21(const cura::AABB& self)
{
    return Polygon({ self.min_, Point2LL(self.max_.X, self.min_.Y), self.max_, Point2LL(self.min_.X, self.max_.Y) }, false);
}

//= cura::AABB::width
coord_t r22(const cura::AABB& self)
{
    return self.max_.X - self.min_.X;
}

//= cura::AABB::height
coord_t r23(const cura::AABB& self)
{
    return self.max_.Y - self.min_.Y;
}

//= cura::AABB::minimumAreaOrientedBoundingBox
std::tuple<AABB, AngleRadians> r24(const Shape& shape)
{
    if (shape[0].size() < 2)
    {
        return { { { 0, 0 }, { 0, 0 } }, 0.0 };
    }
    coord_t min_area = std::numeric_limits<coord_t>::max();
    AngleRadians best_angle = 0.0;
    AABB best_aabb = { { 0, 0 }, { 0, 0 } };
    for (auto iterator = shape[0].beginSegments(); iterator != shape[0].endSegments(); ++iterator)
    {
        const Point2LL& p1 = (*iterator).start;
        const Point2LL& p2 = (*iterator).end;
        const auto x_hat = p2 - p1;
        const auto length = vSize(x_hat);
        if (length < 5)
        {
            continue;
        }
        const auto y_hat = turn90CCW(x_hat);
        AABB aabb;
        for (const auto& p : shape[0])
        {
            Point2LL local_p = {
                dot(p, x_hat) / length,
                dot(p, y_hat) / length,
            };
            aabb.include(local_p);
        }
        coord_t area = aabb.area();
        if (area < min_area)
        {
            min_area = area;
            best_angle = angle_rad(x_hat);
            best_aabb = aabb;
        }
    }
    return { best_aabb, best_angle };
}

//= cura::AABB3D::AABB3D
void r25(cura::AABB3D& self)
{
        member(self.min_) = {std::numeric_limits<int32_t>::max(), std::numeric_limits<int32_t>::max(), std::numeric_limits<int32_t>::max()};
        member(self.max_) = {std::numeric_limits<int32_t>::min(), std::numeric_limits<int32_t>::min(), std::numeric_limits<int32_t>::min()};
}

//= cura::AABB3D::AABB3D
void r26(cura::AABB3D& self, Point3LL min, Point3LL max)
{
        member(self.min_) = min;
        member(self.max_) = max;
}

//= cura::AABB3D::getMiddle
Point3LL r27(const cura::AABB3D& self)
{
    return (self.min_ + self.max_) / 2;
}

//= cura::AABB3D::flatten
AABB r28(const cura::AABB3D& self)
{
    return AABB(Point2LL(self.min_.x_, self.min_.y_), Point2LL(self.max_.x_, self.max_.y_));
}

//= cura::AABB3D::hit
bool r29(const cura::AABB3D& self, const AABB3D& other)
{
    if (self.max_.x_ < other.min_.x_ || self.min_.x_ > other.max_.x_ || self.max_.y_ < other.min_.y_ || self.min_.y_ > other.max_.y_ || self.max_.z_ < other.min_.z_ || self.min_.z_ > other.max_.z_)
    {
        return false;
    }
    return true;
}

//= cura::AABB3D::include
AABB3D r30(cura::AABB3D& self, const Point3LL& p)
{
    self.min_.x_ = std::min(self.min_.x_, p.x_);
    self.min_.y_ = std::min(self.min_.y_, p.y_);
    self.min_.z_ = std::min(self.min_.z_, p.z_);
    self.max_.x_ = std::max(self.max_.x_, p.x_);
    self.max_.y_ = std::max(self.max_.y_, p.y_);
    self.max_.z_ = std::max(self.max_.z_, p.z_);
    return self;
}

//= cura::AABB3D::include
AABB3D r31(cura::AABB3D& self, const AABB3D& aabb)
{
    self.min_.x_ = std::min(self.min_.x_, aabb.min_.x_);
    self.min_.y_ = std::min(self.min_.y_, aabb.min_.y_);
    self.min_.z_ = std::min(self.min_.z_, aabb.min_.z_);
    self.max_.x_ = std::max(self.max_.x_, aabb.max_.x_);
    self.max_.y_ = std::max(self.max_.y_, aabb.max_.y_);
    self.max_.z_ = std::max(self.max_.z_, aabb.max_.z_);
    return self;
}

//= cura::AABB3D::includeZ
AABB3D r32(cura::AABB3D& self, coord_t z)
{
    self.min_.z_ = std::min(self.min_.z_, z);
    self.max_.z_ = std::max(self.max_.z_, z);
    return self;
}

//= cura::AABB3D::translate
AABB3D r33(cura::AABB3D& self, const Point3LL& offset)
{
    self.min_ += offset;
    self.max_ += offset;
    return self;
}

//= cura::AABB3D::translate
AABB3D r34(cura::AABB3D& self, const Point2LL& offset)
{
    self.min_ += offset;
    self.max_ += offset;
    return self;
}

//= cura::AABB3D::expand
AABB3D r35(cura::AABB3D& self, coord_t outset)
{
    self.min_ -= Point3LL(outset, outset, outset);
    self.max_ += Point3LL(outset, outset, outset);
    if (self.min_.x_ > self.max_.x_ || self.min_.y_ > self.max_.y_ || self.min_.z_ > self.max_.z_)
    { 
        self = AABB3D();
    }
    return self;
}

//= cura::AABB3D::expandXY
AABB3D r36(cura::AABB3D& self, coord_t outset)
{
    self.min_ -= Point3LL(outset, outset, 0);
    self.max_ += Point3LL(outset, outset, 0);
    if (self.min_.x_ > self.max_.x_ || self.min_.y_ > self.max_.y_)
    { 
        self = AABB3D();
    }
    return self;
}

//= cura::AABB3D::spanX
coord_t r37(const cura::AABB3D& self)
{
    return self.max_.x_ - self.min_.x_;
}

//= cura::AABB3D::spanY
coord_t r38(const cura::AABB3D& self)
{
    return self.max_.y_ - self.min_.y_;
}

//= cura::AABB3D::spanZ
coord_t r39(const cura::AABB3D& self)
{
    return self.max_.z_ - self.min_.z_;
}

//END
}  // namespace ref
