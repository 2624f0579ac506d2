// Variable-width lines.
#include <algorithm>
#include <array>
#include <unordered_set>
#include <unordered_map>
#include <set>
#include <map>
#include <list>
#include <vector>
#include <deque>
#include <memory>
#include <numeric>
#include <optional>
#include <functional>
#include <string>
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "geometry/Polygon.h"
#include "geometry/OpenPolyline.h"
#include "geometry/SingleShape.h"
#include "geometry/MixedLinesSet.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "raft.h"
#include "geometry/Point2LL.h"
#include "geometry/Polygon.h"
#include "geometry/Shape.h"
#include "utils/ExtrusionJunction.h"
#include "utils/ExtrusionLine.h"
#include "utils/ExtrusionSegment.h"
#include "utils/PolylineStitcher.h"
#include "utils/Simplify.h"
#include "utils/linearAlg2D.h"
#include "utils/macros.h"
#include "utils/polygonUtils.h"
#include <algorithm>
#include <numbers>
#include <range/v3/view/enumerate.hpp>
#include <range/v3/view/reverse.hpp>
#include <range/v3/view/sliding.hpp>
#include <spdlog/spdlog.h>
#include "utils/ExtrusionJunction.h"
#include "utils/ExtrusionLine.h"
#include "utils/ExtrusionLineStitcher.h"
#include "utils/ExtrusionSegment.h"
#include "ref.h"

namespace ref
{
using namespace cura;

//= cura::ExtrusionJunction::operator==
bool r1(const cura::ExtrusionJunction& self, const ExtrusionJunction& other)
{
    return self.p_ == other.p_ && self.w_ == other.w_ && self.perimeter_index_ == other.perimeter_index_;
}

//= cura::ExtrusionJunction::ExtrusionJunction
void r2(cura::ExtrusionJunction& self, const Point2LL& p, const coord_t w, const coord_t perimeter_index)
{
        member(self.p_) = p;
        member(self.w_) = w;
        member(self.perimeter_index_) = perimeter_index;
}

//= cura::ExtrusionLine::length
coord_t r3(const cura::ExtrusionLine& self)
{
    if (self.junctions_.empty())
    {
        return 0;
    }
    coord_t len = 0;
    ExtrusionJunction prev = self.junctions_.front();
    for (const ExtrusionJunction& next : self.junctions_)
    {
        len += vSize(next.p_ - prev.p_);
        prev = next;
    }
    if (self.is_closed_)
    {
        len += vSize(self.front().p_ - self.back().p_);
    }
    return len;
}

//= cura::ExtrusionLine::getMinimalWidth
coord_t r4(const cura::ExtrusionLine& self)
{
    return std::min_element(
               self.junctions_.cbegin(),
               self.junctions_.cend(),
               [](const ExtrusionJunction& l, const ExtrusionJunction& r)
               {
                   return l.w_ < r.w_;
               })
        ->w_;
}

//= cura::ExtrusionLine::shorterThan
bool r5(const cura::ExtrusionLine& self, const coord_t check_length)
{
    const ExtrusionJunction* p0 = &self.back();
    int64_t length = 0;
    for (const ExtrusionJunction& p1 : (self))
    {
        length += vSize(*p0 - p1);
        if (length >= check_length)
        {
            return false;
        }
        p0 = &p1;
    }
    return true;
}

//= cura::ExtrusionSegment::toShape
Shape r6(cura::ExtrusionSegment& self)
{
    return self.toShape(self.is_reduced_);
}

//= cura::ExtrusionSegment::toShape
Shape r7(cura::ExtrusionSegment& self, bool reduced)
{
    Shape ret;
    const Point2LL vec = self.to_.p_ - self.from_.p_;
    const coord_t vec_length = vSize(vec);
    if (vec_length <= 0) 
    {
        return ret;
    }
    Polygon& poly = ret.newLine();
    const double delta_r = 0.5 * std::abs(self.from_.w_ - self.to_.w_);
    const double vec_length_fixed = std::max(delta_r, static_cast<double>(vec_length));
    float alpha = std::acos(delta_r / vec_length_fixed); 
    if (self.to_.w_ > self.from_.w_)
    {
        alpha = std::numbers::pi - alpha;
    }
    if (alpha <= -std::numbers::pi || alpha >= std::numbers::pi)
    {
        RUN_ONCE(spdlog::warn("Line joint slope is out of bounds (should be between -pi and +pi): {}", alpha));
    }
    double dir = std::atan(vec.Y / static_cast<double>(vec.X));
    if (vec.X < 0)
    {
        dir += std::numbers::pi;
    }
    {
        poly.push_back(self.from_.p_ + Point2LL(self.from_.w_ / 2 * cos(alpha + dir), self.from_.w_ / 2 * sin(alpha + dir)));
        double start_a = 2 * std::numbers::pi;
        while (start_a > alpha + dir)
        {
            start_a -= self.a_step;
        }
        start_a += self.a_step;
        double end_a = -2 * std::numbers::pi;
        while (end_a < 2 * std::numbers::pi - alpha + dir)
        {
            end_a += self.a_step;
        }
        for (double a = start_a; a <= end_a; a += self.a_step)
        {
            poly.emplace_back(self.from_.p_ + Point2LL(self.from_.w_ / 2 * cos(a), self.from_.w_ / 2 * sin(a)));
        }
        poly.emplace_back(self.from_.p_ + Point2LL(self.from_.w_ / 2 * cos(2 * std::numbers::pi - alpha + dir), self.from_.w_ / 2 * sin(2 * std::numbers::pi - alpha + dir)));
    }
    {
        poly.push_back(
            self.to_.p_
            + Point2LL(
                self.to_.w_ / 2 * cos(2 * std::numbers::pi - alpha + dir),
                self.to_.w_ / 2 * sin(2 * std::numbers::pi - alpha + dir))); 
        double start_a = 2 * std::numbers::pi;
        while (start_a > alpha + dir)
        {
            start_a -= self.a_step;
        }
        if (reduced)
        {
            start_a += self.a_step;
        }
        double end_a = -2 * std::numbers::pi;
        while (end_a < 2 * std::numbers::pi - alpha + dir)
            end_a += self.a_step;
        if (reduced)
        {
            end_a -= self.a_step;
        }
        else
        {
            end_a -= 2 * std::numbers::pi;
        }
        if (reduced)
        {
            for (double a = end_a; a >= start_a; a -= self.a_step) 
            {
                poly.emplace_back(self.to_.p_ + Point2LL(self.to_.w_ / 2 * cos(a), self.to_.w_ / 2 * sin(a)));
            }
        }
        else
        {
            for (double a = end_a; a <= start_a; a += self.a_step)
            {
                poly.emplace_back(self.to_.p_ + Point2LL(self.to_.w_ / 2 * cos(a), self.to_.w_ / 2 * sin(a)));
            }
        }
        poly.emplace_back(self.to_.p_ + Point2LL(self.to_.w_ / 2 * cos(alpha + dir), self.to_.w_ / 2 * sin(alpha + dir)));
    }
#ifdef DEBUG
    for (const Point2LL& p : poly)
    {
    }
#endif 
    return ret;
}

//= cura::ExtrusionSegment::discretize
std::vector<ExtrusionSegment> r8(cura::ExtrusionSegment& self, coord_t step_size)
{
    Point2LL a = self.from_.p_;
    Point2LL b = self.to_.p_;
    Point2LL ab = b - a;
    coord_t ab_length = vSize(ab);
    coord_t step_count = std::max(static_cast<coord_t>(1), (ab_length + step_size / 2) / step_size);
    std::vector<ExtrusionSegment> discretized;
    for (coord_t step = 0; step < step_count; step++)
    {
        ExtrusionJunction mid(a + ab * (step + 1) / step_count, self.from_.w_ + (self.to_.w_ - self.from_.w_) * (step + 1) / step_count, self.from_.perimeter_index_);
        discretized.emplace_back(self.from_, mid, self.is_odd_, true);
        self.from_ = mid;
    }
    discretized.back().is_reduced_ = self.is_reduced_;
    return discretized;
}

//= cura::operator-
Point2LL r9(const ExtrusionJunction& a, const ExtrusionJunction& b)
{
    return a.p_ - b.p_;
}

//= cura::make_point
const Point2LL& r10(const ExtrusionJunction& ej)
{
    return ej.p_;
}

//= cura::ExtrusionLine::size
size_t r11(const cura::ExtrusionLine& self)
{
    return self.junctions_.size();
}

//= cura::ExtrusionLine::is_outer_wall
bool r12(const cura::ExtrusionLine& self)
{
    return self.inset_idx_ == 0;
}

//= cura::ExtrusionLine::empty
bool r13(const cura::ExtrusionLine& self)
{
    return self.junctions_.empty();
}

//= cura::ExtrusionLine::ExtrusionLine
void r14(cura::ExtrusionLine& self, size_t inset_idx, bool is_odd, bool is_closed)
{
    member(self.inset_idx_) = inset_idx;
    member(self.is_odd_) = is_odd;
    member(self.is_closed_) = is_closed;
}

//= cura::ExtrusionLine::ExtrusionLine
void r15(cura::ExtrusionLine& self, const ExtrusionLine& other)
{
    member(self.inset_idx_) = other.inset_idx_;
    member(self.is_odd_) = other.is_odd_;
    member(self.is_closed_) = other.is_closed_;
    member(self.junctions_) = other.junctions_;
}

//= cura::ExtrusionLine::operator=
ExtrusionLine& r16(cura::ExtrusionLine& self, ExtrusionLine&& other)
{
    self.junctions_ = std::move(other.junctions_);
    self.inset_idx_ = other.inset_idx_;
    self.is_odd_ = other.is_odd_;
    self.is_closed_ = other.is_closed_;
    return self;
}

//= cura::ExtrusionLine::operator=
ExtrusionLine& r17(cura::ExtrusionLine& self, const ExtrusionLine& other)
{
    self.junctions_ = other.junctions_;
    self.inset_idx_ = other.inset_idx_;
    self.is_odd_ = other.is_odd_;
    self.is_closed_ = other.is_closed_;
    return self;
}

//= cura::ExtrusionLine::begin
std::vector<ExtrusionJunction>::const_iterator r18(const cura::ExtrusionLine& self)
{
    return self.junctions_.begin();
}

//= cura::ExtrusionLine::end
std::vector<ExtrusionJunction>::const_iterator r19(const cura::ExtrusionLine& self)
{
    return self.junctions_.end();
}

//= cura::ExtrusionLine::rbegin
std::vector<ExtrusionJunction>::const_reverse_iterator r20(const cura::ExtrusionLine& self)
{
    return self.junctions_.rbegin();
}

//= cura::ExtrusionLine::rend
std::vector<ExtrusionJunction>::const_reverse_iterator r21(const cura::ExtrusionLine& self)
{
    return self.junctions_.rend();
}

//= cura::ExtrusionLine::front
std::vector<ExtrusionJunction>::const_reference r22(const cura::ExtrusionLine& self)
{
    return self.junctions_.front();
}

//= cura::ExtrusionLine::back
std::vector<ExtrusionJunction>::const_reference r23(const cura::ExtrusionLine& self)
{
    return self.junctions_.back();
}

//= cura::ExtrusionLine::operator[]
const ExtrusionJunction& r24(const cura::ExtrusionLine& self, size_t index)
{
    return self.junctions_[index];
}

//= cura::ExtrusionLine::operator[]
ExtrusionJunction& r25(cura::ExtrusionLine& self, size_t index)
{
    return self.junctions_[index];
}

//= cura::ExtrusionLine::begin
std::vector<ExtrusionJunction>::iterator r26(cura::ExtrusionLine& self)
{
    return self.junctions_.begin();
}

//= cura::ExtrusionLine::end
std::vector<ExtrusionJunction>::iterator r27(cura::ExtrusionLine& self)
{
    return self.junctions_.end();
}

//= cura::ExtrusionLine::front
std::vector<ExtrusionJunction>::reference r28(cura::ExtrusionLine& self)
{
    return self.junctions_.front();
}

//= cura::ExtrusionLine::back
std::vector<ExtrusionJunction>::reference r29(cura::ExtrusionLine& self)
{
    return self.junctions_.back();
}

//= cura::ExtrusionLine::remove
void r32(cura::ExtrusionLine& self, unsigned int index)
{
    self.junctions_.erase(self.junctions_.begin() + index);
}

//= cura::ExtrusionLine::insert
void r33(cura::ExtrusionLine& self, size_t index, const ExtrusionJunction& p)
{
    self.junctions_.insert(self.junctions_.begin() + static_cast<long>(index), p);
}

//= cura::ExtrusionLine::insert | ta=__gnu_cxx::__normal_iterator<const cura::ExtrusionJunction *, std::vector<cura::ExtrusionJunction, std::allocator<cura::ExtrusionJunction>>>
namespace n34
{
using iterator = __gnu_cxx::__normal_iterator<const cura::ExtrusionJunction *, std::vector<cura::ExtrusionJunction, std::allocator<cura::ExtrusionJunction>>>;
std::vector<ExtrusionJunction>::iterator r34(cura::ExtrusionLine& self, std::vector<ExtrusionJunction>::const_iterator pos, iterator first, iterator last)
{
    return self.junctions_.insert(pos, first, last);
}
} // namespace n34

//= cura::ExtrusionLine::insert | ta=std::reverse_iterator<__gnu_cxx::__normal_iterator<const cura::ExtrusionJunction *, std::vector<cura::ExtrusionJunction, std::allocator<cura::ExtrusionJunction>>>>
namespace n35
{
using iterator = std::reverse_iterator<__gnu_cxx::__normal_iterator<const cura::ExtrusionJunction *, std::vector<cura::ExtrusionJunction, std::allocator<cura::ExtrusionJunction>>>>;
std::vector<ExtrusionJunction>::iterator r35(cura::ExtrusionLine& self, std::vector<ExtrusionJunction>::const_iterator pos, iterator first, iterator last)
{
    return self.junctions_.insert(pos, first, last);
}
} // namespace n35

//= cura::ExtrusionLine::clear
void r36(cura::ExtrusionLine& self)
{
    self.junctions_.clear();
}

//= cura::ExtrusionLine::reverse
void r37(cura::ExtrusionLine& self)
{
    std::reverse(self.junctions_.begin(), self.junctions_.end());
}

//= cura::ExtrusionLine::toPolygon
Polygon r38(const cura::ExtrusionLine& self)
{
    Polygon ret;
    for (const ExtrusionJunction& j : self.junctions_)
        ret.push_back(j.p_);
    return ret;
}

//= cura::ExtrusionSegment::ExtrusionSegment
void r39(cura::ExtrusionSegment& self, ExtrusionJunction from, ExtrusionJunction to, bool is_odd, bool is_reduced)
{
    member(self.from_) = from;
    member(self.to_) = to;
    member(self.is_odd_) = is_odd;
    member(self.is_reduced_) = is_reduced;
}

//END
}  // namespace ref
