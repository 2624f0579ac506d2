// What the wall distribution strategies must answer (B01: questions, B02: beads).
#include "ref.h"
#include "BeadingStrategy/BeadingStrategy.h"
#include "BeadingStrategy/BeadingStrategyFactory.h"
#include "BeadingStrategy/DistributedBeadingStrategy.h"
#include "BeadingStrategy/InnerWallInsetBeadingStrategy.h"
#include "BeadingStrategy/LimitedBeadingStrategy.h"
#include "BeadingStrategy/OuterWallInsetBeadingStrategy.h"
#include "BeadingStrategy/RedistributeBeadingStrategy.h"
#include "BeadingStrategy/WideningBeadingStrategy.h"
#include <algorithm>
#include <cassert>
#include <limits>
#include <numeric>
#include <range/v3/view/drop.hpp>
#include <spdlog/spdlog.h>

namespace ref
{
using namespace cura;
using Beading = BeadingStrategy::Beading;

void copy_base(BeadingStrategy& self, const BeadingStrategy& other)
{
    member(self.name_) = other.name_;
    member(self.optimal_width_) = other.optimal_width_;
    member(self.wall_split_middle_threshold_) = other.wall_split_middle_threshold_;
    member(self.wall_add_middle_threshold_) = other.wall_add_middle_threshold_;
    member(self.default_transition_length_) = other.default_transition_length_;
    member(self.transitioning_angle_) = other.transitioning_angle_;
}

//= cura::BeadingStrategy::BeadingStrategy | prop=B01
void r1(cura::BeadingStrategy& self, coord_t optimal_width, Ratio wall_split_middle_threshold, Ratio wall_add_middle_threshold, coord_t default_transition_length, double transitioning_angle)
{
        member(self.name_) = "Unknown";
        member(self.optimal_width_) = optimal_width;
        member(self.wall_split_middle_threshold_) = wall_split_middle_threshold;
        member(self.wall_add_middle_threshold_) = wall_add_middle_threshold;
        member(self.default_transition_length_) = default_transition_length;
        member(self.transitioning_angle_) = double(transitioning_angle);
}

//= cura::BeadingStrategy::BeadingStrategy | prop=B01
void r2(cura::BeadingStrategy& self, const BeadingStrategy& other)
{
        member(self.name_) = other.name_;
        member(self.optimal_width_) = other.optimal_width_;
        member(self.wall_split_middle_threshold_) = other.wall_split_middle_threshold_;
        member(self.wall_add_middle_threshold_) = other.wall_add_middle_threshold_;
        member(self.default_transition_length_) = other.default_transition_length_;
        member(self.transitioning_angle_) = other.transitioning_angle_;
}

//= cura::BeadingStrategy::getTransitioningLength | prop=B01
coord_t r3(const cura::BeadingStrategy& self, coord_t lower_bead_count)
{
    if (lower_bead_count == 0)
    {
        return 10;
    }
    return self.default_transition_length_;
}

//= cura::BeadingStrategy::getTransitionAnchorPos | prop=B01
double r4(const cura::BeadingStrategy& self, coord_t lower_bead_count)
{
    coord_t lower_optimum = self.getOptimalThickness(lower_bead_count);
    coord_t transition_point = self.getTransitionThickness(lower_bead_count);
    coord_t upper_optimum = self.getOptimalThickness(lower_bead_count + 1);
    return 1.0 - static_cast<double>(transition_point - lower_optimum) / static_cast<double>(upper_optimum - lower_optimum);
}

//= cura::BeadingStrategy::getNonlinearThicknesses | prop=B01
std::vector<coord_t> r5(const cura::BeadingStrategy& self, [[maybe_unused]] coord_t lower_bead_count)
{
    return std::vector<coord_t>();
}

//= cura::BeadingStrategy::toString | prop=B01
std::string r6(const cura::BeadingStrategy& self)
{
    return self.name_;
}

//= cura::BeadingStrategy::getDefaultTransitionLength | prop=B01
coord_t r7(const cura::BeadingStrategy& self)
{
    return self.default_transition_length_;
}

//= cura::BeadingStrategy::getOptimalWidth | prop=B01
coord_t r8(const cura::BeadingStrategy& self)
{
    return self.optimal_width_;
}

//= cura::BeadingStrategy::getSplitMiddleThreshold | prop=B01
Ratio r9(const cura::BeadingStrategy& self)
{
    return self.wall_split_middle_threshold_;
}

//= cura::BeadingStrategy::getAddMiddleThreshold | prop=B01
Ratio r10(const cura::BeadingStrategy& self)
{
    return self.wall_add_middle_threshold_;
}

//= cura::BeadingStrategy::getTransitioningAngle | prop=B01
AngleRadians r11(const cura::BeadingStrategy& self)
{
    return self.transitioning_angle_;
}

//= cura::BeadingStrategy::getOptimalThickness | prop=B01
coord_t r12(const cura::BeadingStrategy& self, coord_t bead_count)
{
    return self.optimal_width_ * bead_count;
}

//= cura::BeadingStrategy::getTransitionThickness | prop=B01
coord_t r13(const cura::BeadingStrategy& self, coord_t lower_bead_count)
{
    const coord_t lower_ideal_width = self.getOptimalThickness(lower_bead_count);
    const coord_t higher_ideal_width = self.getOptimalThickness(lower_bead_count + 1);
    const Ratio threshold = lower_bead_count % 2 == 1 ? self.wall_split_middle_threshold_ : self.wall_add_middle_threshold_;
    return lower_ideal_width + threshold * (higher_ideal_width - lower_ideal_width);
}

//= cura::BeadingStrategyFactory::makeStrategy | prop=B01
BeadingStrategyPtr r14(const coord_t preferred_bead_width_outer, const coord_t preferred_bead_width_inner, const coord_t preferred_transition_length, const double transitioning_angle, const bool print_thin_walls, const coord_t min_bead_width, const coord_t min_feature_size, const Ratio wall_split_middle_threshold, const Ratio wall_add_middle_threshold, const coord_t max_bead_count, const coord_t outer_wall_offset, const coord_t inner_wall_offset, const int inward_distributed_center_wall_count, const Ratio minimum_variable_line_ratio)
{
    using std::make_unique;
    using std::move;
    BeadingStrategyPtr ret = make_unique<DistributedBeadingStrategy>(
        preferred_bead_width_inner,
        preferred_transition_length,
        transitioning_angle,
        wall_split_middle_threshold,
        wall_add_middle_threshold,
        inward_distributed_center_wall_count);
    ret = make_unique<RedistributeBeadingStrategy>(preferred_bead_width_outer, minimum_variable_line_ratio, std::move(ret));
    if (print_thin_walls)
    {
        ret = make_unique<WideningBeadingStrategy>(std::move(ret), min_feature_size, min_bead_width);
    }
    if (outer_wall_offset > 0)
    {
        ret = make_unique<OuterWallInsetBeadingStrategy>(outer_wall_offset, std::move(ret));
    }
    if (inner_wall_offset != 0)
    {
        ret = make_unique<InnerWallInsetBeadingStrategy>(inner_wall_offset, std::move(ret));
    }
    ret = make_unique<LimitedBeadingStrategy>(max_bead_count, std::move(ret));
    return ret;
}

//= cura::DistributedBeadingStrategy::DistributedBeadingStrategy | prop=B01
void r15(cura::DistributedBeadingStrategy& self, const coord_t optimal_width, const coord_t default_transition_length, const AngleRadians transitioning_angle, const Ratio wall_split_middle_threshold, const Ratio wall_add_middle_threshold, const int distribution_radius)
{
        member(self.optimal_width_) = optimal_width;
        member(self.wall_split_middle_threshold_) = wall_split_middle_threshold;
        member(self.wall_add_middle_threshold_) = wall_add_middle_threshold;
        member(self.default_transition_length_) = default_transition_length;
        member(self.transitioning_angle_) = double(transitioning_angle);
    if (distribution_radius >= 2)
    {
        member(self.one_over_distribution_radius_squared_) = 1.0f / (distribution_radius - 1) * 1.0f / (distribution_radius - 1);
    }
    else
    {
        member(self.one_over_distribution_radius_squared_) = 1.0f / 1 * 1.0f / 1;
    }
    member(self.name_) = "DistributedBeadingStrategy";
}

//= cura::DistributedBeadingStrategy::compute | prop=B02
Beading r16(const cura::DistributedBeadingStrategy& self, coord_t thickness, coord_t bead_count)
{
    Beading ret;
    ret.total_thickness = thickness;
    if (bead_count > 2)
    {
        const coord_t to_be_divided = thickness - bead_count * self.optimal_width_;
        const double middle = static_cast<double>(bead_count - 1) / 2;
        const auto getWeight = [middle, &self](coord_t bead_idx)
        {
            const double dev_from_middle = bead_idx - middle;
            return std::max(0.0, 1.0 - self.one_over_distribution_radius_squared_ * dev_from_middle * dev_from_middle);
        };
        std::vector<double> weights;
        weights.resize(bead_count);
        for (coord_t bead_idx = 0; bead_idx < bead_count; bead_idx++)
        {
            weights[bead_idx] = getWeight(bead_idx);
        }
        const double total_weight = std::accumulate(weights.cbegin(), weights.cend(), 0.0);
        for (coord_t bead_idx = 0; bead_idx < bead_count; bead_idx++)
        {
            const double weight_fraction = weights[bead_idx] / total_weight;
            const coord_t splitup_left_over_weight = to_be_divided * weight_fraction;
            const coord_t width = self.optimal_width_ + splitup_left_over_weight;
            if (bead_idx == 0)
            {
                ret.toolpath_locations.emplace_back(width / 2);
            }
            else
            {
                ret.toolpath_locations.emplace_back(ret.toolpath_locations.back() + (ret.bead_widths.back() + width) / 2);
            }
            ret.bead_widths.emplace_back(width);
        }
        ret.left_over = 0;
    }
    else if (bead_count == 2)
    {
        const coord_t outer_width = thickness / 2;
        ret.bead_widths.emplace_back(outer_width);
        ret.bead_widths.emplace_back(outer_width);
        ret.toolpath_locations.emplace_back(outer_width / 2);
        ret.toolpath_locations.emplace_back(thickness - outer_width / 2);
        ret.left_over = 0;
    }
    else if (bead_count == 1)
    {
        const coord_t outer_width = thickness;
        ret.bead_widths.emplace_back(outer_width);
        ret.toolpath_locations.emplace_back(outer_width / 2);
        ret.left_over = 0;
    }
    else
    {
        ret.left_over = thickness;
    }
    return ret;
}

//= cura::DistributedBeadingStrategy::getOptimalBeadCount | prop=B01
coord_t r17(const cura::DistributedBeadingStrategy& self, coord_t thickness)
{
    const coord_t naive_count = thickness / self.optimal_width_; 
    const coord_t remainder = thickness - naive_count * self.optimal_width_; 
    const coord_t minimum_line_width = self.optimal_width_ * (naive_count % 2 == 1 ? self.wall_split_middle_threshold_ : self.wall_add_middle_threshold_);
    return naive_count + (remainder >= minimum_line_width); 
}

//= cura::InnerWallInsetBeadingStrategy::InnerWallInsetBeadingStrategy | prop=B01
void r18(cura::InnerWallInsetBeadingStrategy& self, coord_t inner_wall_offset, BeadingStrategyPtr parent)
{
        copy_base(self, *parent);
        member(self.parent_) = std::move(parent);
        member(self.inner_wall_offset_) = inner_wall_offset;
    member(self.name_) = "InnerWallInsetBeadingStrategy";
}

//= cura::InnerWallInsetBeadingStrategy::getOptimalThickness | prop=B01
coord_t r19(const cura::InnerWallInsetBeadingStrategy& self, coord_t bead_count)
{
    return self.parent_->getOptimalThickness(bead_count);
}

//= cura::InnerWallInsetBeadingStrategy::getTransitionThickness | prop=B01
coord_t r20(const cura::InnerWallInsetBeadingStrategy& self, coord_t lower_bead_count)
{
    return self.parent_->getTransitionThickness(lower_bead_count);
}

//= cura::InnerWallInsetBeadingStrategy::getOptimalBeadCount | prop=B01
coord_t r21(const cura::InnerWallInsetBeadingStrategy& self, coord_t thickness)
{
    return self.parent_->getOptimalBeadCount(thickness);
}

//= cura::InnerWallInsetBeadingStrategy::getTransitioningLength | prop=B01
coord_t r22(const cura::InnerWallInsetBeadingStrategy& self, coord_t lower_bead_count)
{
    return self.parent_->getTransitioningLength(lower_bead_count);
}

//= cura::InnerWallInsetBeadingStrategy::toString | prop=B01
std::string r23(const cura::InnerWallInsetBeadingStrategy& self)
{
    return std::string("InnerWallInsetBeadingStrategy+") + self.parent_->toString();
}

//= cura::InnerWallInsetBeadingStrategy::compute | prop=B02
Beading r24(const cura::InnerWallInsetBeadingStrategy& self, coord_t thickness, coord_t bead_count)
{
    Beading ret = self.parent_->compute(thickness, bead_count);
    bead_count = std::count_if(
        ret.bead_widths.begin(),
        ret.bead_widths.end(),
        [](const coord_t width)
        {
            return width > 0;
        });
    if (bead_count < 2)
    {
        return ret;
    }
    for (auto& location : ret.toolpath_locations | ranges::views::drop(1))
    {
        location += self.inner_wall_offset_;
    }
    return ret;
}

//= cura::LimitedBeadingStrategy::toString | prop=B01
std::string r25(const cura::LimitedBeadingStrategy& self)
{
    return std::string("LimitedBeadingStrategy+") + self.parent_->toString();
}

//= cura::LimitedBeadingStrategy::getTransitioningLength | prop=B01
coord_t r26(const cura::LimitedBeadingStrategy& self, coord_t lower_bead_count)
{
    return self.parent_->getTransitioningLength(lower_bead_count);
}

//= cura::LimitedBeadingStrategy::getTransitionAnchorPos | prop=B01
double r27(const cura::LimitedBeadingStrategy& self, coord_t lower_bead_count)
{
    return self.parent_->getTransitionAnchorPos(lower_bead_count);
}

//= cura::LimitedBeadingStrategy::LimitedBeadingStrategy | prop=B01
void r28(cura::LimitedBeadingStrategy& self, const coord_t max_bead_count, BeadingStrategyPtr parent)
{
        copy_base(self, *parent);
        member(self.max_bead_count_) = max_bead_count;
        member(self.parent_) = std::move(parent);
    if (max_bead_count % 2 == 1)
    {
        RUN_ONCE(spdlog::warn("LimitedBeadingStrategy with odd bead count is odd indeed!"));
    }
}

//= cura::LimitedBeadingStrategy::compute | prop=B02
Beading r29(const cura::LimitedBeadingStrategy& self, coord_t thickness, coord_t bead_count)
{
    if (bead_count <= self.max_bead_count_)
    {
        Beading ret = self.parent_->compute(thickness, bead_count);
        bead_count = ret.toolpath_locations.size();
        if (bead_count % 2 == 0 && bead_count == self.max_bead_count_)
        {
            const coord_t innermost_toolpath_location = ret.toolpath_locations[self.max_bead_count_ / 2 - 1];
            const coord_t innermost_toolpath_width = ret.bead_widths[self.max_bead_count_ / 2 - 1];
            ret.toolpath_locations.insert(ret.toolpath_locations.begin() + self.max_bead_count_ / 2, innermost_toolpath_location + innermost_toolpath_width / 2);
            ret.bead_widths.insert(ret.bead_widths.begin() + self.max_bead_count_ / 2, 0);
        }
        return ret;
    }
    if (bead_count != self.max_bead_count_ + 1)
    {
        RUN_ONCE(spdlog::warn("Too many beads! {} != {}", bead_count, self.max_bead_count_ + 1));
    }
    coord_t optimal_thickness = self.parent_->getOptimalThickness(self.max_bead_count_);
    Beading ret = self.parent_->compute(optimal_thickness, self.max_bead_count_);
    bead_count = ret.toolpath_locations.size();
    ret.left_over += thickness - ret.total_thickness;
    ret.total_thickness = thickness;
    if (bead_count % 2 == 1)
    {
        ret.toolpath_locations[bead_count / 2] = thickness / 2;
        ret.bead_widths[bead_count / 2] = thickness - optimal_thickness;
    }
    for (coord_t bead_idx = 0; bead_idx < (bead_count + 1) / 2; bead_idx++)
    {
        ret.toolpath_locations[bead_count - 1 - bead_idx] = thickness - ret.toolpath_locations[bead_idx];
    }
    coord_t innermost_toolpath_location = ret.toolpath_locations[self.max_bead_count_ / 2 - 1];
    coord_t innermost_toolpath_width = ret.bead_widths[self.max_bead_count_ / 2 - 1];
    ret.toolpath_locations.insert(ret.toolpath_locations.begin() + self.max_bead_count_ / 2, innermost_toolpath_location + innermost_toolpath_width / 2);
    ret.bead_widths.insert(ret.bead_widths.begin() + self.max_bead_count_ / 2, 0);
    const size_t opposite_bead = bead_count - (self.max_bead_count_ / 2 - 1);
    innermost_toolpath_location = ret.toolpath_locations[opposite_bead];
    innermost_toolpath_width = ret.bead_widths[opposite_bead];
    ret.toolpath_locations.insert(ret.toolpath_locations.begin() + opposite_bead, innermost_toolpath_location - innermost_toolpath_width / 2);
    ret.bead_widths.insert(ret.bead_widths.begin() + opposite_bead, 0);
    return ret;
}

//= cura::LimitedBeadingStrategy::getOptimalThickness | prop=B01
coord_t r30(const cura::LimitedBeadingStrategy& self, coord_t bead_count)
{
    if (bead_count <= self.max_bead_count_)
    {
        return self.parent_->getOptimalThickness(bead_count);
    }
    return 10000000; 
}

//= cura::LimitedBeadingStrategy::getTransitionThickness | prop=B01
coord_t r31(const cura::LimitedBeadingStrategy& self, coord_t lower_bead_count)
{
    if (lower_bead_count < self.max_bead_count_)
    {
        return self.parent_->getTransitionThickness(lower_bead_count);
    }
    if (lower_bead_count == self.max_bead_count_)
    {
        return self.parent_->getOptimalThickness(lower_bead_count + 1) - 10;
    }
    return 9000000; 
}

//= cura::LimitedBeadingStrategy::getOptimalBeadCount | prop=B01
coord_t r32(const cura::LimitedBeadingStrategy& self, coord_t thickness)
{
    coord_t parent_bead_count = self.parent_->getOptimalBeadCount(thickness);
    if (parent_bead_count <= self.max_bead_count_)
    {
        return self.parent_->getOptimalBeadCount(thickness);
    }
    else if (parent_bead_count == self.max_bead_count_ + 1)
    {
        if (thickness < self.parent_->getOptimalThickness(self.max_bead_count_ + 1) - 10)
            return self.max_bead_count_;
        else
            return self.max_bead_count_ + 1;
    }
    else
        return self.max_bead_count_ + 1;
}

//= cura::OuterWallInsetBeadingStrategy::OuterWallInsetBeadingStrategy | prop=B01
void r33(cura::OuterWallInsetBeadingStrategy& self, coord_t outer_wall_offset, BeadingStrategyPtr parent)
{
        copy_base(self, *parent);
        member(self.parent_) = std::move(parent);
        member(self.outer_wall_offset_) = outer_wall_offset;
    member(self.name_) = "OuterWallOfsetBeadingStrategy";
}

//= cura::OuterWallInsetBeadingStrategy::getOptimalThickness | prop=B01
coord_t r34(const cura::OuterWallInsetBeadingStrategy& self, coord_t bead_count)
{
    return self.parent_->getOptimalThickness(bead_count);
}

//= cura::OuterWallInsetBeadingStrategy::getTransitionThickness | prop=B01
coord_t r35(const cura::OuterWallInsetBeadingStrategy& self, coord_t lower_bead_count)
{
    return self.parent_->getTransitionThickness(lower_bead_count);
}

//= cura::OuterWallInsetBeadingStrategy::getOptimalBeadCount | prop=B01
coord_t r36(const cura::OuterWallInsetBeadingStrategy& self, coord_t thickness)
{
    return self.parent_->getOptimalBeadCount(thickness);
}

//= cura::OuterWallInsetBeadingStrategy::getTransitioningLength | prop=B01
coord_t r37(const cura::OuterWallInsetBeadingStrategy& self, coord_t lower_bead_count)
{
    return self.parent_->getTransitioningLength(lower_bead_count);
}

//= cura::OuterWallInsetBeadingStrategy::toString | prop=B01
std::string r38(const cura::OuterWallInsetBeadingStrategy& self)
{
    return std::string("OuterWallOfsetBeadingStrategy+") + self.parent_->toString();
}

//= cura::OuterWallInsetBeadingStrategy::compute | prop=B02
Beading r39(const cura::OuterWallInsetBeadingStrategy& self, coord_t thickness, coord_t bead_count)
{
    Beading ret = self.parent_->compute(thickness, bead_count);
    bead_count = std::count_if(
        ret.bead_widths.begin(),
        ret.bead_widths.end(),
        [](const coord_t width)
        {
            return width > 0;
        });
    if (bead_count < 2)
    {
        return ret;
    }
    ret.toolpath_locations[0] = std::min(ret.toolpath_locations[0] + self.outer_wall_offset_, thickness / 2);
    return ret;
}

//= cura::RedistributeBeadingStrategy::RedistributeBeadingStrategy | prop=B01
void r40(cura::RedistributeBeadingStrategy& self, const coord_t optimal_width_outer, const Ratio minimum_variable_line_ratio, BeadingStrategyPtr parent)
{
        copy_base(self, *parent);
        member(self.parent_) = std::move(parent);
        member(self.optimal_width_outer_) = optimal_width_outer;
        member(self.minimum_variable_line_ratio_) = minimum_variable_line_ratio;
    member(self.name_) = "RedistributeBeadingStrategy";
}

//= cura::RedistributeBeadingStrategy::getOptimalThickness | prop=B01
coord_t r41(const cura::RedistributeBeadingStrategy& self, coord_t bead_count)
{
    const coord_t inner_bead_count = std::max(static_cast<coord_t>(0), bead_count - 2);
    const coord_t outer_bead_count = bead_count - inner_bead_count;
    return self.parent_->getOptimalThickness(inner_bead_count) + self.optimal_width_outer_ * outer_bead_count;
}

//= cura::RedistributeBeadingStrategy::getTransitionThickness | prop=B01
coord_t r42(const cura::RedistributeBeadingStrategy& self, coord_t lower_bead_count)
{
    switch (lower_bead_count)
    {
    case 0:
        return self.minimum_variable_line_ratio_ * self.optimal_width_outer_;
    case 1:
        return (1.0 + self.parent_->getSplitMiddleThreshold()) * self.optimal_width_outer_;
    default:
        return self.parent_->getTransitionThickness(lower_bead_count - 2) + 2 * self.optimal_width_outer_;
    }
}

//= cura::RedistributeBeadingStrategy::getOptimalBeadCount | prop=B01
coord_t r43(const cura::RedistributeBeadingStrategy& self, coord_t thickness)
{
    if (thickness < self.minimum_variable_line_ratio_ * self.optimal_width_outer_)
    {
        return 0;
    }
    if (thickness <= 2 * self.optimal_width_outer_)
    {
        return thickness > (1.0 + self.parent_->getSplitMiddleThreshold()) * self.optimal_width_outer_ ? 2 : 1;
    }
    return self.parent_->getOptimalBeadCount(thickness - 2 * self.optimal_width_outer_) + 2;
}

//= cura::RedistributeBeadingStrategy::getTransitioningLength | prop=B01
coord_t r44(const cura::RedistributeBeadingStrategy& self, coord_t lower_bead_count)
{
    return self.parent_->getTransitioningLength(lower_bead_count);
}

//= cura::RedistributeBeadingStrategy::getTransitionAnchorPos | prop=B01
double r45(const cura::RedistributeBeadingStrategy& self, coord_t lower_bead_count)
{
    return self.parent_->getTransitionAnchorPos(lower_bead_count);
}

//= cura::RedistributeBeadingStrategy::toString | prop=B01
std::string r46(const cura::RedistributeBeadingStrategy& self)
{
    return std::string("RedistributeBeadingStrategy+") + self.parent_->toString();
}

//= cura::RedistributeBeadingStrategy::compute | prop=B02
Beading r47(const cura::RedistributeBeadingStrategy& self, coord_t thickness, coord_t bead_count)
{
    Beading ret;
    if (bead_count == 0 || thickness < self.minimum_variable_line_ratio_ * self.optimal_width_outer_)
    {
        ret.left_over = thickness;
        ret.total_thickness = thickness;
        return ret;
    }
    const coord_t inner_bead_count = bead_count - 2;
    const coord_t inner_thickness = thickness - 2 * self.optimal_width_outer_;
    if (inner_bead_count > 0 && inner_thickness > 0)
    {
        ret = self.parent_->compute(inner_thickness, inner_bead_count);
        for (auto& toolpath_location : ret.toolpath_locations)
        {
            toolpath_location += self.optimal_width_outer_;
        }
    }
    const coord_t actual_outer_thickness = bead_count > 2 ? std::min(thickness / 2, self.optimal_width_outer_) : thickness / bead_count;
    ret.bead_widths.insert(ret.bead_widths.begin(), actual_outer_thickness);
    ret.toolpath_locations.insert(ret.toolpath_locations.begin(), actual_outer_thickness / 2);
    if (bead_count > 1)
    {
        ret.bead_widths.push_back(actual_outer_thickness);
        ret.toolpath_locations.push_back(thickness - actual_outer_thickness / 2);
    }
    ret.total_thickness = thickness;
    ret.left_over = thickness - std::accumulate(ret.bead_widths.cbegin(), ret.bead_widths.cend(), static_cast<coord_t>(0));
    return ret;
}

//= cura::WideningBeadingStrategy::WideningBeadingStrategy | prop=B01
void r48(cura::WideningBeadingStrategy& self, BeadingStrategyPtr parent, const coord_t min_input_width, const coord_t min_output_width)
{
        copy_base(self, *parent);
        member(self.parent_) = std::move(parent);
        member(self.min_input_width_) = min_input_width;
        member(self.min_output_width_) = min_output_width;
}

//= cura::WideningBeadingStrategy::toString | prop=B01
std::string r49(const cura::WideningBeadingStrategy& self)
{
    return std::string("Widening+") + self.parent_->toString();
}

//= cura::WideningBeadingStrategy::compute | prop=B02
Beading r50(const cura::WideningBeadingStrategy& self, coord_t thickness, coord_t bead_count)
{
    if (thickness < self.optimal_width_)
    {
        Beading ret;
        ret.total_thickness = thickness;
        if (thickness >= self.min_input_width_)
        {
            ret.bead_widths.emplace_back(std::max(thickness, self.min_output_width_));
            ret.toolpath_locations.emplace_back(thickness / 2);
            ret.left_over = 0;
        }
        else
        {
            ret.left_over = thickness;
        }
        return ret;
    }
    else
    {
        return self.parent_->compute(thickness, bead_count);
    }
}

//= cura::WideningBeadingStrategy::getOptimalThickness | prop=B01
coord_t r51(const cura::WideningBeadingStrategy& self, coord_t bead_count)
{
    return self.parent_->getOptimalThickness(bead_count);
}

//= cura::WideningBeadingStrategy::getTransitionThickness | prop=B01
coord_t r52(const cura::WideningBeadingStrategy& self, coord_t lower_bead_count)
{
    if (lower_bead_count == 0)
    {
        return self.min_input_width_;
    }
    else
    {
        return self.parent_->getTransitionThickness(lower_bead_count);
    }
}

//= cura::WideningBeadingStrategy::getOptimalBeadCount | prop=B01
coord_t r53(const cura::WideningBeadingStrategy& self, coord_t thickness)
{
    if (thickness < self.min_input_width_)
        return 0;
    coord_t ret = self.parent_->getOptimalBeadCount(thickness);
    if (thickness >= self.min_input_width_ && ret < 1)
        return 1;
    return ret;
}

//= cura::WideningBeadingStrategy::getTransitioningLength | prop=B01
coord_t r54(const cura::WideningBeadingStrategy& self, coord_t lower_bead_count)
{
    return self.parent_->getTransitioningLength(lower_bead_count);
}

//= cura::WideningBeadingStrategy::getTransitionAnchorPos | prop=B01
double r55(const cura::WideningBeadingStrategy& self, coord_t lower_bead_count)
{
    return self.parent_->getTransitionAnchorPos(lower_bead_count);
}

//= cura::WideningBeadingStrategy::getNonlinearThicknesses | prop=B01
std::vector<coord_t> r56(const cura::WideningBeadingStrategy& self, coord_t lower_bead_count)
{
    std::vector<coord_t> ret;
    ret.emplace_back(self.min_output_width_);
    std::vector<coord_t> pret = self.parent_->getNonlinearThicknesses(lower_bead_count);
    ret.insert(ret.end(), pret.begin(), pret.end());
    return ret;
}

//END
}  // namespace ref
