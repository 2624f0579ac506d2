// What the functions of this unit compute.
#include "infill/SierpinskiFill.h"
#include <algorithm>
#include <assert.h>
#include <functional>
#include <iterator>
#include <spdlog/spdlog.h>
#include "geometry/Polygon.h"
#include "infill/ImageBasedDensityProvider.h"
#include "infill/UniformDensityProvider.h"
#include "utils/AABB3D.h"
#include "utils/SVG.h"
namespace cura
{
static constexpr bool diagonal = true;
static constexpr bool straight = false;
static constexpr double allowed_length_error = 0.01;
static constexpr bool deep_debug_checking = false;
//= cura::SierpinskiFill::SierpinskiFill
SierpinskiFill::SierpinskiFill(const DensityProvider& density_provider, const AABB aabb, int max_depth, const coord_t line_width, bool dithering)
    : dithering_(dithering)
    , constraint_error_diffusion_(dithering)
    , density_provider_(density_provider)
    , aabb_(aabb)
    , line_width_(line_width)
    , max_depth_(max_depth)
{
    createTree();
    createLowerBoundSequence();
    for (SierpinskiTriangle* node : sequence_)
    {
        if (node->getValueError() < -allowed_length_error)
        {
            spdlog::error(
                "Node is subdivided without the appropriate value! value_error: {} from base {} el: {} er: {}, while the realized_length = {}",
                node->getValueError(),
                node->requested_length_,
                node->error_left_,
                node->error_right_,
                node->realized_length_);
            assert(false);
        }
    }
    debugCheck(true);
    settleErrors();
    diffuseError();
}
//END
//= cura::SierpinskiFill::subdivideAll
bool SierpinskiFill::subdivideAll()
{
    std::vector<std::vector<std::list<SierpinskiTriangle*>::iterator>> depth_ordered = getDepthOrdered();
    bool change = false;
    for (std::vector<std::list<SierpinskiTriangle*>::iterator>& depth_nodes : depth_ordered)
        for (std::list<SierpinskiTriangle*>::iterator it : depth_nodes)
        {
            SierpinskiTriangle* node = *it;
            SierpinskiTriangle& triangle = *node;
            std::list<SierpinskiTriangle*>::iterator begin = it;
            std::list<SierpinskiTriangle*>::iterator end = std::next(it);
            if (triangle.dir_ == SierpinskiTriangle::SierpinskiDirection::AC_TO_AB && end != sequence_.end())
            {
                continue;
            }
            if (triangle.dir_ == SierpinskiTriangle::SierpinskiDirection::AB_TO_BC && begin != sequence_.begin())
            {
                begin = std::prev(it);
                assert((*begin)->depth_ == triangle.depth_ || isConstrainedBackward(it));
            }
            else
            {
                assert(begin == std::prev(end));
            }
            bool is_constrained = isConstrainedBackward(begin) || isConstrainedForward(std::prev(end));
            if (node->depth_ == max_depth_)
                continue;
            double total_subdiv_error = getSubdivisionError(begin, end);
            if (! node->children.empty() && total_subdiv_error >= 0 && ! is_constrained)
            {
                bool redistribute_errors = true;
                subdivide(begin, end, redistribute_errors);
                change = true;
            }
        }
    return change;
}
//END
//= cura::SierpinskiFill::bubbleUpConstraintErrors
bool SierpinskiFill::bubbleUpConstraintErrors()
{
    std::vector<std::vector<std::list<SierpinskiTriangle*>::iterator>> depth_ordered = getDepthOrdered();
    bool redistributed_anything = false;
    for (int depth = max_depth_; depth >= 0; depth--)
    {
        std::vector<std::list<SierpinskiTriangle*>::iterator>& depth_nodes = depth_ordered[depth];
        for (std::list<SierpinskiTriangle*>::iterator it : depth_nodes)
        {
            SierpinskiTriangle* node = *it;
            SierpinskiTriangle& triangle = *node;
            double unresolvable_error = triangle.getValueError();
            bool is_constrained_forward = isConstrainedForward(it);
            bool is_constrained_backward = isConstrainedBackward(it);
            if (unresolvable_error > allowed_length_error && (is_constrained_forward || is_constrained_backward))
            {
                if (is_constrained_forward && is_constrained_backward)
                {
                    unresolvable_error *= .5;
                }
                if (deep_debug_checking)
                    debugCheck();
                if (is_constrained_forward)
                {
                    SierpinskiTriangle* next = *std::next(it);
                    node->error_right_ -= unresolvable_error;
                    next->error_left_ += unresolvable_error;
                }
                if (is_constrained_backward)
                {
                    SierpinskiTriangle* prev = *std::prev(it);
                    node->error_left_ -= unresolvable_error;
                    prev->error_right_ += unresolvable_error;
                }
                if (std::abs(unresolvable_error) > allowed_length_error)
                {
                    redistributed_anything = true;
                }
                if (deep_debug_checking)
                    debugCheck();
            }
        }
    }
    return redistributed_anything;
}
//END
std::list<SierpinskiFill::SierpinskiTriangle*>::iterator
//= cura::SierpinskiFill::subdivide
    SierpinskiFill::subdivide(std::list<SierpinskiTriangle*>::iterator begin, std::list<SierpinskiTriangle*>::iterator end, bool redistribute_errors)
{
    if (redistribute_errors && deep_debug_checking)
        debugCheck();
    if (redistribute_errors)
    {
        bool distribute_subdivision_errors = true;
        redistributeLeftoverErrors(begin, end, distribute_subdivision_errors);
        SierpinskiTriangle* first = *begin;
        SierpinskiTriangle* last = *std::prev(end);
        (*begin)->children.front().error_left_ += first->error_left_;
        (*std::prev(end))->children.back().error_right_ += last->error_right_;
    }
    if (redistribute_errors && deep_debug_checking)
        debugCheck(false);
    std::list<SierpinskiFill::SierpinskiTriangle*>::iterator first_child_it = std::prev(begin);
    for (std::list<SierpinskiTriangle*>::iterator it = begin; it != end; ++it)
    {
        SierpinskiTriangle* node = *it;
        assert(! node->children.empty() && "cannot subdivide node with no children!");
        for (SierpinskiTriangle& child : node->children)
        {
            sequence_.insert(begin, &child);
        }
    }
    first_child_it++;
    std::list<SierpinskiTriangle*>::iterator last_child_it = std::prev(begin);
    sequence_.erase(begin, end);
    if (redistribute_errors && deep_debug_checking)
        debugCheck(false);
    if (redistribute_errors)
    {
        balanceErrors(first_child_it, std::next(last_child_it));
    }
    if (redistribute_errors && deep_debug_checking)
        debugCheck();
    return last_child_it;
}
//END
//= cura::SierpinskiFill::redistributeLeftoverErrors
void SierpinskiFill::redistributeLeftoverErrors(std::list<SierpinskiTriangle*>::iterator begin, std::list<SierpinskiTriangle*>::iterator end, bool distribute_subdivision_errors)
{
    SierpinskiTriangle* prev = *std::prev(begin);
    SierpinskiTriangle* next = *end;
    SierpinskiTriangle* first = *begin;
    SierpinskiTriangle* last = *std::prev(end);
    for (auto it = begin; it != end && std::next(it) != end; ++it)
    {
        SierpinskiTriangle* node = *it;
        SierpinskiTriangle* other = *std::next(it);
        if (std::abs(node->error_right_ + other->error_left_) > allowed_length_error)
        {
            spdlog::warn("Nodes aren't balanced! er: {} other el: {}", node->error_right_, other->error_left_);
            assert(false);
        }
        double exchange = node->error_right_;
        if (node->error_right_ < other->error_left_)
        {
            exchange *= -1;
        }
        node->error_right_ -= exchange;
        other->error_left_ += exchange;
    }
    double total_superfluous_error = 0;
    for (auto it = begin; it != end; ++it)
    {
        SierpinskiTriangle* node = *it;
        total_superfluous_error += (distribute_subdivision_errors) ? node->getSubdivisionError() : node->getValueError();
    }
    if (total_superfluous_error < allowed_length_error)
    {
        if (distribute_subdivision_errors && total_superfluous_error < -allowed_length_error)
        {
            spdlog::warn("RedistributeLeftoverErrors shouldn't be called if the node isn't to be subdivided. Total error: {}", total_superfluous_error);
            assert(false);
        }
        return;
    }
    if (begin != sequence_.begin() && end != sequence_.end() && first->error_left_ > allowed_length_error && last->error_right_ > allowed_length_error)
    {
        double total_error_input = first->error_left_ + last->error_right_;
        total_superfluous_error = std::min(total_superfluous_error, total_error_input);
        double left_spillover = total_superfluous_error * first->error_left_ / total_error_input;
        double right_spillover = total_superfluous_error * last->error_right_ / total_error_input;
        (*begin)->error_left_ -= left_spillover;
        prev->error_right_ += left_spillover;
        (*std::prev(end))->error_right_ -= right_spillover;
        next->error_left_ += right_spillover;
    }
    else if (begin != sequence_.begin() && first->error_left_ > allowed_length_error)
    {
        total_superfluous_error = std::min(total_superfluous_error, first->error_left_);
        (*begin)->error_left_ -= total_superfluous_error;
        prev->error_right_ += total_superfluous_error;
        assert(first->error_left_ > -allowed_length_error);
    }
    else if (end != sequence_.end() && last->error_right_ > allowed_length_error)
    {
        total_superfluous_error = std::min(total_superfluous_error, last->error_right_);
        last->error_right_ -= total_superfluous_error;
        next->error_left_ += total_superfluous_error;
        assert(last->error_right_ > -allowed_length_error);
    }
}
//END
//= cura::SierpinskiFill::balanceErrors
void SierpinskiFill::balanceErrors(std::list<SierpinskiFill::SierpinskiTriangle*>::iterator begin, std::list<SierpinskiFill::SierpinskiTriangle*>::iterator end)
{
    std::vector<SierpinskiFill::SierpinskiTriangle*> nodes;
    for (std::list<SierpinskiFill::SierpinskiTriangle*>::iterator it = begin; it != end; ++it)
    {
        nodes.emplace_back(*it);
    }
    std::vector<double> node_error_compensation(nodes.size());
    std::vector<int> order;
    for (unsigned int node_idx = 0; node_idx < nodes.size(); node_idx++)
    {
        order.emplace_back(node_idx);
    }
    std::stable_sort(
        order.begin(),
        order.end(),
        [&nodes](int a, int b)
        {
            return nodes[a]->getValueError() < nodes[b]->getValueError();
        });
    double added = 0;
    unsigned int node_order_idx;
    for (node_order_idx = 0; node_order_idx < nodes.size(); node_order_idx++)
    {
        int node_idx = order[node_order_idx];
        SierpinskiTriangle* node = nodes[node_idx];
        double value_error = node->getValueError();
        if (value_error < 0)
        {
            added -= value_error;
            node_error_compensation[node_idx] = -value_error;
        }
        else
            break;
    }
    if (added == 0)
    {
        return;
    }
    double subtracted = 0;
    double total_remaining_value_error = 0;
    for (unsigned int remaining_node_order_idx = node_order_idx; remaining_node_order_idx < nodes.size(); remaining_node_order_idx++)
    {
        int node_idx = order[remaining_node_order_idx];
        SierpinskiTriangle* node = nodes[node_idx];
        double val_err = node->getValueError();
        assert(val_err > -allowed_length_error);
        total_remaining_value_error += val_err;
    }
    if (total_remaining_value_error < added - allowed_length_error)
    {
        spdlog::warn("total_remaining: {} should be > {}", total_remaining_value_error, added);
        assert(false);
    }
    if (std::abs(total_remaining_value_error) < .0001)
    {
        return;
    }
    for (unsigned int remaining_node_order_idx = node_order_idx; remaining_node_order_idx < nodes.size(); remaining_node_order_idx++)
    {
        int node_idx = order[remaining_node_order_idx];
        SierpinskiTriangle* node = nodes[node_idx];
        double val_error = node->getValueError();
        assert(val_error > -allowed_length_error);
        double diff = added * val_error / total_remaining_value_error;
        subtracted += diff;
        node_error_compensation[node_idx] = -diff;
    }
    if (std::abs(subtracted - added) > allowed_length_error)
    {
        spdlog::warn("Redistribution didn't distribute well!! added {} subtracted {}", added, subtracted);
        assert(false);
    }
    double energy = 0;
    for (unsigned int node_idx = 0; node_idx < nodes.size(); node_idx++)
    {
        nodes[node_idx]->error_left_ -= energy;
        energy += node_error_compensation[node_idx];
        nodes[node_idx]->error_right_ += energy;
    }
    assert(energy < allowed_length_error);
}
//END
//= cura::SierpinskiFill::SierpinskiTriangle::getFromEdge
SierpinskiFill::Edge SierpinskiFill::SierpinskiTriangle::getFromEdge()
{
    Edge ret;
    switch (dir_)
    {
    case SierpinskiDirection::AB_TO_BC:
        ret = Edge{ a_, b_ };
        break;
    case SierpinskiDirection::AC_TO_AB:
        ret = Edge{ straight_corner_, a_ };
        break;
    case SierpinskiDirection::AC_TO_BC:
        ret = Edge{ straight_corner_, a_ };
        break;
    }
    if (! straight_corner_is_left_)
    {
        std::swap(ret.l, ret.r);
    }
    return ret;
}
//END
//= cura::SierpinskiFill::SierpinskiTriangle::getToEdge
SierpinskiFill::Edge SierpinskiFill::SierpinskiTriangle::getToEdge()
{
    Edge ret;
    switch (dir_)
    {
    case SierpinskiDirection::AB_TO_BC:
        ret = Edge{ straight_corner_, b_ };
        break;
    case SierpinskiDirection::AC_TO_AB:
        ret = Edge{ b_, a_ };
        break;
    case SierpinskiDirection::AC_TO_BC:
        ret = Edge{ straight_corner_, b_ };
        break;
    }
    if (! straight_corner_is_left_)
    {
        std::swap(ret.l, ret.r);
    }
    return ret;
}
//END
//= cura::SierpinskiFill::generateCross
Polygon SierpinskiFill::generateCross(coord_t z, coord_t min_dist_to_side, coord_t pocket_size) const
{
    Polygon ret;
    std::function<Point2LL(int, Edge)> get_edge_crossing_location = [z, min_dist_to_side](const coord_t period, const Edge e)
    {
        coord_t from_l = z % (period * 2);
        if (from_l > period)
        {
            from_l = period * 2 - from_l;
        }
        from_l = from_l * vSize(e.l - e.r) / period;
        from_l = std::max(min_dist_to_side, from_l);
        from_l = std::min(vSize(e.l - e.r) - min_dist_to_side, from_l);
        return e.l + normal(e.r - e.l, from_l);
    };
    SierpinskiTriangle* last_triangle = nullptr;
    for (SierpinskiTriangle* node : sequence_)
    {
        SierpinskiTriangle& triangle = *node;
        const coord_t period = vSize(triangle.straight_corner_ - triangle.a_);
        ret.push_back(get_edge_crossing_location(period, triangle.getFromEdge()));
        last_triangle = &triangle;
    }
    assert(last_triangle);
    const coord_t period = vSize(last_triangle->straight_corner_ - last_triangle->a_);
    ret.push_back(get_edge_crossing_location(period, last_triangle->getToEdge()));
    if (pocket_size > 10)
    {
        coord_t pocket_size_side = pocket_size * std::numbers::sqrt2 / 2;
        Polygon pocketed;
        pocketed.reserve(ret.size() * 3 / 2);
        Point2LL p0 = ret.back();
        for (size_t poly_idx = 0; poly_idx < ret.size(); poly_idx++)
        {
            Point2LL p1 = ret[poly_idx];
            Point2LL p2 = ret[(poly_idx + 1) % ret.size()];
            Point2LL v0 = p0 - p1;
            Point2LL v1 = p2 - p1;
            coord_t prod = std::abs(dot(v0, v1));
            bool is_straight_corner = prod < sqrt(vSize(v0) * vSize(v1)) * min_dist_to_side;
            if (is_straight_corner)
            {
                coord_t pocket_rounding
                    = std::min(std::min(pocket_size_side, vSize(v0) / 3), vSize(v1) / 3);
                pocketed.push_back(p1 + normal(v0, pocket_rounding));
                pocketed.push_back(p1 + normal(v1, pocket_rounding));
            }
            else
            {
                pocketed.push_back(p1);
            }
            p0 = p1;
        }
        return pocketed;
    }
    else
    {
        return ret;
    }
}
//END
}
