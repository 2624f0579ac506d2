// What the functions of this unit compute.
#include "infill/LightningTreeNode.h"
#include "geometry/OpenLinesSet.h"
#include "utils/linearAlg2D.h"
using namespace cura;
using LightningTreeNodeSPtr = std::shared_ptr<LightningTreeNode>;
//= cura::LightningTreeNode::hasOffspring
bool LightningTreeNode::hasOffspring(const LightningTreeNodeSPtr& to_be_checked) const
{
    if (to_be_checked == shared_from_this())
    {
        return true;
    }
    for (auto& child_ptr : children_)
    {
        if (child_ptr->hasOffspring(to_be_checked))
            return true;
    }
    return false;
}
//END
//= cura::LightningTreeNode::addChild
LightningTreeNodeSPtr LightningTreeNode::addChild(LightningTreeNodeSPtr& new_child)
{
    assert(new_child != shared_from_this());
    children_.push_back(new_child);
    new_child->parent_ = shared_from_this();
    new_child->is_root_ = false;
    return new_child;
}
//END
//= cura::LightningTreeNode::visitNodes
void LightningTreeNode::visitNodes(const std::function<void(LightningTreeNodeSPtr)>& visitor)
{
    visitor(shared_from_this());
    for (const auto& node : children_)
    {
        assert(node->parent_.lock() == shared_from_this());
        node->visitNodes(visitor);
    }
}
//END
//= cura::LightningTreeNode::deepCopy
LightningTreeNodeSPtr LightningTreeNode::deepCopy() const
{
    LightningTreeNodeSPtr local_root = LightningTreeNode::create(p_);
    local_root->is_root_ = is_root_;
    if (is_root_)
    {
        local_root->last_grounding_location_ = last_grounding_location_.value_or(p_);
    }
    local_root->children_.reserve(children_.size());
    for (const auto& node : children_)
    {
        LightningTreeNodeSPtr child = node->deepCopy();
        child->parent_ = local_root;
        local_root->children_.push_back(child);
    }
    return local_root;
}
//END
//= cura::LightningTreeNode::reroot
void LightningTreeNode::reroot(LightningTreeNodeSPtr new_parent )
{
    if (! is_root_)
    {
        auto old_parent = parent_.lock();
        old_parent->reroot(shared_from_this());
        children_.push_back(old_parent);
    }
    if (new_parent)
    {
        children_.erase(std::remove(children_.begin(), children_.end(), new_parent), children_.end());
        is_root_ = false;
        parent_ = new_parent;
    }
    else
    {
        is_root_ = true;
        parent_.reset();
    }
}
//END
//= cura::LightningTreeNode::closestNode
LightningTreeNodeSPtr LightningTreeNode::closestNode(const Point2LL& loc)
{
    LightningTreeNodeSPtr result = shared_from_this();
    coord_t closest_dist2 = vSize2(p_ - loc);
    for (const auto& child : children_)
    {
        LightningTreeNodeSPtr candidate_node = child->closestNode(loc);
        const coord_t child_dist2 = vSize2(candidate_node->p_ - loc);
        if (child_dist2 < closest_dist2)
        {
            closest_dist2 = child_dist2;
            result = candidate_node;
        }
    }
    return result;
}
//END
//= cura::LightningTreeNode::realign
bool LightningTreeNode::realign(const Shape& outlines, const LocToLineGrid& outline_locator, std::vector<LightningTreeNodeSPtr>& rerooted_parts)
{
    if (outlines.empty())
    {
        return false;
    }
    if (outlines.inside(p_, true))
    {
        Point2LL coll;
        bool reground_me = false;
        const auto remove_unconnected_func{
            [&](const LightningTreeNodeSPtr& child)
            {
                bool connect_branch = child->realign(outlines, outline_locator, rerooted_parts);
                if (connect_branch && PolygonUtils::lineSegmentPolygonsIntersection(child->p_, p_, outlines, outline_locator, coll, outline_locator.getCellSize() * 2))
                {
                    child->last_grounding_location_.reset();
                    child->parent_.reset();
                    child->is_root_ = true;
                    rerooted_parts.push_back(child);
                    reground_me = true;
                    connect_branch = false;
                }
                return ! connect_branch;
            }
        };
        children_.erase(std::remove_if(children_.begin(), children_.end(), remove_unconnected_func), children_.end());
        if (reground_me)
        {
            last_grounding_location_.reset();
        }
        return true;
    }
    for (auto& child : children_)
    {
        if (child->realign(outlines, outline_locator, rerooted_parts))
        {
            child->last_grounding_location_ = p_;
            child->parent_.reset();
            child->is_root_ = true;
            rerooted_parts.push_back(child);
        }
    }
    children_.clear();
    return false;
}
//END
LightningTreeNode::RectilinearJunction
//= cura::LightningTreeNode::straighten
    LightningTreeNode::straighten(const coord_t magnitude, const Point2LL& junction_above, const coord_t accumulated_dist, const coord_t max_remove_colinear_dist2)
{
    constexpr coord_t junction_magnitude_factor_numerator = 3;
    constexpr coord_t junction_magnitude_factor_denominator = 4;
    const coord_t junction_magnitude = magnitude * junction_magnitude_factor_numerator / junction_magnitude_factor_denominator;
    if (children_.size() == 1)
    {
        auto child_p = children_.front();
        coord_t child_dist = vSize(p_ - child_p->p_);
        RectilinearJunction junction_below = child_p->straighten(magnitude, junction_above, accumulated_dist + child_dist, max_remove_colinear_dist2);
        coord_t total_dist_to_junction_below = junction_below.total_recti_dist;
        Point2LL a = junction_above;
        Point2LL b = junction_below.junction_loc;
        if (a != b)
        {
            Point2LL ab = b - a;
            Point2LL destination = a + ab * accumulated_dist / std::max(coord_t(1), total_dist_to_junction_below);
            if (shorterThen(destination - p_, magnitude))
            {
                p_ = destination;
            }
            else
            {
                p_ = p_ + normal(destination - p_, magnitude);
            }
        }
        {
            constexpr coord_t close_enough = 10;
            child_p = children_.front();
            const LightningTreeNodeSPtr& parent_node = parent_.lock();
            if (parent_node && vSize2(child_p->p_ - parent_node->p_) < max_remove_colinear_dist2
                && LinearAlg2D::getDist2FromLineSegment(parent_node->p_, p_, child_p->p_) < close_enough)
            {
                child_p->parent_ = parent_;
                for (auto& sibling : parent_node->children_)
                {
                    if (sibling == shared_from_this())
                    {
                        sibling = child_p;
                        break;
                    }
                }
            }
        }
        return junction_below;
    }
    else
    {
        constexpr coord_t weight = 1000;
        Point2LL junction_moving_dir = normal(junction_above - p_, weight);
        bool prevent_junction_moving = false;
        for (auto& child_p : children_)
        {
            const coord_t child_dist = vSize(p_ - child_p->p_);
            RectilinearJunction below = child_p->straighten(magnitude, p_, child_dist, max_remove_colinear_dist2);
            junction_moving_dir += normal(below.junction_loc - p_, weight);
            if (below.total_recti_dist < magnitude)
            {
                prevent_junction_moving = true;
            }
        }
        if (junction_moving_dir != Point2LL(0, 0) && ! children_.empty() && ! is_root_ && ! prevent_junction_moving)
        {
            coord_t junction_moving_dir_len = vSize(junction_moving_dir);
            if (junction_moving_dir_len > junction_magnitude)
            {
                junction_moving_dir = junction_moving_dir * junction_magnitude / junction_moving_dir_len;
            }
            p_ += junction_moving_dir;
        }
        return RectilinearJunction{ accumulated_dist, p_ };
    }
}
//END
//= cura::LightningTreeNode::prune
coord_t LightningTreeNode::prune(const coord_t& pruning_distance)
{
    if (pruning_distance <= 0)
    {
        return 0;
    }
    coord_t max_distance_pruned = 0;
    for (auto child_it = children_.begin(); child_it != children_.end();)
    {
        auto& child = *child_it;
        coord_t dist_pruned_child = child->prune(pruning_distance);
        if (dist_pruned_child >= pruning_distance)
        {
            max_distance_pruned = std::max(max_distance_pruned, dist_pruned_child);
            ++child_it;
        }
        else
        {
            const Point2LL a = getLocation();
            const Point2LL b = child->getLocation();
            const Point2LL ba = a - b;
            const coord_t ab_len = vSize(ba);
            if (dist_pruned_child + ab_len <= pruning_distance)
            {
                assert(child->children_.empty() && "when pruning away a node all it's children must already have been pruned away");
                max_distance_pruned = std::max(max_distance_pruned, dist_pruned_child + ab_len);
                child_it = children_.erase(child_it);
            }
            else
            {
                const Point2LL n = b + normal(ba, pruning_distance - dist_pruned_child);
                assert(std::abs(vSize(n - b) + dist_pruned_child - pruning_distance) < 10 && "total pruned distance must be equal to the pruning_distance");
                max_distance_pruned = std::max(max_distance_pruned, pruning_distance);
                child->setLocation(n);
                ++child_it;
            }
        }
    }
    return max_distance_pruned;
}
//END
//= cura::LightningTreeNode::removeJunctionOverlap
void LightningTreeNode::removeJunctionOverlap(OpenLinesSet& result_lines, const coord_t line_width) const
{
    const coord_t reduction = line_width / 2;
    for (auto poly_it = result_lines.begin(); poly_it != result_lines.end();)
    {
        OpenPolyline& polyline = *poly_it;
        if (polyline.size() <= 1)
        {
            polyline = std::move(result_lines.back());
            result_lines.pop_back();
            continue;
        }
        coord_t to_be_reduced = reduction;
        Point2LL a = polyline.back();
        for (int point_idx = polyline.size() - 2; point_idx >= 0; point_idx--)
        {
            const Point2LL b = polyline[point_idx];
            const Point2LL ab = b - a;
            const coord_t ab_len = vSize(ab);
            if (ab_len >= to_be_reduced)
            {
                polyline.back() = a + ab * to_be_reduced / ab_len;
                break;
            }
            else
            {
                to_be_reduced -= ab_len;
                polyline.pop_back();
            }
            a = b;
        }
        if (polyline.size() <= 1)
        {
            polyline = std::move(result_lines.back());
            result_lines.pop_back();
        }
        else
        {
            ++poly_it;
        }
    }
}
//END
