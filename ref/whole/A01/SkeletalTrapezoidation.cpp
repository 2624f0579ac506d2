// What the functions of this unit compute.
#include "arachne/SkeletalTrapezoidation.h"
#include <numbers>
#include <queue>
#include <sstream>
#include <stack>
#include <unordered_set>
#include <range/v3/algorithm/find_if.hpp>
#include <scripta/logger.h>
#include <spdlog/spdlog.h>
#include "BoostInterface.hpp"
#include "arachne/STHalfEdge.h"
#include "arachne/STHalfEdgeNode.h"
#include "settings/types/Ratio.h"
#include "utils/Simplify.h"
#include "utils/VoronoiUtils.h"
#include "utils/linearAlg2D.h"
#include "utils/macros.h"
#include "utils/polygonUtils.h"
#define SKELETAL_TRAPEZOIDATION_BEAD_SEARCH_MAX \
    1000
namespace cura
{
//= cura::SkeletalTrapezoidation::transferEdge
void SkeletalTrapezoidation::transferEdge(
    Point2LL from,
    Point2LL to,
    vd_t::edge_type& vd_edge,
    edge_t*& prev_edge,
    Point2LL& start_source_point,
    Point2LL& end_source_point,
    const std::vector<Point2LL>& points,
    const std::vector<Segment>& segments)
{
    auto he_edge_it = vd_edge_to_he_edge_.find(vd_edge.twin());
    if (he_edge_it != vd_edge_to_he_edge_.end())
    {
        edge_t* source_twin = he_edge_it->second;
        assert(source_twin);
        auto end_node_it = vd_node_to_he_node_.find(vd_edge.vertex1());
        assert(end_node_it != vd_node_to_he_node_.end());
        node_t* end_node = end_node_it->second;
        for (edge_t* twin = source_twin;; twin = twin->prev_->twin_->prev_)
        {
            if (! twin)
            {
                spdlog::warn("Encountered a voronoi edge without twin.");
                continue;
            }
            assert(twin);
            graph_.edges_.emplace_front(SkeletalTrapezoidationEdge());
            edge_t* edge = &graph_.edges_.front();
            edge->from_ = twin->to_;
            edge->to_ = twin->from_;
            edge->twin_ = twin;
            twin->twin_ = edge;
            edge->from_->incident_edge_ = edge;
            if (prev_edge)
            {
                edge->prev_ = prev_edge;
                prev_edge->next_ = edge;
            }
            prev_edge = edge;
            if (prev_edge->to_ == end_node)
            {
                return;
            }
            if (! twin->prev_ || ! twin->prev_->twin_ || ! twin->prev_->twin_->prev_)
            {
                spdlog::error("Discretized segment behaves oddly!");
                return;
            }
            assert(twin->prev_);
            assert(twin->prev_->twin_);
            assert(twin->prev_->twin_->prev_);
            graph_.makeRib(prev_edge, start_source_point, end_source_point);
        }
        assert(prev_edge);
    }
    else
    {
        std::vector<Point2LL> discretized = discretize(vd_edge, points, segments);
        assert(discretized.size() >= 2);
        if (discretized.size() < 2)
        {
            spdlog::warn("Discretized Voronoi edge is degenerate.");
        }
        assert(! prev_edge || prev_edge->to_);
        if (prev_edge && ! prev_edge->to_)
        {
            spdlog::warn("Previous edge doesn't go anywhere.");
        }
        node_t* v0
            = (prev_edge) ? prev_edge->to_ : &makeNode(*vd_edge.vertex0(), from);
        Point2LL p0 = discretized.front();
        for (size_t p1_idx = 1; p1_idx < discretized.size(); p1_idx++)
        {
            Point2LL p1 = discretized[p1_idx];
            node_t* v1;
            if (p1_idx < discretized.size() - 1)
            {
                graph_.nodes_.emplace_front(SkeletalTrapezoidationJoint(), p1);
                v1 = &graph_.nodes_.front();
            }
            else
            {
                v1 = &makeNode(*vd_edge.vertex1(), to);
            }
            graph_.edges_.emplace_front(SkeletalTrapezoidationEdge());
            edge_t* edge = &graph_.edges_.front();
            edge->from_ = v0;
            edge->to_ = v1;
            edge->from_->incident_edge_ = edge;
            if (prev_edge)
            {
                edge->prev_ = prev_edge;
                prev_edge->next_ = edge;
            }
            prev_edge = edge;
            p0 = p1;
            v0 = v1;
            if (p1_idx < discretized.size() - 1)
            {
                graph_.makeRib(prev_edge, start_source_point, end_source_point);
            }
        }
        assert(prev_edge);
        vd_edge_to_he_edge_.emplace(&vd_edge, prev_edge);
    }
}
//END
//= cura::SkeletalTrapezoidation::computePointCellRange
bool SkeletalTrapezoidation::computePointCellRange(
    vd_t::cell_type& cell,
    Point2LL& start_source_point,
    Point2LL& end_source_point,
    vd_t::edge_type*& starting_vd_edge,
    vd_t::edge_type*& ending_vd_edge,
    const std::vector<Point2LL>& points,
    const std::vector<Segment>& segments,
    const Shape& polys)
{
    if (cell.incident_edge()->is_infinite())
    {
        return false;
    }
    const Point2LL source_point = VoronoiUtils::getSourcePoint(cell, points, segments);
    Point2LL some_point = VoronoiUtils::p(cell.incident_edge()->vertex0());
    if (some_point == source_point)
    {
        some_point = VoronoiUtils::p(cell.incident_edge()->vertex1());
    }
    if (! polys.inside(some_point))
    {
        return false;
    }
    vd_t::edge_type* vd_edge = cell.incident_edge();
    do
    {
        assert(vd_edge->is_finite());
        Point2LL p1 = VoronoiUtils::p(vd_edge->vertex1());
        if (p1 == source_point)
        {
            start_source_point = source_point;
            end_source_point = source_point;
            starting_vd_edge = vd_edge->next();
            ending_vd_edge = vd_edge;
        }
        else
        {
            assert(
                (VoronoiUtils::p(vd_edge->vertex0()) == source_point || ! vd_edge->is_secondary())
                && "point cells must end in the point! They cannot cross the point with an edge, because collinear edges are not allowed in the input.");
        }
    } while (vd_edge = vd_edge->next(), vd_edge != cell.incident_edge());
    assert(starting_vd_edge && ending_vd_edge);
    assert(starting_vd_edge != ending_vd_edge);
    return true;
}
//END
//= cura::SkeletalTrapezoidation::computeSegmentCellRange
void SkeletalTrapezoidation::computeSegmentCellRange(
    vd_t::cell_type& cell,
    Point2LL& start_source_point,
    Point2LL& end_source_point,
    vd_t::edge_type*& starting_vd_edge,
    vd_t::edge_type*& ending_vd_edge,
    const std::vector<Point2LL>& points,
    const std::vector<Segment>& segments)
{
    const Segment& source_segment = VoronoiUtils::getSourceSegment(cell, points, segments);
    Point2LL from = source_segment.from();
    Point2LL to = source_segment.to();
    bool seen_possible_start = false;
    bool after_start = false;
    bool ending_edge_is_set_before_start = false;
    vd_t::edge_type* edge = cell.incident_edge();
    do
    {
        if (edge->is_infinite())
        {
            continue;
        }
        Point2LL v0 = VoronoiUtils::p(edge->vertex0());
        Point2LL v1 = VoronoiUtils::p(edge->vertex1());
        assert(! (v0 == to && v1 == from));
        if (v0 == to && ! after_start)
        {
            starting_vd_edge = edge;
            seen_possible_start = true;
        }
        else if (seen_possible_start)
        {
            after_start = true;
        }
        if (v1 == from && (! ending_vd_edge || ending_edge_is_set_before_start))
        {
            ending_edge_is_set_before_start = ! after_start;
            ending_vd_edge = edge;
        }
    } while (edge = edge->next(), edge != cell.incident_edge());
    assert(starting_vd_edge && ending_vd_edge);
    assert(starting_vd_edge != ending_vd_edge);
    start_source_point = source_segment.to();
    end_source_point = source_segment.from();
}
//END
//= cura::SkeletalTrapezoidation::SkeletalTrapezoidation
SkeletalTrapezoidation::SkeletalTrapezoidation(
    const MendedShape& polys,
    const BeadingStrategy& beading_strategy,
    AngleRadians transitioning_angle,
    coord_t discretization_step_size,
    coord_t transition_filter_dist,
    coord_t allowed_filter_deviation,
    coord_t beading_propagation_transition_dist,
    int layer_idx,
    SectionType section_type)
    : transitioning_angle_(transitioning_angle)
    , discretization_step_size_(discretization_step_size)
    , transition_filter_dist_(transition_filter_dist)
    , allowed_filter_deviation_(allowed_filter_deviation)
    , beading_propagation_transition_dist_(beading_propagation_transition_dist)
    , layer_idx_(layer_idx)
    , section_type_(section_type)
    , beading_strategy_(beading_strategy)
{
    scripta::log("skeletal_trapezoidation_0", polys, section_type, layer_idx);
    constructFromPolygons(polys.getShape());
}
//END
//= cura::SkeletalTrapezoidation::constructFromPolygons
void SkeletalTrapezoidation::constructFromPolygons(const Shape& polys)
{
    vd_edge_to_he_edge_.clear();
    vd_node_to_he_node_.clear();
    std::vector<Point2LL> points;
    std::vector<Segment> segments;
    for (size_t poly_idx = 0; poly_idx < polys.size(); poly_idx++)
    {
        const Polygon& poly = polys[poly_idx];
        for (size_t point_idx = 0; point_idx < poly.size(); point_idx++)
        {
            segments.emplace_back(&polys, poly_idx, point_idx);
        }
    }
    vd_t vonoroi_diagram;
    construct_voronoi(segments.begin(), segments.end(), &vonoroi_diagram);
    for (vd_t::cell_type cell : vonoroi_diagram.cells())
    {
        if (! cell.incident_edge())
        {
            continue;
        }
        Point2LL start_source_point;
        Point2LL end_source_point;
        vd_t::edge_type* starting_vonoroi_edge = nullptr;
        vd_t::edge_type* ending_vonoroi_edge = nullptr;
        if (cell.contains_point())
        {
            const bool keep_going = computePointCellRange(cell, start_source_point, end_source_point, starting_vonoroi_edge, ending_vonoroi_edge, points, segments, polys);
            if (! keep_going)
            {
                continue;
            }
        }
        else
        {
            computeSegmentCellRange(cell, start_source_point, end_source_point, starting_vonoroi_edge, ending_vonoroi_edge, points, segments);
        }
        if (! starting_vonoroi_edge || ! ending_vonoroi_edge)
        {
            assert(false && "Each cell should start / end in a polygon vertex");
            continue;
        }
        edge_t* prev_edge = nullptr;
        transferEdge(
            start_source_point,
            VoronoiUtils::p(starting_vonoroi_edge->vertex1()),
            *starting_vonoroi_edge,
            prev_edge,
            start_source_point,
            end_source_point,
            points,
            segments);
        node_t* starting_node = vd_node_to_he_node_[starting_vonoroi_edge->vertex0()];
        starting_node->data_.distance_to_boundary_ = 0;
        graph_.makeRib(prev_edge, start_source_point, end_source_point);
        for (vd_t::edge_type* vd_edge = starting_vonoroi_edge->next(); vd_edge != ending_vonoroi_edge; vd_edge = vd_edge->next())
        {
            assert(vd_edge->is_finite());
            Point2LL v1 = VoronoiUtils::p(vd_edge->vertex0());
            Point2LL v2 = VoronoiUtils::p(vd_edge->vertex1());
            transferEdge(v1, v2, *vd_edge, prev_edge, start_source_point, end_source_point, points, segments);
            graph_.makeRib(prev_edge, start_source_point, end_source_point);
        }
        transferEdge(VoronoiUtils::p(ending_vonoroi_edge->vertex0()), end_source_point, *ending_vonoroi_edge, prev_edge, start_source_point, end_source_point, points, segments);
        prev_edge->to_->data_.distance_to_boundary_ = 0;
    }
    separatePointyQuadEndNodes();
    graph_.collapseSmallEdges();
    for (edge_t& edge : graph_.edges_)
    {
        if (! edge.prev_)
        {
            edge.from_->incident_edge_ = &edge;
        }
    }
}
//END
//= cura::SkeletalTrapezoidation::separatePointyQuadEndNodes
void SkeletalTrapezoidation::separatePointyQuadEndNodes()
{
    std::unordered_set<node_t*> visited_nodes;
    for (edge_t& edge : graph_.edges_)
    {
        if (edge.prev_)
        {
            continue;
        }
        edge_t* quad_start = &edge;
        if (visited_nodes.find(quad_start->from_) == visited_nodes.end())
        {
            visited_nodes.emplace(quad_start->from_);
        }
        else
        {
            graph_.nodes_.emplace_back(*quad_start->from_);
            node_t* new_node = &graph_.nodes_.back();
            new_node->incident_edge_ = quad_start;
            quad_start->from_ = new_node;
            quad_start->twin_->to_ = new_node;
        }
    }
}
//END
//= cura::SkeletalTrapezoidation::filterOuterCentral
void SkeletalTrapezoidation::filterOuterCentral()
{
    for (edge_t& edge : graph_.edges_)
    {
        if (! edge.prev_)
        {
            edge.data_.setIsCentral(false);
            edge.twin_->data_.setIsCentral(false);
        }
    }
}
//END
//= cura::SkeletalTrapezoidation::updateBeadCount
void SkeletalTrapezoidation::updateBeadCount()
{
    for (edge_t& edge : graph_.edges_)
    {
        if (edge.data_.isCentral())
        {
            edge.to_->data_.bead_count_ = beading_strategy_.getOptimalBeadCount(edge.to_->data_.distance_to_boundary_ * 2);
        }
    }
    for (node_t& node : graph_.nodes_)
    {
        if (node.isLocalMaximum())
        {
            if (node.data_.distance_to_boundary_ < 0)
            {
                spdlog::warn("Distance to boundary not yet computed for local maximum!");
                node.data_.distance_to_boundary_ = std::numeric_limits<coord_t>::max();
                edge_t* edge = node.incident_edge_;
                do
                {
                    node.data_.distance_to_boundary_ = std::min(node.data_.distance_to_boundary_, edge->to_->data_.distance_to_boundary_ + vSize(edge->from_->p_ - edge->to_->p_));
                } while (edge = edge->twin_->next_, edge != node.incident_edge_);
            }
            coord_t bead_count = beading_strategy_.getOptimalBeadCount(node.data_.distance_to_boundary_ * 2);
            node.data_.bead_count_ = bead_count;
        }
    }
}
//END
//= cura::SkeletalTrapezoidation::generateTransitioningRibs
void SkeletalTrapezoidation::generateTransitioningRibs()
{
    ptr_vector_t<std::list<TransitionMiddle>> edge_transitions;
    generateTransitionMids(edge_transitions);
    for (edge_t& edge : graph_.edges_)
    {
        if (edge.data_.isCentral() && edge.from_->data_.bead_count_ != edge.to_->data_.bead_count_)
        {
            assert(edge.data_.hasTransitions() || edge.twin_->data_.hasTransitions());
        }
    }
    filterTransitionMids();
    ptr_vector_t<std::list<TransitionEnd>> edge_transition_ends;
    generateAllTransitionEnds(edge_transition_ends);
    applyTransitions(edge_transition_ends);
}
//END
//= cura::SkeletalTrapezoidation::generateTransitionMids
void SkeletalTrapezoidation::generateTransitionMids(ptr_vector_t<std::list<TransitionMiddle>>& edge_transitions)
{
    for (edge_t& edge : graph_.edges_)
    {
        assert(edge.data_.centralIsSet());
        if (! edge.data_.isCentral())
        {
            continue;
        }
        coord_t start_R = edge.from_->data_.distance_to_boundary_;
        coord_t end_R = edge.to_->data_.distance_to_boundary_;
        int start_bead_count = edge.from_->data_.bead_count_;
        int end_bead_count = edge.to_->data_.bead_count_;
        if (start_R == end_R)
        {
            assert(edge.from_->data_.bead_count_ == edge.to_->data_.bead_count_);
            if (edge.from_->data_.bead_count_ != edge.to_->data_.bead_count_)
            {
                spdlog::warn("Bead count {} is different from {} even though distance to boundary is the same.", edge.from_->data_.bead_count_, edge.to_->data_.bead_count_);
            }
            continue;
        }
        else if (start_R > end_R)
        {
            continue;
        }
        if (edge.from_->data_.bead_count_ == edge.to_->data_.bead_count_)
        {
            continue;
        }
        if (start_bead_count > beading_strategy_.getOptimalBeadCount(start_R * 2) || end_bead_count > beading_strategy_.getOptimalBeadCount(end_R * 2))
        {
            spdlog::error("transitioning segment overlap!");
        }
        assert(start_R < end_R);
        if (start_R >= end_R)
        {
            spdlog::warn("Transitioning the wrong way around! This function expects to transition from small R to big R, but was transitioning from {} to {}.", start_R, end_R);
        }
        coord_t edge_size = vSize(edge.from_->p_ - edge.to_->p_);
        for (int transition_lower_bead_count = start_bead_count; transition_lower_bead_count < end_bead_count; transition_lower_bead_count++)
        {
            coord_t mid_R = beading_strategy_.getTransitionThickness(transition_lower_bead_count) / 2;
            if (mid_R > end_R)
            {
                spdlog::error("transition on segment lies outside of segment!");
                mid_R = end_R;
            }
            if (mid_R < start_R)
            {
                spdlog::error("transition on segment lies outside of segment!");
                mid_R = start_R;
            }
            coord_t mid_pos = edge_size * (mid_R - start_R) / (end_R - start_R);
            assert(mid_pos >= 0);
            assert(mid_pos <= edge_size);
            if (mid_pos < 0 || mid_pos > edge_size)
            {
                spdlog::warn("Transition mid is out of bounds of the edge.");
            }
            auto transitions = edge.data_.getTransitions();
            constexpr bool ignore_empty = true;
            assert((! edge.data_.hasTransitions(ignore_empty)) || mid_pos >= transitions->back().pos_);
            if (! edge.data_.hasTransitions(ignore_empty))
            {
                edge_transitions.emplace_back(std::make_shared<std::list<TransitionMiddle>>());
                edge.data_.setTransitions(edge_transitions.back());
                transitions = edge.data_.getTransitions();
            }
            transitions->emplace_back(mid_pos, transition_lower_bead_count, mid_R);
        }
        assert((edge.from_->data_.bead_count_ == edge.to_->data_.bead_count_) || edge.data_.hasTransitions());
    }
}
//END
//= cura::SkeletalTrapezoidation::filterTransitionMids
void SkeletalTrapezoidation::filterTransitionMids()
{
    for (edge_t& edge : graph_.edges_)
    {
        if (! edge.data_.hasTransitions())
        {
            continue;
        }
        auto& transitions = *edge.data_.getTransitions();
        assert(transitions.front().lower_bead_count_ <= transitions.back().lower_bead_count_);
        assert(edge.from_->data_.distance_to_boundary_ <= edge.to_->data_.distance_to_boundary_);
        const Point2LL a = edge.from_->p_;
        const Point2LL b = edge.to_->p_;
        Point2LL ab = b - a;
        coord_t ab_size = vSize(ab);
        bool going_up = true;
        std::list<TransitionMidRef> to_be_dissolved_back
            = dissolveNearbyTransitions(&edge, transitions.back(), ab_size - transitions.back().pos_, transition_filter_dist_, going_up);
        bool should_dissolve_back = ! to_be_dissolved_back.empty();
        for (TransitionMidRef& ref : to_be_dissolved_back)
        {
            dissolveBeadCountRegion(&edge, transitions.back().lower_bead_count_ + 1, transitions.back().lower_bead_count_);
            ref.edge_->data_.getTransitions()->erase(ref.transition_it_);
        }
        {
            coord_t trans_bead_count = transitions.back().lower_bead_count_;
            coord_t upper_transition_half_length = (1.0 - beading_strategy_.getTransitionAnchorPos(trans_bead_count)) * beading_strategy_.getTransitioningLength(trans_bead_count);
            should_dissolve_back |= filterEndOfCentralTransition(&edge, ab_size - transitions.back().pos_, upper_transition_half_length, trans_bead_count);
        }
        if (should_dissolve_back)
        {
            transitions.pop_back();
        }
        if (transitions.empty())
        {
            continue;
        }
        going_up = false;
        std::list<TransitionMidRef> to_be_dissolved_front = dissolveNearbyTransitions(edge.twin_, transitions.front(), transitions.front().pos_, transition_filter_dist_, going_up);
        bool should_dissolve_front = ! to_be_dissolved_front.empty();
        for (TransitionMidRef& ref : to_be_dissolved_front)
        {
            dissolveBeadCountRegion(edge.twin_, transitions.front().lower_bead_count_, transitions.front().lower_bead_count_ + 1);
            ref.edge_->data_.getTransitions()->erase(ref.transition_it_);
        }
        {
            coord_t trans_bead_count = transitions.front().lower_bead_count_;
            coord_t lower_transition_half_length = beading_strategy_.getTransitionAnchorPos(trans_bead_count) * beading_strategy_.getTransitioningLength(trans_bead_count);
            should_dissolve_front |= filterEndOfCentralTransition(edge.twin_, transitions.front().pos_, lower_transition_half_length, trans_bead_count + 1);
        }
        if (should_dissolve_front)
        {
            transitions.pop_front();
        }
        if (transitions.empty())
        {
            continue;
        }
    }
}
//END
std::list<SkeletalTrapezoidation::TransitionMidRef>
//= cura::SkeletalTrapezoidation::dissolveNearbyTransitions
    SkeletalTrapezoidation::dissolveNearbyTransitions(edge_t* edge_to_start, TransitionMiddle& origin_transition, coord_t traveled_dist, coord_t max_dist, bool going_up)
{
    std::list<TransitionMidRef> to_be_dissolved;
    if (traveled_dist > max_dist)
    {
        return to_be_dissolved;
    }
    bool should_dissolve = true;
    for (edge_t* edge = edge_to_start->next_; edge && edge != edge_to_start->twin_; edge = edge->twin_->next_)
    {
        if (! edge->data_.isCentral())
        {
            continue;
        }
        Point2LL a = edge->from_->p_;
        Point2LL b = edge->to_->p_;
        Point2LL ab = b - a;
        coord_t ab_size = vSize(ab);
        bool is_aligned = edge->isUpward();
        edge_t* aligned_edge = is_aligned ? edge : edge->twin_;
        bool seen_transition_on_this_edge = false;
        const coord_t origin_radius = origin_transition.feature_radius_;
        const coord_t radius_here = edge->from_->data_.distance_to_boundary_;
        const bool dissolve_result_is_odd = bool(origin_transition.lower_bead_count_ % 2) == going_up;
        const coord_t width_deviation = std::abs(origin_radius - radius_here) * 2;
        const coord_t line_width_deviation = dissolve_result_is_odd
                                               ? width_deviation
                                               : width_deviation / 2;
        if (line_width_deviation > allowed_filter_deviation_)
        {
            should_dissolve = false;
        }
        if (should_dissolve && aligned_edge->data_.hasTransitions())
        {
            auto& transitions = *aligned_edge->data_.getTransitions();
            for (auto transition_it = transitions.begin(); transition_it != transitions.end(); ++transition_it)
            {
                coord_t pos = is_aligned ? transition_it->pos_ : ab_size - transition_it->pos_;
                if (traveled_dist + pos < max_dist && transition_it->lower_bead_count_ == origin_transition.lower_bead_count_)
                {
                    if (traveled_dist + pos < beading_strategy_.getTransitioningLength(transition_it->lower_bead_count_))
                    {
                        assert(going_up != is_aligned || transition_it->lower_bead_count_ == 0);
                    }
                    to_be_dissolved.emplace_back(aligned_edge, transition_it);
                    seen_transition_on_this_edge = true;
                }
            }
        }
        if (should_dissolve && ! seen_transition_on_this_edge)
        {
            std::list<SkeletalTrapezoidation::TransitionMidRef> to_be_dissolved_here
                = dissolveNearbyTransitions(edge, origin_transition, traveled_dist + ab_size, max_dist, going_up);
            if (to_be_dissolved_here.empty())
            {
                to_be_dissolved.clear();
                return to_be_dissolved;
            }
            to_be_dissolved.splice(to_be_dissolved.end(), to_be_dissolved_here);
            should_dissolve = should_dissolve && ! to_be_dissolved.empty();
        }
    }
    if (! should_dissolve)
    {
        to_be_dissolved.clear();
    }
    return to_be_dissolved;
}
//END
//= cura::SkeletalTrapezoidation::generateAllTransitionEnds
void SkeletalTrapezoidation::generateAllTransitionEnds(ptr_vector_t<std::list<TransitionEnd>>& edge_transition_ends)
{
    for (edge_t& edge : graph_.edges_)
    {
        if (! edge.data_.hasTransitions())
        {
            continue;
        }
        auto& transition_positions = *edge.data_.getTransitions();
        assert(edge.from_->data_.distance_to_boundary_ <= edge.to_->data_.distance_to_boundary_);
        for (TransitionMiddle& transition_middle : transition_positions)
        {
            assert(transition_positions.front().pos_ <= transition_middle.pos_);
            assert(transition_middle.pos_ <= transition_positions.back().pos_);
            generateTransitionEnds(edge, transition_middle.pos_, transition_middle.lower_bead_count_, edge_transition_ends);
        }
    }
}
//END
//= cura::SkeletalTrapezoidation::generateTransitionEnds
void SkeletalTrapezoidation::generateTransitionEnds(edge_t& edge, coord_t mid_pos, coord_t lower_bead_count, ptr_vector_t<std::list<TransitionEnd>>& edge_transition_ends)
{
    const Point2LL a = edge.from_->p_;
    const Point2LL b = edge.to_->p_;
    const Point2LL ab = b - a;
    const coord_t ab_size = vSize(ab);
    const coord_t transition_length = beading_strategy_.getTransitioningLength(lower_bead_count);
    const double transition_mid_position = beading_strategy_.getTransitionAnchorPos(lower_bead_count);
    constexpr double inner_bead_width_ratio_after_transition = 1.0;
    constexpr Ratio start_rest{ 0.0 };
    const double mid_rest = transition_mid_position * inner_bead_width_ratio_after_transition;
    constexpr double end_rest = inner_bead_width_ratio_after_transition;
    {
        const coord_t start_pos = ab_size - mid_pos;
        const coord_t transition_half_length = transition_mid_position * transition_length;
        const coord_t end_pos = start_pos + transition_half_length;
        generateTransitionEnd(*edge.twin_, start_pos, end_pos, transition_half_length, mid_rest, start_rest, lower_bead_count, edge_transition_ends);
    }
    {
        const coord_t start_pos = mid_pos;
        const coord_t transition_half_length = (1.0 - transition_mid_position) * transition_length;
        const coord_t end_pos = mid_pos + transition_half_length;
#ifdef DEBUG
        if (! generateTransitionEnd(edge, start_pos, end_pos, transition_half_length, mid_rest, end_rest, lower_bead_count, edge_transition_ends))
        {
            spdlog::debug("There must have been at least one direction in which the bead count is increasing enough for the transition to happen!");
        }
#else
        generateTransitionEnd(edge, start_pos, end_pos, transition_half_length, mid_rest, end_rest, lower_bead_count, edge_transition_ends);
#endif
    }
}
//END
//= cura::SkeletalTrapezoidation::generateTransitionEnd
bool SkeletalTrapezoidation::generateTransitionEnd(
    edge_t& edge,
    coord_t start_pos,
    coord_t end_pos,
    coord_t transition_half_length,
    Ratio start_rest,
    Ratio end_rest,
    coord_t lower_bead_count,
    ptr_vector_t<std::list<TransitionEnd>>& edge_transition_ends)
{
    Point2LL a = edge.from_->p_;
    Point2LL b = edge.to_->p_;
    Point2LL ab = b - a;
    coord_t ab_size = vSize(ab);
    assert(start_pos <= ab_size);
    if (start_pos > ab_size)
    {
        spdlog::warn("Start position of edge is beyond edge range.");
    }
    bool going_up = end_rest > start_rest;
    assert(edge.data_.isCentral());
    if (! edge.data_.isCentral())
    {
        spdlog::warn("This function shouldn't generate ends in or beyond non-central regions.");
        return false;
    }
    if (end_pos > ab_size)
    {
        double rest = end_rest - (start_rest - end_rest) * (end_pos - ab_size) / (start_pos - end_pos);
        assert(rest >= 0);
        assert(rest <= std::max(end_rest, start_rest));
        assert(rest >= std::min(end_rest, start_rest));
        coord_t central_edge_count = 0;
        for (edge_t* outgoing = edge.next_; outgoing && outgoing != edge.twin_; outgoing = outgoing->twin_->next_)
        {
            if (! outgoing->data_.isCentral())
                continue;
            central_edge_count++;
        }
        bool is_only_going_down = true;
        bool has_recursed = false;
        for (edge_t* outgoing = edge.next_; outgoing && outgoing != edge.twin_;)
        {
            edge_t* next = outgoing->twin_->next_;
            if (! outgoing->data_.isCentral())
            {
                outgoing = next;
                continue;
            }
            if (central_edge_count > 1 && going_up && isGoingDown(outgoing, 0, end_pos - ab_size + transition_half_length, lower_bead_count))
            {
                outgoing = next;
                continue;
            }
            bool is_going_down = generateTransitionEnd(*outgoing, 0, end_pos - ab_size, transition_half_length, rest, end_rest, lower_bead_count, edge_transition_ends);
            is_only_going_down &= is_going_down;
            outgoing = next;
            has_recursed = true;
        }
        if (! going_up || (has_recursed && ! is_only_going_down))
        {
            edge.to_->data_.transition_ratio_ = rest;
            edge.to_->data_.bead_count_ = lower_bead_count;
        }
        return is_only_going_down;
    }
    else
    {
        bool is_lower_end = end_rest == 0;
        coord_t pos = -1;
        edge_t* upward_edge = nullptr;
        if (edge.isUpward())
        {
            upward_edge = &edge;
            pos = end_pos;
        }
        else
        {
            upward_edge = edge.twin_;
            pos = ab_size - end_pos;
        }
        if (! upward_edge->data_.hasTransitionEnds())
        {
            edge_transition_ends.emplace_back(std::make_shared<std::list<TransitionEnd>>());
            upward_edge->data_.setTransitionEnds(edge_transition_ends.back());
        }
        auto transitions = upward_edge->data_.getTransitionEnds();
        assert(ab_size == vSize(edge.twin_->from_->p_ - edge.twin_->to_->p_));
        assert(pos <= ab_size);
        if (transitions->empty() || pos < transitions->front().pos_)
        {
            transitions->emplace_front(pos, lower_bead_count, is_lower_end);
        }
        else
        {
            transitions->emplace_back(pos, lower_bead_count, is_lower_end);
        }
        return false;
    }
}
//END
//= cura::SkeletalTrapezoidation::applyTransitions
void SkeletalTrapezoidation::applyTransitions(ptr_vector_t<std::list<TransitionEnd>>& edge_transition_ends)
{
    for (edge_t& edge : graph_.edges_)
    {
        if (edge.twin_->data_.hasTransitionEnds())
        {
            coord_t length = vSize(edge.from_->p_ - edge.to_->p_);
            auto& twin_transition_ends = *edge.twin_->data_.getTransitionEnds();
            if (! edge.data_.hasTransitionEnds())
            {
                edge_transition_ends.emplace_back(std::make_shared<std::list<TransitionEnd>>());
                edge.data_.setTransitionEnds(edge_transition_ends.back());
            }
            auto& transition_ends = *edge.data_.getTransitionEnds();
            for (TransitionEnd& end : twin_transition_ends)
            {
                transition_ends.emplace_back(length - end.pos_, end.lower_bead_count_, end.is_lower_end_);
            }
            twin_transition_ends.clear();
        }
    }
    for (edge_t& edge : graph_.edges_)
    {
        if (! edge.data_.hasTransitionEnds())
        {
            continue;
        }
        assert(edge.data_.isCentral());
        auto& transitions = *edge.data_.getTransitionEnds();
        transitions.sort(
            [](const TransitionEnd& a, const TransitionEnd& b)
            {
                return a.pos_ < b.pos_;
            });
        node_t* from = edge.from_;
        node_t* to = edge.to_;
        Point2LL a = from->p_;
        Point2LL b = to->p_;
        Point2LL ab = b - a;
        coord_t ab_size = vSize(ab);
        edge_t* last_edge_replacing_input = &edge;
        for (TransitionEnd& transition_end : transitions)
        {
            coord_t new_node_bead_count = transition_end.is_lower_end_ ? transition_end.lower_bead_count_ : transition_end.lower_bead_count_ + 1;
            coord_t end_pos = transition_end.pos_;
            node_t* close_node = (end_pos < ab_size / 2) ? from : to;
            if ((end_pos < snap_dist_ || end_pos > ab_size - snap_dist_) && close_node->data_.bead_count_ == new_node_bead_count)
            {
                assert(end_pos <= ab_size);
                close_node->data_.transition_ratio_ = 0;
                continue;
            }
            Point2LL mid = a + normal(ab, end_pos);
            assert(last_edge_replacing_input->data_.isCentral());
            assert(last_edge_replacing_input->data_.type_ != SkeletalTrapezoidationEdge::EdgeType::EXTRA_VD);
            last_edge_replacing_input = graph_.insertNode(last_edge_replacing_input, mid, new_node_bead_count);
            assert(last_edge_replacing_input->data_.type_ != SkeletalTrapezoidationEdge::EdgeType::EXTRA_VD);
            assert(last_edge_replacing_input->data_.isCentral());
        }
    }
}
//END
//= cura::SkeletalTrapezoidation::generateExtraRibs
void SkeletalTrapezoidation::generateExtraRibs()
{
    for (auto& edge : graph_.edges_)
    {
        if (! edge.data_.isCentral() || shorterThen(edge.to_->p_ - edge.from_->p_, discretization_step_size_)
            || edge.from_->data_.distance_to_boundary_ >= edge.to_->data_.distance_to_boundary_)
        {
            continue;
        }
        std::vector<coord_t> rib_thicknesses = beading_strategy_.getNonlinearThicknesses(edge.from_->data_.bead_count_);
        if (rib_thicknesses.empty())
        {
            continue;
        }
        node_t* from = edge.from_;
        node_t* to = edge.to_;
        Point2LL a = from->p_;
        Point2LL b = to->p_;
        Point2LL ab = b - a;
        coord_t ab_size = vSize(ab);
        coord_t a_R = edge.from_->data_.distance_to_boundary_;
        coord_t b_R = edge.to_->data_.distance_to_boundary_;
        edge_t* last_edge_replacing_input = &edge;
        for (coord_t rib_thickness : rib_thicknesses)
        {
            if (rib_thickness / 2 <= a_R)
            {
                continue;
            }
            if (rib_thickness / 2 >= b_R)
            {
                break;
            }
            coord_t new_node_bead_count = std::min(edge.from_->data_.bead_count_, edge.to_->data_.bead_count_);
            coord_t end_pos = ab_size * (rib_thickness / 2 - a_R) / (b_R - a_R);
            assert(end_pos > 0);
            assert(end_pos < ab_size);
            node_t* close_node = (end_pos < ab_size / 2) ? from : to;
            if ((end_pos < snap_dist_ || end_pos > ab_size - snap_dist_) && close_node->data_.bead_count_ == new_node_bead_count)
            {
                assert(end_pos <= ab_size);
                close_node->data_.transition_ratio_ = 0;
                continue;
            }
            Point2LL mid = a + normal(ab, end_pos);
            assert(last_edge_replacing_input->data_.isCentral());
            assert(last_edge_replacing_input->data_.type_ != SkeletalTrapezoidationEdge::EdgeType::EXTRA_VD);
            last_edge_replacing_input = graph_.insertNode(last_edge_replacing_input, mid, new_node_bead_count);
            assert(last_edge_replacing_input->data_.type_ != SkeletalTrapezoidationEdge::EdgeType::EXTRA_VD);
            assert(last_edge_replacing_input->data_.isCentral());
        }
    }
}
//END
//= cura::SkeletalTrapezoidation::generateSegments
void SkeletalTrapezoidation::generateSegments()
{
    std::vector<edge_t*> upward_quad_mids;
    for (edge_t& edge : graph_.edges_)
    {
        if (edge.prev_ && edge.next_ && edge.isUpward())
        {
            upward_quad_mids.emplace_back(&edge);
        }
    }
    std::stable_sort(
        upward_quad_mids.begin(),
        upward_quad_mids.end(),
        [this](edge_t* a, edge_t* b)
        {
            if (a->to_->data_.distance_to_boundary_ == b->to_->data_.distance_to_boundary_)
            {
                if (a->from_->data_.distance_to_boundary_ == a->to_->data_.distance_to_boundary_ && b->from_->data_.distance_to_boundary_ == b->to_->data_.distance_to_boundary_)
                {
                    coord_t max = std::numeric_limits<coord_t>::max();
                    coord_t a_dist_from_up = std::min(a->distToGoUp().value_or(max), a->twin_->distToGoUp().value_or(max)) - vSize(a->to_->p_ - a->from_->p_);
                    coord_t b_dist_from_up = std::min(b->distToGoUp().value_or(max), b->twin_->distToGoUp().value_or(max)) - vSize(b->to_->p_ - b->from_->p_);
                    return a_dist_from_up < b_dist_from_up;
                }
                else if (a->from_->data_.distance_to_boundary_ == a->to_->data_.distance_to_boundary_)
                {
                    return true;
                }
                else if (b->from_->data_.distance_to_boundary_ == b->to_->data_.distance_to_boundary_)
                {
                    return false;
                }
                else
                {
                }
            }
            return a->to_->data_.distance_to_boundary_ > b->to_->data_.distance_to_boundary_;
        });
    ptr_vector_t<BeadingPropagation> node_beadings;
    {
        for (node_t& node : graph_.nodes_)
        {
            if (node.data_.bead_count_ <= 0)
            {
                continue;
            }
            if (node.data_.transition_ratio_ == 0)
            {
                node_beadings.emplace_back(new BeadingPropagation(beading_strategy_.compute(node.data_.distance_to_boundary_ * 2, node.data_.bead_count_)));
                node.data_.setBeading(node_beadings.back());
                assert(node_beadings.back()->beading_.total_thickness == node.data_.distance_to_boundary_ * 2);
                if (node_beadings.back()->beading_.total_thickness != node.data_.distance_to_boundary_ * 2)
                {
                    spdlog::warn("If transitioning to an endpoint (ratio 0), the node should be exactly in the middle.");
                }
            }
            else
            {
                Beading low_count_beading = beading_strategy_.compute(node.data_.distance_to_boundary_ * 2, node.data_.bead_count_);
                Beading high_count_beading = beading_strategy_.compute(node.data_.distance_to_boundary_ * 2, node.data_.bead_count_ + 1);
                Beading merged = interpolate(low_count_beading, 1.0 - node.data_.transition_ratio_, high_count_beading);
                node_beadings.emplace_back(new BeadingPropagation(merged));
                node.data_.setBeading(node_beadings.back());
                assert(merged.total_thickness == node.data_.distance_to_boundary_ * 2);
                if (merged.total_thickness != node.data_.distance_to_boundary_ * 2)
                {
                    spdlog::warn("If merging two beads, the new bead must be exactly in the middle.");
                }
            }
        }
    }
    propagateBeadingsUpward(upward_quad_mids, node_beadings);
    propagateBeadingsDownward(upward_quad_mids, node_beadings);
    ptr_vector_t<LineJunctions> edge_junctions;
    generateJunctions(node_beadings, edge_junctions);
    connectJunctions(edge_junctions);
    generateLocalMaximaSingleBeads();
}
//END
//= cura::SkeletalTrapezoidation::propagateBeadingsUpward
void SkeletalTrapezoidation::propagateBeadingsUpward(std::vector<edge_t*>& upward_quad_mids, ptr_vector_t<BeadingPropagation>& node_beadings)
{
    for (auto upward_quad_mids_it = upward_quad_mids.rbegin(); upward_quad_mids_it != upward_quad_mids.rend(); ++upward_quad_mids_it)
    {
        edge_t* upward_edge = *upward_quad_mids_it;
        if (upward_edge->to_->data_.bead_count_ >= 0)
        {
            continue;
        }
        if (! upward_edge->from_->data_.hasBeading())
        {
            continue;
        }
        BeadingPropagation& lower_beading = *upward_edge->from_->data_.getBeading();
        if (upward_edge->to_->data_.hasBeading())
        {
            continue;
        }
        assert(
            (upward_edge->from_->data_.distance_to_boundary_ != upward_edge->to_->data_.distance_to_boundary_
             || shorterThen(upward_edge->to_->p_ - upward_edge->from_->p_, central_filter_dist_))
            && "zero difference R edges should always be central");
        coord_t length = vSize(upward_edge->to_->p_ - upward_edge->from_->p_);
        BeadingPropagation upper_beading = lower_beading;
        upper_beading.dist_to_bottom_source_ += length;
        upper_beading.is_upward_propagated_only_ = true;
        node_beadings.emplace_back(new BeadingPropagation(upper_beading));
        upward_edge->to_->data_.setBeading(node_beadings.back());
        assert(upper_beading.beading_.total_thickness <= upward_edge->to_->data_.distance_to_boundary_ * 2);
    }
}
//END
//= cura::SkeletalTrapezoidation::propagateBeadingsDownward
void SkeletalTrapezoidation::propagateBeadingsDownward(std::vector<edge_t*>& upward_quad_mids, ptr_vector_t<BeadingPropagation>& node_beadings)
{
    for (edge_t* upward_quad_mid : upward_quad_mids)
    {
        if (! upward_quad_mid->data_.isCentral())
        {
            if (upward_quad_mid->from_->data_.distance_to_boundary_ == upward_quad_mid->to_->data_.distance_to_boundary_ && upward_quad_mid->from_->data_.hasBeading()
                && ! upward_quad_mid->to_->data_.hasBeading())
            {
                propagateBeadingsDownward(upward_quad_mid->twin_, node_beadings);
            }
            else
            {
                propagateBeadingsDownward(upward_quad_mid, node_beadings);
            }
        }
    }
}
//END
//= cura::SkeletalTrapezoidation::propagateBeadingsDownward
void SkeletalTrapezoidation::propagateBeadingsDownward(edge_t* edge_to_peak, ptr_vector_t<BeadingPropagation>& node_beadings)
{
    coord_t length = vSize(edge_to_peak->to_->p_ - edge_to_peak->from_->p_);
    BeadingPropagation& top_beading = *getOrCreateBeading(edge_to_peak->to_, node_beadings);
    assert(top_beading.beading_.total_thickness >= edge_to_peak->to_->data_.distance_to_boundary_ * 2);
    if (top_beading.beading_.total_thickness < edge_to_peak->to_->data_.distance_to_boundary_ * 2)
    {
        spdlog::warn("Top bead is beyond the center of the total width.");
    }
    assert(! top_beading.is_upward_propagated_only_);
    if (! edge_to_peak->from_->data_.hasBeading())
    {
        BeadingPropagation propagated_beading = top_beading;
        propagated_beading.dist_from_top_source_ += length;
        node_beadings.emplace_back(new BeadingPropagation(propagated_beading));
        edge_to_peak->from_->data_.setBeading(node_beadings.back());
        assert(propagated_beading.beading_.total_thickness >= edge_to_peak->from_->data_.distance_to_boundary_ * 2);
        if (propagated_beading.beading_.total_thickness < edge_to_peak->from_->data_.distance_to_boundary_ * 2)
        {
            spdlog::warn("Propagated bead is beyond the center of the total width.");
        }
    }
    else
    {
        BeadingPropagation& bottom_beading = *edge_to_peak->from_->data_.getBeading();
        coord_t total_dist = top_beading.dist_from_top_source_ + length + bottom_beading.dist_to_bottom_source_;
        Ratio ratio_of_top = static_cast<double>(bottom_beading.dist_to_bottom_source_) / std::min(total_dist, beading_propagation_transition_dist_);
        ratio_of_top = std::max(0.0_r, ratio_of_top);
        if (ratio_of_top >= 1.0)
        {
            bottom_beading = top_beading;
            bottom_beading.dist_from_top_source_ += length;
        }
        else
        {
            Beading merged_beading = interpolate(top_beading.beading_, ratio_of_top, bottom_beading.beading_, edge_to_peak->from_->data_.distance_to_boundary_);
            bottom_beading = BeadingPropagation(merged_beading);
            bottom_beading.is_upward_propagated_only_ = false;
            assert(merged_beading.total_thickness >= edge_to_peak->from_->data_.distance_to_boundary_ * 2);
            if (merged_beading.total_thickness < edge_to_peak->from_->data_.distance_to_boundary_ * 2)
            {
                spdlog::warn("Merged bead is beyond the center of the total width.");
            }
        }
    }
}
//END
//= cura::SkeletalTrapezoidation::generateJunctions
void SkeletalTrapezoidation::generateJunctions(ptr_vector_t<BeadingPropagation>& node_beadings, ptr_vector_t<LineJunctions>& edge_junctions)
{
    for (edge_t& edge_ : graph_.edges_)
    {
        edge_t* edge = &edge_;
        if (edge->from_->data_.distance_to_boundary_ > edge->to_->data_.distance_to_boundary_)
        {
            continue;
        }
        coord_t start_R = edge->to_->data_.distance_to_boundary_;
        coord_t end_R = edge->from_->data_.distance_to_boundary_;
        if ((edge->from_->data_.bead_count_ == edge->to_->data_.bead_count_ && edge->from_->data_.bead_count_ >= 0) || end_R >= start_R)
        {
            continue;
        }
        Beading* beading = &getOrCreateBeading(edge->to_, node_beadings)->beading_;
        edge_junctions.emplace_back(std::make_shared<LineJunctions>());
        edge_.data_.setExtrusionJunctions(edge_junctions.back());
        LineJunctions& ret = *edge_junctions.back();
        assert(beading->total_thickness >= edge->to_->data_.distance_to_boundary_ * 2);
        if (beading->total_thickness < edge->to_->data_.distance_to_boundary_ * 2)
        {
            spdlog::warn("Generated junction is beyond the center of total width.");
        }
        Point2LL a = edge->to_->p_;
        Point2LL b = edge->from_->p_;
        Point2LL ab = b - a;
        const size_t num_junctions = beading->toolpath_locations.size();
        size_t junction_idx;
        for (junction_idx = (std::max(size_t(1), beading->toolpath_locations.size()) - 1) / 2; junction_idx < num_junctions; junction_idx--)
        {
            coord_t bead_R = beading->toolpath_locations[junction_idx];
            if (bead_R <= start_R + 1)
            {
                break;
            }
        }
        if (junction_idx + 1 < num_junctions && beading->toolpath_locations[junction_idx + 1] <= start_R + 5 && beading->total_thickness < start_R + 5)
        {
            junction_idx++;
        }
        for (; junction_idx < num_junctions; junction_idx--)
        {
            coord_t bead_R = beading->toolpath_locations[junction_idx];
            assert(bead_R >= 0);
            if (bead_R < end_R)
            {
                break;
            }
            Point2LL junction(a + ab * (bead_R - start_R) / (end_R - start_R));
            if (bead_R > start_R - 5)
            {
                junction = a;
            }
            ret.emplace_back(junction, beading->bead_widths[junction_idx], junction_idx);
        }
    }
}
//END
//= cura::SkeletalTrapezoidation::getOrCreateBeading
std::shared_ptr<SkeletalTrapezoidationJoint::BeadingPropagation> SkeletalTrapezoidation::getOrCreateBeading(node_t* node, ptr_vector_t<BeadingPropagation>& node_beadings)
{
    if (! node->data_.hasBeading())
    {
        if (node->data_.bead_count_ == -1)
        {
            constexpr coord_t nearby_dist = 100;
            auto nearest_beading = getNearestBeading(node, nearby_dist);
            if (nearest_beading)
            {
                return nearest_beading;
            }
            bool has_central_edge = false;
            bool first = true;
            coord_t dist = std::numeric_limits<coord_t>::max();
            for (edge_t* edge = node->incident_edge_; edge && (first || edge != node->incident_edge_); edge = edge->twin_->next_)
            {
                if (edge->data_.isCentral())
                {
                    has_central_edge = true;
                }
                assert(edge->to_->data_.distance_to_boundary_ >= 0);
                dist = std::min(dist, edge->to_->data_.distance_to_boundary_ + vSize(edge->to_->p_ - edge->from_->p_));
                first = false;
            }
            if (! has_central_edge)
            {
                spdlog::error("Unknown beading for non-central node!");
            }
            assert(dist != std::numeric_limits<coord_t>::max());
            node->data_.bead_count_ = beading_strategy_.getOptimalBeadCount(dist * 2);
        }
        assert(node->data_.bead_count_ != -1);
        node_beadings.emplace_back(new BeadingPropagation(beading_strategy_.compute(node->data_.distance_to_boundary_ * 2, node->data_.bead_count_)));
        node->data_.setBeading(node_beadings.back());
    }
    assert(node->data_.hasBeading());
    return node->data_.getBeading();
}
//END
//= cura::SkeletalTrapezoidation::getNearestBeading
std::shared_ptr<SkeletalTrapezoidationJoint::BeadingPropagation> SkeletalTrapezoidation::getNearestBeading(node_t* node, coord_t max_dist)
{
    struct DistEdge
    {
        edge_t* edge_to_;
        coord_t dist_;
//= skip DistEdge::DistEdge
        DistEdge(edge_t* edge_to, coord_t dist)
            : edge_to_(edge_to)
            , dist_(dist)
        {
        }
//END
    };
    auto compare = [](const DistEdge& l, const DistEdge& r) -> bool
    {
        return l.dist_ > r.dist_;
    };
    std::priority_queue<DistEdge, std::vector<DistEdge>, decltype(compare)> further_edges(compare);
    bool first = true;
    for (edge_t* outgoing = node->incident_edge_; outgoing && (first || outgoing != node->incident_edge_); outgoing = outgoing->twin_->next_)
    {
        further_edges.emplace(outgoing, vSize(outgoing->to_->p_ - outgoing->from_->p_));
        first = false;
    }
    for (coord_t counter = 0; counter < SKELETAL_TRAPEZOIDATION_BEAD_SEARCH_MAX; counter++)
    {
        if (further_edges.empty())
            return nullptr;
        DistEdge here = further_edges.top();
        further_edges.pop();
        if (here.dist_ > max_dist)
            return nullptr;
        if (here.edge_to_->to_->data_.hasBeading())
        {
            return here.edge_to_->to_->data_.getBeading();
        }
        else
        {
            for (edge_t* further_edge = here.edge_to_->next_; further_edge && further_edge != here.edge_to_->twin_; further_edge = further_edge->twin_->next_)
            {
                further_edges.emplace(further_edge, here.dist_ + vSize(further_edge->to_->p_ - further_edge->from_->p_));
            }
        }
    }
    return nullptr;
}
//END
//= cura::SkeletalTrapezoidation::connectJunctions
void SkeletalTrapezoidation::connectJunctions(ptr_vector_t<LineJunctions>& edge_junctions)
{
    std::unordered_set<edge_t*> unprocessed_quad_starts(graph_.edges_.size() * 5 / 2);
    for (edge_t& edge : graph_.edges_)
    {
        if (! edge.prev_)
        {
            unprocessed_quad_starts.insert(&edge);
        }
    }
    std::unordered_set<edge_t*> passed_odd_edges;
    while (! unprocessed_quad_starts.empty())
    {
        edge_t* poly_domain_start = *unprocessed_quad_starts.begin();
        edge_t* quad_start = poly_domain_start;
        bool new_domain_start = true;
        do
        {
            edge_t* quad_end = quad_start;
            while (quad_end->next_)
            {
                quad_end = quad_end->next_;
            }
            edge_t* edge_to_peak = getQuadMaxRedgeTo(quad_start);
            edge_t* edge_from_peak = edge_to_peak->next_;
            assert(edge_from_peak);
            unprocessed_quad_starts.erase(quad_start);
            if (! edge_to_peak->data_.hasExtrusionJunctions())
            {
                edge_junctions.emplace_back(std::make_shared<LineJunctions>());
                edge_to_peak->data_.setExtrusionJunctions(edge_junctions.back());
            }
            LineJunctions from_junctions = *edge_to_peak->data_.getExtrusionJunctions();
            if (! edge_from_peak->twin_->data_.hasExtrusionJunctions())
            {
                edge_junctions.emplace_back(std::make_shared<LineJunctions>());
                edge_from_peak->twin_->data_.setExtrusionJunctions(edge_junctions.back());
            }
            LineJunctions to_junctions = *edge_from_peak->twin_->data_.getExtrusionJunctions();
            if (edge_to_peak->prev_)
            {
                LineJunctions from_prev_junctions = *edge_to_peak->prev_->data_.getExtrusionJunctions();
                while (! from_junctions.empty() && ! from_prev_junctions.empty() && from_junctions.back().perimeter_index_ <= from_prev_junctions.front().perimeter_index_)
                {
                    from_junctions.pop_back();
                }
                from_junctions.reserve(from_junctions.size() + from_prev_junctions.size());
                from_junctions.insert(from_junctions.end(), from_prev_junctions.begin(), from_prev_junctions.end());
                assert(! edge_to_peak->prev_->prev_);
                if (edge_to_peak->prev_->prev_)
                {
                    spdlog::warn("The edge we're about to connect is already connected.");
                }
            }
            if (edge_from_peak->next_)
            {
                LineJunctions to_next_junctions = *edge_from_peak->next_->twin_->data_.getExtrusionJunctions();
                while (! to_junctions.empty() && ! to_next_junctions.empty() && to_junctions.back().perimeter_index_ <= to_next_junctions.front().perimeter_index_)
                {
                    to_junctions.pop_back();
                }
                to_junctions.reserve(to_junctions.size() + to_next_junctions.size());
                to_junctions.insert(to_junctions.end(), to_next_junctions.begin(), to_next_junctions.end());
                assert(! edge_from_peak->next_->next_);
                if (edge_from_peak->next_->next_)
                {
                    spdlog::warn("The edge we're about to connect is already connected!");
                }
            }
            assert(std::abs(int(from_junctions.size()) - int(to_junctions.size())) <= 1);
            if (std::abs(int(from_junctions.size()) - int(to_junctions.size())) > 1)
            {
                spdlog::warn(
                    "Can't create a transition when connecting two perimeters where the number of beads differs too much! {} vs. {}",
                    from_junctions.size(),
                    to_junctions.size());
            }
            size_t segment_count = std::min(from_junctions.size(), to_junctions.size());
            for (size_t junction_rev_idx = 0; junction_rev_idx < segment_count; junction_rev_idx++)
            {
                ExtrusionJunction& from = from_junctions[from_junctions.size() - 1 - junction_rev_idx];
                ExtrusionJunction& to = to_junctions[to_junctions.size() - 1 - junction_rev_idx];
                assert(from.perimeter_index_ == to.perimeter_index_);
                if (from.perimeter_index_ != to.perimeter_index_)
                {
                    spdlog::warn("Connecting two perimeters with different indices! Perimeter {} and {}", from.perimeter_index_, to.perimeter_index_);
                }
                const bool from_is_odd = quad_start->to_->data_.bead_count_ > 0 && quad_start->to_->data_.bead_count_ % 2 == 1
                                      && quad_start->to_->data_.transition_ratio_ == 0
                                      && junction_rev_idx == segment_count - 1
                                      && shorterThen(from.p_ - quad_start->to_->p_, 5);
                const bool to_is_odd = quad_end->from_->data_.bead_count_ > 0 && quad_end->from_->data_.bead_count_ % 2 == 1
                                    && quad_end->from_->data_.transition_ratio_ == 0
                                    && junction_rev_idx == segment_count - 1
                                    && shorterThen(to.p_ - quad_end->from_->p_, 5);
                const bool is_odd_segment = from_is_odd && to_is_odd;
                if (is_odd_segment && passed_odd_edges.count(quad_start->next_->twin_) > 0)
                {
                    continue;
                }
                bool from_is_3way = from_is_odd && quad_start->to_->isMultiIntersection();
                bool to_is_3way = to_is_odd && quad_end->from_->isMultiIntersection();
                passed_odd_edges.emplace(quad_start->next_);
                addToolpathSegment(from, to, is_odd_segment, new_domain_start, from_is_3way, to_is_3way);
            }
            new_domain_start = false;
        } while (quad_start = quad_start->getNextUnconnected(), quad_start != poly_domain_start);
    }
}
//END
//= cura::SkeletalTrapezoidation::generateLocalMaximaSingleBeads
void SkeletalTrapezoidation::generateLocalMaximaSingleBeads()
{
    std::vector<VariableWidthLines>& generated_toolpaths = *p_generated_toolpaths;
    const auto addCircleToToolpath = [&](const Point2LL& center, coord_t width, size_t inset_index)
    {
        if (inset_index >= generated_toolpaths.size())
        {
            generated_toolpaths.resize(inset_index + 1);
        }
        constexpr bool is_odd = true;
        generated_toolpaths[inset_index].emplace_back(inset_index, is_odd);
        ExtrusionLine& line = generated_toolpaths[inset_index].back();
        const coord_t r = width / 8;
        constexpr coord_t n_segments = 6;
        const auto circle = PolygonUtils::makeCircle<std::vector<ExtrusionJunction>, true>(center, r, n_segments, width, inset_index);
        line.junctions_.insert(line.junctions_.end(), circle.begin(), circle.end());
    };
    struct LocalMaximaPoint
    {
        Point2LL p_;
        coord_t width_;
        size_t accumulator_;
//= skip LocalMaximaPoint::LocalMaximaPoint
        LocalMaximaPoint(const Point2LL& p, coord_t width)
            : p_(p)
            , width_(width)
            , accumulator_(1)
        {
        }
//END
//= skip LocalMaximaPoint::operator+=
        void operator+=(const LocalMaximaPoint& other)
        {
            p_ += other.p_;
            width_ += other.width_;
            accumulator_ += other.accumulator_;
        }
//END
//= skip LocalMaximaPoint::getAveragePoint
        Point2LL getAveragePoint() const
        {
            return p_ / static_cast<coord_t>(accumulator_);
        }
//END
//= skip LocalMaximaPoint::getAverageWidth
        coord_t getAverageWidth() const
        {
            return width_ / static_cast<coord_t>(accumulator_);
        }
//END
    };
    std::vector<LocalMaximaPoint> local_maxima_points;
    for (const auto& node : graph_.nodes_)
    {
        if (! node.data_.hasBeading())
        {
            continue;
        }
        const Beading& beading = node.data_.getBeading()->beading_;
        if (beading.bead_widths.size() % 2 == 1 && node.isLocalMaximum(true))
        {
            const size_t inset_index = beading.bead_widths.size() / 2;
            const coord_t width = beading.bead_widths[inset_index];
            if (! node.isCentral())
            {
                addCircleToToolpath(node.p_, width, inset_index);
            }
            else
            {
                const auto max_local_maxima_dist = (beading_strategy_.getOptimalWidth() * 3) / 2;
                const auto max_local_maxima_dist2 = max_local_maxima_dist * max_local_maxima_dist;
                const auto it = ranges::find_if(
                    local_maxima_points,
                    [&](const LocalMaximaPoint& local_maxima_point)
                    {
                        return vSize2(local_maxima_point.p_ - node.p_) < max_local_maxima_dist2;
                    });
                if (it != local_maxima_points.end())
                {
                    *it += (LocalMaximaPoint(node.p_, width));
                }
                else
                {
                    local_maxima_points.emplace_back(node.p_, width);
                }
            }
        }
    }
    bool replace_with_local_maxima = generated_toolpaths.empty() || generated_toolpaths[0].empty();
    coord_t total_path_length = 0;
    if (! replace_with_local_maxima)
    {
        coord_t min_width = std::numeric_limits<coord_t>::max();
        for (const auto& line : generated_toolpaths[0])
        {
            total_path_length += line.length();
            for (const ExtrusionJunction& j : line)
            {
                min_width = std::min(min_width, j.w_);
            }
        }
        replace_with_local_maxima |= total_path_length <= min_width / 2;
    }
    if (replace_with_local_maxima)
    {
        if (generated_toolpaths.empty())
        {
            generated_toolpaths.emplace_back();
        }
        else
        {
            generated_toolpaths[0].clear();
        }
        for (const auto& local_maxima_point : local_maxima_points)
        {
            addCircleToToolpath(local_maxima_point.getAveragePoint(), local_maxima_point.getAverageWidth(), 0);
        }
    }
}
//END
}
