// What the functions of this unit compute.
#include "arachne/SkeletalTrapezoidationGraph.h"
#include <unordered_map>
#include <spdlog/spdlog.h>
#include "arachne/STHalfEdge.h"
#include "arachne/STHalfEdgeNode.h"
#include "utils/linearAlg2D.h"
#include "utils/macros.h"
namespace cura
{
//= cura::SkeletalTrapezoidationGraph::collapseSmallEdges
void SkeletalTrapezoidationGraph::collapseSmallEdges(coord_t snap_dist)
{
    std::unordered_map<edge_t*, std::list<edge_t>::iterator> edge_locator;
    std::unordered_map<node_t*, std::list<node_t>::iterator> node_locator;
    for (auto edge_it = edges_.begin(); edge_it != edges_.end(); ++edge_it)
    {
        edge_locator.emplace(&*edge_it, edge_it);
    }
    for (auto node_it = nodes_.begin(); node_it != nodes_.end(); ++node_it)
    {
        node_locator.emplace(&*node_it, node_it);
    }
    auto safelyRemoveEdge = [this, &edge_locator](edge_t* to_be_removed, std::list<edge_t>::iterator& current_edge_it, bool& edge_it_is_updated)
    {
        if (current_edge_it != edges_.end() && to_be_removed == &*current_edge_it)
        {
            current_edge_it = edges_.erase(current_edge_it);
            edge_it_is_updated = true;
        }
        else
        {
            edges_.erase(edge_locator[to_be_removed]);
        }
    };
    auto should_collapse = [snap_dist](node_t* a, node_t* b)
    {
        return shorterThen(a->p_ - b->p_, snap_dist);
    };
    for (auto edge_it = edges_.begin(); edge_it != edges_.end();)
    {
        if (edge_it->prev_)
        {
            edge_it++;
            continue;
        }
        edge_t* quad_start = &*edge_it;
        edge_t* quad_end = quad_start;
        while (quad_end->next_)
            quad_end = quad_end->next_;
        edge_t* quad_mid = (quad_start->next_ == quad_end) ? nullptr : quad_start->next_;
        bool edge_it_is_updated = false;
        if (quad_mid && should_collapse(quad_mid->from_, quad_mid->to_))
        {
            assert(quad_mid->twin_);
            if (! quad_mid->twin_)
            {
                RUN_ONCE(spdlog::warn("Encountered quad edge without a twin."));
                continue;
            }
            int count = 0;
            for (edge_t* edge_from_3 = quad_end; edge_from_3 && edge_from_3 != quad_mid->twin_; edge_from_3 = edge_from_3->twin_->next_)
            {
                edge_from_3->from_ = quad_mid->from_;
                edge_from_3->twin_->to_ = quad_mid->from_;
                if (++count > 1000)
                {
                    break;
                }
            }
            if (quad_mid->from_->incident_edge_ == quad_mid)
            {
                if (quad_mid->twin_->next_)
                {
                    quad_mid->from_->incident_edge_ = quad_mid->twin_->next_;
                }
                else
                {
                    quad_mid->from_->incident_edge_ = quad_mid->prev_->twin_;
                }
            }
            nodes_.erase(node_locator[quad_mid->to_]);
            quad_mid->prev_->next_ = quad_mid->next_;
            quad_mid->next_->prev_ = quad_mid->prev_;
            quad_mid->twin_->next_->prev_ = quad_mid->twin_->prev_;
            quad_mid->twin_->prev_->next_ = quad_mid->twin_->next_;
            safelyRemoveEdge(quad_mid->twin_, edge_it, edge_it_is_updated);
            safelyRemoveEdge(quad_mid, edge_it, edge_it_is_updated);
        }
        if (should_collapse(quad_start->from_, quad_end->to_) && should_collapse(quad_start->to_, quad_end->from_))
        {
            quad_start->twin_->to_ = quad_end->to_;
            quad_end->to_->incident_edge_ = quad_end->twin_;
            if (quad_end->from_->incident_edge_ == quad_end)
            {
                if (quad_end->twin_->next_)
                {
                    quad_end->from_->incident_edge_ = quad_end->twin_->next_;
                }
                else
                {
                    quad_end->from_->incident_edge_ = quad_end->prev_->twin_;
                }
            }
            nodes_.erase(node_locator[quad_start->from_]);
            quad_start->twin_->twin_ = quad_end->twin_;
            quad_end->twin_->twin_ = quad_start->twin_;
            safelyRemoveEdge(quad_start, edge_it, edge_it_is_updated);
            safelyRemoveEdge(quad_end, edge_it, edge_it_is_updated);
        }
        if (! edge_it_is_updated)
        {
            edge_it++;
        }
    }
}
//END
}
