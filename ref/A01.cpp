// Variable-width walls.
#include <algorithm>
#include <array>
#include <unordered_set>
#include <unordered_map>
#include <set>
#include <map>
#include <list>
#include <vector>
#include <deque>
#include <memory>
#include <numeric>
#include <optional>
#include <functional>
#include <string>
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "geometry/Polygon.h"
#include "geometry/OpenPolyline.h"
#include "geometry/SingleShape.h"
#include "geometry/MixedLinesSet.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "raft.h"
#include "BeadingStrategy/BeadingStrategy.h"
#include "BeadingStrategy/BeadingStrategyFactory.h"
#include "ExtruderTrain.h"
#include "WallToolPaths.h"
#include "arachne/STHalfEdge.h"
#include "arachne/STHalfEdgeNode.h"
#include "arachne/SkeletalTrapezoidation.h"
#include "arachne/SkeletalTrapezoidationEdge.h"
#include "arachne/SkeletalTrapezoidationGraph.h"
#include "arachne/SkeletalTrapezoidationJoint.h"
#include "geometry/MendedShape.h"
#include "geometry/Point2LL.h"
#include "geometry/PointMatrix.h"
#include "geometry/Polygon.h"
#include "geometry/conversions/Point2D_Point2LL.h"
#include "settings/types/Ratio.h"
#include "utils/Coord_t.h"
#include "utils/ExtrusionJunction.h"
#include "utils/ExtrusionLine.h"
#include "utils/ExtrusionLineStitcher.h"
#include "utils/PolygonsSegmentIndex.h"
#include "utils/Simplify.h"
#include "utils/VoronoiUtils.h"
#include "utils/actions/smooth.h"
#include "utils/linearAlg2D.h"
#include "utils/macros.h"
#include "utils/polygonUtils.h"
#include "utils/section_type.h"
#include <algorithm> //For std::partition_copy and std::min_element.
#include <boost/polygon/voronoi.hpp>
#include <cassert>
#include <list>
#include <memory> // smart pointers
#include <numbers>
#include <optional>
#include <queue>
#include <range/v3/algorithm/find_if.hpp>
#include <range/v3/range/conversion.hpp>
#include <range/v3/view/filter.hpp>
#include <range/v3/view/transform.hpp>
#include <scripta/logger.h>
#include <spdlog/spdlog.h>
#include <sstream>
#include <stack>
#include <unordered_map>
#include <unordered_set>
#include <utility> // pair
#include <vector>
#include "arachne/STHalfEdge.h"
#include "arachne/STHalfEdgeNode.h"
#include "arachne/SkeletalTrapezoidation.h"
#include "arachne/SkeletalTrapezoidationEdge.h"
#include "arachne/SkeletalTrapezoidationGraph.h"
#include "arachne/SkeletalTrapezoidationJoint.h"
#include "utils/VoronoiUtils.h"
#include "ref.h"

namespace ref
{
using namespace cura;

//= cura::STHalfEdge::STHalfEdge
void r1(cura::STHalfEdge& self, const SkeletalTrapezoidationEdge& data)
{
        member(self.data_) = data;
}

//= cura::STHalfEdge::canGoUp
namespace n2
{
using edge_t = cura::STHalfEdge::edge_t;
bool r2(const cura::STHalfEdge& self, bool strict)
{
    if (self.to_->data_.distance_to_boundary_ > self.from_->data_.distance_to_boundary_)
    {
        return true;
    }
    if (self.to_->data_.distance_to_boundary_ < self.from_->data_.distance_to_boundary_ || strict)
    {
        return false;
    }
    for (edge_t* outgoing = self.next_; outgoing != self.twin_; outgoing = outgoing->twin_->next_)
    {
        if (outgoing->canGoUp())
        {
            return true;
        }
        if (! outgoing->twin_)
            return false;
        if (! outgoing->twin_->next_)
            return true; 
    }
    return false;
}
} // namespace n2

//= cura::STHalfEdge::isUpward
bool r3(const cura::STHalfEdge& self, const bool strict)
{
    if (self.to_->data_.distance_to_boundary_ > self.from_->data_.distance_to_boundary_)
    {
        return true;
    }
    if (self.to_->data_.distance_to_boundary_ < self.from_->data_.distance_to_boundary_ || strict)
    {
        return false;
    }
    std::optional<coord_t> forward_up_dist = self.distToGoUp();
    std::optional<coord_t> backward_up_dist = self.twin_->distToGoUp();
    if (forward_up_dist && backward_up_dist)
    {
        return forward_up_dist < backward_up_dist;
    }
    if (forward_up_dist)
    {
        return true;
    }
    if (backward_up_dist)
    {
        return false;
    }
    return self.to_->p_ < self.from_->p_; 
}

//= cura::STHalfEdge::distToGoUp
namespace n4
{
using edge_t = cura::STHalfEdge::edge_t;
std::optional<coord_t> r4(const cura::STHalfEdge& self)
{
    if (self.to_->data_.distance_to_boundary_ > self.from_->data_.distance_to_boundary_)
    {
        return 0;
    }
    if (self.to_->data_.distance_to_boundary_ < self.from_->data_.distance_to_boundary_)
    {
        return std::optional<coord_t>();
    }
    std::optional<coord_t> ret;
    for (edge_t* outgoing = self.next_; outgoing != self.twin_; outgoing = outgoing->twin_->next_)
    {
        std::optional<coord_t> dist_to_up = outgoing->distToGoUp();
        if (dist_to_up)
        {
            if (ret)
            {
                ret = std::min(*ret, *dist_to_up);
            }
            else
            {
                ret = dist_to_up;
            }
        }
        if (! outgoing->twin_)
            return std::optional<coord_t>();
        if (! outgoing->twin_->next_)
            return 0; 
    }
    if (ret)
    {
        ret = *ret + vSize(self.to_->p_ - self.from_->p_);
    }
    return ret;
}
} // namespace n4

//= cura::STHalfEdge::getNextUnconnected
namespace n5
{
using edge_t = cura::STHalfEdge::edge_t;
STHalfEdge* r5(cura::STHalfEdge& self)
{
    edge_t* result = static_cast<STHalfEdge*>((&self));
    while (result->next_)
    {
        result = result->next_;
        if (result == (&self))
        {
            return nullptr;
        }
    }
    return result->twin_;
}
} // namespace n5

//= cura::STHalfEdgeNode::STHalfEdgeNode
void r6(cura::STHalfEdgeNode& self, const SkeletalTrapezoidationJoint& data, const Point2LL& p)
{
        member(self.data_) = data;
        member(self.p_) = p;
}

//= cura::STHalfEdgeNode::isMultiIntersection
namespace n7
{
using edge_t = cura::STHalfEdgeNode::edge_t;
bool r7(cura::STHalfEdgeNode& self)
{
    int odd_path_count = 0;
    edge_t* outgoing = self.incident_edge_;
    do
    {
        if (! outgoing)
        { 
            return false;
        }
        if (outgoing->data_.isCentral())
        {
            odd_path_count++;
        }
    } while (outgoing = outgoing->twin_->next_, outgoing != self.incident_edge_);
    return odd_path_count > 2;
}
} // namespace n7

//= cura::STHalfEdgeNode::isCentral
namespace n8
{
using edge_t = cura::STHalfEdgeNode::edge_t;
bool r8(const cura::STHalfEdgeNode& self)
{
    edge_t* edge = self.incident_edge_;
    do
    {
        if (edge->data_.isCentral())
        {
            return true;
        }
        if (! edge->twin_)
            return false;
    } while (edge = edge->twin_->next_, edge != self.incident_edge_);
    return false;
}
} // namespace n8

//= cura::STHalfEdgeNode::isLocalMaximum
namespace n9
{
using edge_t = cura::STHalfEdgeNode::edge_t;
bool r9(const cura::STHalfEdgeNode& self, bool strict)
{
    if (self.data_.distance_to_boundary_ == 0)
    {
        return false;
    }
    edge_t* edge = self.incident_edge_;
    do
    {
        if (edge->canGoUp(strict))
        {
            return false;
        }
        if (! edge->twin_)
            return false;
        if (! edge->twin_->next_)
        { 
            return false;
        }
    } while (edge = edge->twin_->next_, edge != self.incident_edge_);
    return true;
}
} // namespace n9

//= cura::SkeletalTrapezoidation::makeNode
namespace n10
{
using node_t = cura::SkeletalTrapezoidation::node_t;
using vd_t = cura::SkeletalTrapezoidation::vd_t;
SkeletalTrapezoidation::node_t& r10(cura::SkeletalTrapezoidation& self, vd_t::vertex_type& vd_node, Point2LL p)
{
    auto he_node_it = self.vd_node_to_he_node_.find(&vd_node);
    if (he_node_it == self.vd_node_to_he_node_.end())
    {
        self.graph_.nodes_.emplace_front(SkeletalTrapezoidationJoint(), p);
        node_t& node = self.graph_.nodes_.front();
        self.vd_node_to_he_node_.emplace(&vd_node, &node);
        return node;
    }
    else
    {
        return *he_node_it->second;
    }
}
} // namespace n10

//= cura::SkeletalTrapezoidation::discretize
namespace n12
{
using Segment = cura::SkeletalTrapezoidation::Segment;
using vd_t = cura::SkeletalTrapezoidation::vd_t;
std::vector<Point2LL> r12(cura::SkeletalTrapezoidation& self, const vd_t::edge_type& vd_edge, const std::vector<Point2LL>& points, const std::vector<Segment>& segments)
{
    const vd_t::cell_type* left_cell = vd_edge.cell();
    const vd_t::cell_type* right_cell = vd_edge.twin()->cell();
    Point2LL start = VoronoiUtils::p(vd_edge.vertex0());
    Point2LL end = VoronoiUtils::p(vd_edge.vertex1());
    bool point_left = left_cell->contains_point();
    bool point_right = right_cell->contains_point();
    if ((! point_left && ! point_right) || vd_edge.is_secondary()) 
    {
        return std::vector<Point2LL>({ start, end });
    }
    else if (point_left != point_right) 
    {
        Point2LL p = VoronoiUtils::getSourcePoint(*(point_left ? left_cell : right_cell), points, segments);
        const Segment& s = VoronoiUtils::getSourceSegment(*(point_left ? right_cell : left_cell), points, segments);
        return VoronoiUtils::discretizeParabola(p, s, start, end, self.discretization_step_size_, self.transitioning_angle_);
    }
    else 
    {
        Point2LL left_point = VoronoiUtils::getSourcePoint(*left_cell, points, segments);
        Point2LL right_point = VoronoiUtils::getSourcePoint(*right_cell, points, segments);
        coord_t d = vSize(right_point - left_point);
        Point2LL middle = (left_point + right_point) / 2;
        Point2LL x_axis_dir = turn90CCW(right_point - left_point);
        coord_t x_axis_length = vSize(x_axis_dir);
        const auto projected_x = [x_axis_dir, x_axis_length, middle](Point2LL from) 
        {
            Point2LL vec = from - middle;
            coord_t x = dot(vec, x_axis_dir) / x_axis_length;
            return x;
        };
        coord_t start_x = projected_x(start);
        coord_t end_x = projected_x(end);
        double bound = 0.5 / tan((std::numbers::pi - self.transitioning_angle_) * 0.5);
        coord_t marking_start_x = -d * bound;
        coord_t marking_end_x = d * bound;
        Point2LL marking_start = middle + x_axis_dir * marking_start_x / x_axis_length;
        Point2LL marking_end = middle + x_axis_dir * marking_end_x / x_axis_length;
        int direction = 1;
        if (start_x > end_x) 
        {
            direction = -1;
            std::swap(marking_start, marking_end);
            std::swap(marking_start_x, marking_end_x);
        }
        Point2LL a = start;
        Point2LL b = end;
        std::vector<Point2LL> ret;
        ret.emplace_back(a);
        bool add_marking_start = marking_start_x * direction > start_x * direction;
        bool add_marking_end = marking_end_x * direction > start_x * direction;
        Point2LL ab = b - a;
        coord_t ab_size = vSize(ab);
        coord_t step_count = (ab_size + self.discretization_step_size_ / 2) / self.discretization_step_size_;
        if (step_count % 2 == 1)
        {
            step_count++; 
        }
        for (coord_t step = 1; step < step_count; step++)
        {
            Point2LL here = a + ab * step / step_count; 
            coord_t x_here = projected_x(here); 
            if (add_marking_start && marking_start_x * direction < x_here * direction)
            {
                ret.emplace_back(marking_start);
                add_marking_start = false;
            }
            if (add_marking_end && marking_end_x * direction < x_here * direction)
            {
                ret.emplace_back(marking_end);
                add_marking_end = false;
            }
            ret.emplace_back(here);
        }
        if (add_marking_end && marking_end_x * direction < end_x * direction)
        {
            ret.emplace_back(marking_end);
        }
        ret.emplace_back(b);
        return ret;
    }
}
} // namespace n12

//= cura::SkeletalTrapezoidation::generateToolpaths
void r18(cura::SkeletalTrapezoidation& self, std::vector<VariableWidthLines>& generated_toolpaths, bool filter_outermost_central_edges)
{
    self.p_generated_toolpaths = &generated_toolpaths;
    self.updateIsCentral();
    self.filterCentral(self.central_filter_dist_);
    if (filter_outermost_central_edges)
    {
        self.filterOuterCentral();
    }
    self.updateBeadCount();
    scripta::log(
        "st_graph_0",
        self.graph_,
        self.section_type_,
        self.layer_idx_,
        scripta::CellVDI{ "is_central",
                          [](const auto& edge)
                          {
                              return static_cast<int>(edge.data_.is_central);
                          } },
        scripta::CellVDI{ "type",
                          [](const auto& edge)
                          {
                              return static_cast<int>(edge.data_.type_);
                          } },
        scripta::PointVDI{ "distance_to_boundary",
                           [](const auto& node)
                           {
                               return node->data_.distance_to_boundary_;
                           } },
        scripta::PointVDI{ "bead_count",
                           [](const auto& node)
                           {
                               return node->data_.bead_count_;
                           } },
        scripta::PointVDI{ "transition_ratio",
                           [](const auto& node)
                           {
                               return node->data_.transition_ratio_;
                           } });
    self.filterNoncentralRegions();
    scripta::log(
        "st_graph_1",
        self.graph_,
        self.section_type_,
        self.layer_idx_,
        scripta::CellVDI{ "is_central",
                          [](const auto& edge)
                          {
                              return static_cast<int>(edge.data_.is_central);
                          } },
        scripta::CellVDI{ "type",
                          [](const auto& edge)
                          {
                              return static_cast<int>(edge.data_.type_);
                          } },
        scripta::PointVDI{ "distance_to_boundary",
                           [](const auto& node)
                           {
                               return node->data_.distance_to_boundary_;
                           } },
        scripta::PointVDI{ "bead_count",
                           [](const auto& node)
                           {
                               return node->data_.bead_count_;
                           } },
        scripta::PointVDI{ "transition_ratio",
                           [](const auto& node)
                           {
                               return node->data_.transition_ratio_;
                           } });
    self.generateTransitioningRibs();
    scripta::log(
        "st_graph_2",
        self.graph_,
        self.section_type_,
        self.layer_idx_,
        scripta::CellVDI{ "is_central",
                          [](const auto& edge)
                          {
                              return static_cast<int>(edge.data_.is_central);
                          } },
        scripta::CellVDI{ "type",
                          [](const auto& edge)
                          {
                              return static_cast<int>(edge.data_.type_);
                          } },
        scripta::PointVDI{ "distance_to_boundary",
                           [](const auto& node)
                           {
                               return node->data_.distance_to_boundary_;
                           } },
        scripta::PointVDI{ "bead_count",
                           [](const auto& node)
                           {
                               return node->data_.bead_count_;
                           } },
        scripta::PointVDI{ "transition_ratio",
                           [](const auto& node)
                           {
                               return node->data_.transition_ratio_;
                           } });
    self.generateExtraRibs();
    scripta::log(
        "st_graph_3",
        self.graph_,
        self.section_type_,
        self.layer_idx_,
        scripta::CellVDI{ "is_central",
                          [](const auto& edge)
                          {
                              return static_cast<int>(edge.data_.is_central);
                          } },
        scripta::CellVDI{ "type",
                          [](const auto& edge)
                          {
                              return static_cast<int>(edge.data_.type_);
                          } },
        scripta::PointVDI{ "distance_to_boundary",
                           [](const auto& node)
                           {
                               return node->data_.distance_to_boundary_;
                           } },
        scripta::PointVDI{ "bead_count",
                           [](const auto& node)
                           {
                               return node->data_.bead_count_;
                           } },
        scripta::PointVDI{ "transition_ratio",
                           [](const auto& node)
                           {
                               return node->data_.transition_ratio_;
                           } });
    self.generateSegments();
    scripta::log(
        "st_graph_4",
        self.graph_,
        self.section_type_,
        self.layer_idx_,
        scripta::CellVDI{ "is_central",
                          [](const auto& edge)
                          {
                              return static_cast<int>(edge.data_.is_central);
                          } },
        scripta::CellVDI{ "type",
                          [](const auto& edge)
                          {
                              return static_cast<int>(edge.data_.type_);
                          } },
        scripta::PointVDI{ "distance_to_boundary",
                           [](const auto& node)
                           {
                               return node->data_.distance_to_boundary_;
                           } },
        scripta::PointVDI{ "bead_count",
                           [](const auto& node)
                           {
                               return node->data_.bead_count_;
                           } },
        scripta::PointVDI{ "transition_ratio",
                           [](const auto& node)
                           {
                               return node->data_.transition_ratio_;
                           } });
}

//= cura::SkeletalTrapezoidation::updateIsCentral
namespace n19
{
using edge_t = cura::SkeletalTrapezoidation::edge_t;
void r19(cura::SkeletalTrapezoidation& self)
{
    coord_t outer_edge_filter_length = self.beading_strategy_.getTransitionThickness(0) / 2;
    double cap = sin(self.beading_strategy_.getTransitioningAngle() * 0.5); 
    for (edge_t& edge : self.graph_.edges_)
    {
        if (! edge.twin_)
        {
            continue;
        }
        if (edge.twin_->data_.centralIsSet())
        {
            edge.data_.setIsCentral(edge.twin_->data_.isCentral());
        }
        else if (edge.data_.type_ == SkeletalTrapezoidationEdge::EdgeType::EXTRA_VD)
        {
            edge.data_.setIsCentral(false);
        }
        else if (std::max(edge.from_->data_.distance_to_boundary_, edge.to_->data_.distance_to_boundary_) < outer_edge_filter_length)
        {
            edge.data_.setIsCentral(false);
        }
        else
        {
            Point2LL a = edge.from_->p_;
            Point2LL b = edge.to_->p_;
            Point2LL ab = b - a;
            coord_t dR = std::abs(edge.to_->data_.distance_to_boundary_ - edge.from_->data_.distance_to_boundary_);
            coord_t dD = vSize(ab);
            edge.data_.setIsCentral(dR < dD * cap);
        }
    }
}
} // namespace n19

//= cura::SkeletalTrapezoidation::filterCentral
namespace n20
{
using edge_t = cura::SkeletalTrapezoidation::edge_t;
void r20(cura::SkeletalTrapezoidation& self, coord_t max_length)
{
    for (edge_t& edge : self.graph_.edges_)
    {
        if (self.isEndOfCentral(edge) && edge.to_->isLocalMaximum() && ! edge.to_->isLocalMaximum())
        {
            self.filterCentral(edge.twin_, 0, max_length);
        }
    }
}
} // namespace n20

//= cura::SkeletalTrapezoidation::filterCentral
namespace n21
{
using edge_t = cura::SkeletalTrapezoidation::edge_t;
bool r21(cura::SkeletalTrapezoidation& self, edge_t* starting_edge, coord_t traveled_dist, coord_t max_length)
{
    coord_t length = vSize(starting_edge->from_->p_ - starting_edge->to_->p_);
    if (traveled_dist + length > max_length)
    {
        return false;
    }
    bool should_dissolve = true; 
    for (edge_t* next_edge = starting_edge->next_; next_edge && next_edge != starting_edge->twin_; next_edge = next_edge->twin_->next_)
    {
        if (next_edge->data_.isCentral())
        {
            should_dissolve &= self.filterCentral(next_edge, traveled_dist + length, max_length);
        }
    }
    should_dissolve &= ! starting_edge->to_->isLocalMaximum(); 
    if (should_dissolve)
    {
        starting_edge->data_.setIsCentral(false);
        starting_edge->twin_->data_.setIsCentral(false);
    }
    return should_dissolve;
}
} // namespace n21

//= cura::SkeletalTrapezoidation::filterNoncentralRegions
namespace n24
{
using edge_t = cura::SkeletalTrapezoidation::edge_t;
void r24(cura::SkeletalTrapezoidation& self)
{
    for (edge_t& edge : self.graph_.edges_)
    {
        if (! self.isEndOfCentral(edge))
        {
            continue;
        }
        if (edge.to_->data_.bead_count_ < 0 && edge.to_->data_.distance_to_boundary_ != 0)
        {
        }
        constexpr coord_t max_dist = 400;
        self.filterNoncentralRegions(&edge, edge.to_->data_.bead_count_, 0, max_dist);
    }
}
} // namespace n24

//= cura::SkeletalTrapezoidation::filterNoncentralRegions
namespace n25
{
using edge_t = cura::SkeletalTrapezoidation::edge_t;
bool r25(cura::SkeletalTrapezoidation& self, edge_t* to_edge, coord_t bead_count, coord_t traveled_dist, coord_t max_dist)
{
    coord_t r = to_edge->to_->data_.distance_to_boundary_;
    edge_t* next_edge = to_edge->next_;
    for (; next_edge && next_edge != to_edge->twin_; next_edge = next_edge->twin_->next_)
    {
        if (next_edge->to_->data_.distance_to_boundary_ >= r || shorterThen(next_edge->to_->p_ - next_edge->from_->p_, 10))
        {
            break; 
        }
    }
    if (next_edge == to_edge->twin_ || ! next_edge)
    {
        return false;
    }
    const coord_t length = vSize(next_edge->to_->p_ - next_edge->from_->p_);
    bool dissolve = false;
    if (next_edge->to_->data_.bead_count_ == bead_count)
    {
        dissolve = true;
    }
    else if (next_edge->to_->data_.bead_count_ < 0)
    {
        dissolve = self.filterNoncentralRegions(next_edge, bead_count, traveled_dist + length, max_dist);
    }
    else 
    {
        dissolve = (traveled_dist + length < max_dist) && std::abs(next_edge->to_->data_.bead_count_ - bead_count) == 1;
    }
    if (dissolve)
    {
        next_edge->data_.setIsCentral(true);
        next_edge->twin_->data_.setIsCentral(true);
        next_edge->to_->data_.bead_count_ = self.beading_strategy_.getOptimalBeadCount(next_edge->to_->data_.distance_to_boundary_ * 2);
        next_edge->to_->data_.transition_ratio_ = 0;
    }
    return dissolve; 
}
} // namespace n25

//= cura::SkeletalTrapezoidation::dissolveBeadCountRegion
namespace n30
{
using edge_t = cura::SkeletalTrapezoidation::edge_t;
void r30(cura::SkeletalTrapezoidation& self, edge_t* edge_to_start, coord_t from_bead_count, coord_t to_bead_count)
{
    if (edge_to_start->to_->data_.bead_count_ != from_bead_count)
    {
        return;
    }
    edge_to_start->to_->data_.bead_count_ = to_bead_count;
    for (edge_t* edge = edge_to_start->next_; edge && edge != edge_to_start->twin_; edge = edge->twin_->next_)
    {
        if (! edge->data_.isCentral())
        {
            continue;
        }
        self.dissolveBeadCountRegion(edge, from_bead_count, to_bead_count);
    }
}
} // namespace n30

//= cura::SkeletalTrapezoidation::filterEndOfCentralTransition
namespace n31
{
using edge_t = cura::SkeletalTrapezoidation::edge_t;
bool r31(cura::SkeletalTrapezoidation& self, edge_t* edge_to_start, coord_t traveled_dist, coord_t max_dist, coord_t replacing_bead_count)
{
    if (traveled_dist > max_dist)
    {
        return false;
    }
    bool is_end_of_central = true;
    bool should_dissolve = false;
    for (edge_t* next_edge = edge_to_start->next_; next_edge && next_edge != edge_to_start->twin_; next_edge = next_edge->twin_->next_)
    {
        if (next_edge->data_.isCentral())
        {
            coord_t length = vSize(next_edge->to_->p_ - next_edge->from_->p_);
            should_dissolve |= self.filterEndOfCentralTransition(next_edge, traveled_dist + length, max_dist, replacing_bead_count);
            is_end_of_central = false;
        }
    }
    if (is_end_of_central && traveled_dist < max_dist)
    {
        should_dissolve = true;
    }
    if (should_dissolve)
    {
        edge_to_start->to_->data_.bead_count_ = replacing_bead_count;
    }
    return should_dissolve;
}
} // namespace n31

//= cura::SkeletalTrapezoidation::isGoingDown
namespace n35
{
using TransitionMiddle = cura::SkeletalTrapezoidation::TransitionMiddle;
using edge_t = cura::SkeletalTrapezoidation::edge_t;
bool r35(const cura::SkeletalTrapezoidation& self, edge_t* outgoing, coord_t traveled_dist, coord_t max_dist, coord_t lower_bead_count)
{
    if (outgoing->to_->data_.distance_to_boundary_ == 0)
    {
        return true;
    }
    bool is_upward = outgoing->to_->data_.distance_to_boundary_ >= outgoing->from_->data_.distance_to_boundary_;
    edge_t* upward_edge = is_upward ? outgoing : outgoing->twin_;
    if (outgoing->to_->data_.bead_count_ > lower_bead_count + 1)
    {
        if (! upward_edge->data_.hasTransitions())
        {
        }
        return false;
    }
    coord_t length = vSize(outgoing->to_->p_ - outgoing->from_->p_);
    if (upward_edge->data_.hasTransitions())
    {
        auto& transition_mids = *upward_edge->data_.getTransitions();
        TransitionMiddle& mid = is_upward ? transition_mids.front() : transition_mids.back();
        if (mid.lower_bead_count_ == lower_bead_count && ((is_upward && mid.pos_ + traveled_dist < max_dist) || (! is_upward && length - mid.pos_ + traveled_dist < max_dist)))
        {
            return true;
        }
    }
    if (traveled_dist + length > max_dist)
    {
        return false;
    }
    if (outgoing->to_->data_.bead_count_ <= lower_bead_count && ! (outgoing->to_->data_.bead_count_ == lower_bead_count && outgoing->to_->data_.transition_ratio_ > 0.0))
    {
        return true;
    }
    bool is_only_going_down = true;
    bool has_recursed = false;
    for (edge_t* next = outgoing->next_; next && next != outgoing->twin_; next = next->twin_->next_)
    {
        if (! next->data_.isCentral())
        {
            continue;
        }
        bool is_going_down = self.isGoingDown(next, traveled_dist + length, max_dist, lower_bead_count);
        is_only_going_down &= is_going_down;
        has_recursed = true;
    }
    return has_recursed && is_only_going_down;
}
} // namespace n35

//= cura::SkeletalTrapezoidation::isEndOfCentral
namespace n37
{
using edge_t = cura::SkeletalTrapezoidation::edge_t;
bool r37(const cura::SkeletalTrapezoidation& self, const edge_t& edge_to)
{
    if (! edge_to.data_.isCentral())
    {
        return false;
    }
    if (! edge_to.next_)
    {
        return true;
    }
    for (const edge_t* edge = edge_to.next_; edge && edge != edge_to.twin_; edge = edge->twin_->next_)
    {
        if (edge->data_.isCentral())
        {
            return false;
        }
    }
    return true;
}
} // namespace n37

//= cura::SkeletalTrapezoidation::getQuadMaxRedgeTo
namespace n40
{
using edge_t = cura::SkeletalTrapezoidation::edge_t;
SkeletalTrapezoidation::edge_t* r40(cura::SkeletalTrapezoidation& self, edge_t* quad_start_edge)
{
    coord_t max_R = -1;
    edge_t* ret = nullptr;
    for (edge_t* edge = quad_start_edge; edge; edge = edge->next_)
    {
        coord_t r = edge->to_->data_.distance_to_boundary_;
        if (r > max_R)
        {
            max_R = r;
            ret = edge;
        }
    }
    if (! ret->next_ && ret->to_->data_.distance_to_boundary_ - 5 < ret->from_->data_.distance_to_boundary_)
    {
        ret = ret->prev_;
    }
    return ret;
}
} // namespace n40

//= cura::SkeletalTrapezoidation::interpolate
namespace n44
{
using Beading = cura::SkeletalTrapezoidation::Beading;
SkeletalTrapezoidation::Beading r44(const cura::SkeletalTrapezoidation& self, const Beading& left, Ratio ratio_left_to_whole, const Beading& right, coord_t switching_radius)
{
    Beading ret = self.interpolate(left, ratio_left_to_whole, right);
    coord_t next_inset_idx;
    for (next_inset_idx = static_cast<coord_t>(left.toolpath_locations.size()) - 1; next_inset_idx >= 0; next_inset_idx--)
    {
        if (switching_radius > left.toolpath_locations[next_inset_idx])
        {
            break;
        }
    }
    if (next_inset_idx < 0)
    { 
        return ret;
    }
    if (next_inset_idx + 1 == coord_t(left.toolpath_locations.size()))
    { 
        return ret;
    }
    if (ret.toolpath_locations[next_inset_idx] > switching_radius)
    { 
        double new_ratio = static_cast<double>(switching_radius - right.toolpath_locations[next_inset_idx])
                         / static_cast<double>(left.toolpath_locations[next_inset_idx] - right.toolpath_locations[next_inset_idx]);
        new_ratio = std::min(1.0, new_ratio + 0.1);
        return self.interpolate(left, new_ratio, right);
    }
    return ret;
}
} // namespace n44

//= cura::SkeletalTrapezoidation::interpolate
namespace n45
{
using Beading = cura::SkeletalTrapezoidation::Beading;
SkeletalTrapezoidation::Beading r45(const cura::SkeletalTrapezoidation& self, const Beading& left, Ratio ratio_left_to_whole, const Beading& right)
{
    double ratio_right_to_whole = 1.0 - ratio_left_to_whole;
    Beading ret = (left.total_thickness > right.total_thickness) ? left : right;
    for (size_t inset_idx = 0; inset_idx < std::min(left.bead_widths.size(), right.bead_widths.size()); inset_idx++)
    {
        if (left.bead_widths[inset_idx] == 0 || right.bead_widths[inset_idx] == 0)
        {
            ret.bead_widths[inset_idx] = 0; 
        }
        else
        {
            ret.bead_widths[inset_idx] = ratio_left_to_whole * left.bead_widths[inset_idx] + ratio_right_to_whole * right.bead_widths[inset_idx];
        }
        ret.toolpath_locations[inset_idx] = ratio_left_to_whole * left.toolpath_locations[inset_idx] + ratio_right_to_whole * right.toolpath_locations[inset_idx];
    }
    return ret;
}
} // namespace n45

//= cura::SkeletalTrapezoidation::addToolpathSegment
void r50(cura::SkeletalTrapezoidation& self, const ExtrusionJunction& from, const ExtrusionJunction& to, bool is_odd, bool force_new_path, bool from_is_3way, bool to_is_3way)
{
    if (from == to)
        return;
    std::vector<VariableWidthLines>& generated_toolpaths = *self.p_generated_toolpaths;
    size_t inset_idx = from.perimeter_index_;
    if (inset_idx >= generated_toolpaths.size())
    {
        generated_toolpaths.resize(inset_idx + 1);
    }
    if (generated_toolpaths[inset_idx].empty() || generated_toolpaths[inset_idx].back().is_odd_ != is_odd
        || generated_toolpaths[inset_idx].back().junctions_.back().perimeter_index_ != inset_idx 
    )
    {
        force_new_path = true;
    }
    if (! force_new_path && shorterThen(generated_toolpaths[inset_idx].back().junctions_.back().p_ - from.p_, 10)
        && std::abs(generated_toolpaths[inset_idx].back().junctions_.back().w_ - from.w_) < 10 && ! from_is_3way 
    )
    {
        generated_toolpaths[inset_idx].back().junctions_.push_back(to);
    }
    else if (
        ! force_new_path && shorterThen(generated_toolpaths[inset_idx].back().junctions_.back().p_ - to.p_, 10)
        && std::abs(generated_toolpaths[inset_idx].back().junctions_.back().w_ - to.w_) < 10 && ! to_is_3way 
    )
    {
        if (! is_odd)
        {
        }
        generated_toolpaths[inset_idx].back().junctions_.push_back(from);
    }
    else
    {
        generated_toolpaths[inset_idx].emplace_back(inset_idx, is_odd);
        generated_toolpaths[inset_idx].back().junctions_.push_back(from);
        generated_toolpaths[inset_idx].back().junctions_.push_back(to);
    }
};

//= cura::SkeletalTrapezoidationGraph::makeRib
namespace n58
{
using edge_t = cura::SkeletalTrapezoidationGraph::edge_t;
using node_t = cura::SkeletalTrapezoidationGraph::node_t;
void r58(cura::SkeletalTrapezoidationGraph& self, edge_t*& prev_edge, Point2LL start_source_point, Point2LL end_source_point)
{
    Point2LL p = LinearAlg2D::getClosestOnLine(prev_edge->to_->p_, start_source_point, end_source_point);
    coord_t dist = vSize(prev_edge->to_->p_ - p);
    prev_edge->to_->data_.distance_to_boundary_ = dist;
    self.nodes_.emplace_front(SkeletalTrapezoidationJoint(), p);
    node_t* node = &self.nodes_.front();
    node->data_.distance_to_boundary_ = 0;
    self.edges_.emplace_front(SkeletalTrapezoidationEdge(SkeletalTrapezoidationEdge::EdgeType::EXTRA_VD));
    edge_t* forth_edge = &self.edges_.front();
    self.edges_.emplace_front(SkeletalTrapezoidationEdge(SkeletalTrapezoidationEdge::EdgeType::EXTRA_VD));
    edge_t* back_edge = &self.edges_.front();
    prev_edge->next_ = forth_edge;
    forth_edge->prev_ = prev_edge;
    forth_edge->from_ = prev_edge->to_;
    forth_edge->to_ = node;
    forth_edge->twin_ = back_edge;
    back_edge->twin_ = forth_edge;
    back_edge->from_ = node;
    back_edge->to_ = prev_edge->to_;
    node->incident_edge_ = back_edge;
    prev_edge = back_edge;
}
} // namespace n58

//= cura::SkeletalTrapezoidationGraph::insertRib
namespace n59
{
using edge_t = cura::SkeletalTrapezoidationGraph::edge_t;
using node_t = cura::SkeletalTrapezoidationGraph::node_t;
std::pair<SkeletalTrapezoidationGraph::edge_t*, SkeletalTrapezoidationGraph::edge_t*> r59(cura::SkeletalTrapezoidationGraph& self, edge_t& edge, node_t* mid_node)
{
    edge_t* edge_before = edge.prev_;
    edge_t* edge_after = edge.next_;
    node_t* node_before = edge.from_;
    node_t* node_after = edge.to_;
    Point2LL p = mid_node->p_;
    std::pair<Point2LL, Point2LL> source_segment = self.getSource(edge);
    Point2LL px = LinearAlg2D::getClosestOnLineSegment(p, source_segment.first, source_segment.second);
    coord_t dist = vSize(p - px);
    mid_node->data_.distance_to_boundary_ = dist;
    mid_node->data_.transition_ratio_ = 0; 
    self.nodes_.emplace_back(SkeletalTrapezoidationJoint(), px);
    node_t* source_node = &self.nodes_.back();
    source_node->data_.distance_to_boundary_ = 0;
    edge_t* first = &edge;
    self.edges_.emplace_back(SkeletalTrapezoidationEdge());
    edge_t* second = &self.edges_.back();
    self.edges_.emplace_back(SkeletalTrapezoidationEdge(SkeletalTrapezoidationEdge::EdgeType::TRANSITION_END));
    edge_t* outward_edge = &self.edges_.back();
    self.edges_.emplace_back(SkeletalTrapezoidationEdge(SkeletalTrapezoidationEdge::EdgeType::TRANSITION_END));
    edge_t* inward_edge = &self.edges_.back();
    if (edge_before)
    {
        edge_before->next_ = first;
    }
    first->next_ = outward_edge;
    outward_edge->next_ = nullptr;
    inward_edge->next_ = second;
    second->next_ = edge_after;
    if (edge_after)
    {
        edge_after->prev_ = second;
    }
    second->prev_ = inward_edge;
    inward_edge->prev_ = nullptr;
    outward_edge->prev_ = first;
    first->prev_ = edge_before;
    first->to_ = mid_node;
    outward_edge->to_ = source_node;
    inward_edge->to_ = mid_node;
    second->to_ = node_after;
    first->from_ = node_before;
    outward_edge->from_ = mid_node;
    inward_edge->from_ = source_node;
    second->from_ = mid_node;
    node_before->incident_edge_ = first;
    mid_node->incident_edge_ = outward_edge;
    source_node->incident_edge_ = inward_edge;
    if (edge_after)
    {
        node_after->incident_edge_ = edge_after;
    }
    first->data_.setIsCentral(true);
    outward_edge->data_.setIsCentral(false); 
    inward_edge->data_.setIsCentral(false);
    second->data_.setIsCentral(true);
    outward_edge->twin_ = inward_edge;
    inward_edge->twin_ = outward_edge;
    first->twin_ = nullptr; 
    second->twin_ = nullptr;
    return std::make_pair(first, second);
}
} // namespace n59

//= cura::SkeletalTrapezoidationGraph::insertNode
namespace n60
{
using edge_t = cura::SkeletalTrapezoidationGraph::edge_t;
using node_t = cura::SkeletalTrapezoidationGraph::node_t;
SkeletalTrapezoidationGraph::edge_t* r60(cura::SkeletalTrapezoidationGraph& self, edge_t* edge, Point2LL mid, coord_t mide_node_bead_count)
{
    edge_t* last_edge_replacing_input = edge;
    self.nodes_.emplace_back(SkeletalTrapezoidationJoint(), mid);
    node_t* mid_node = &self.nodes_.back();
    edge_t* twin = last_edge_replacing_input->twin_;
    last_edge_replacing_input->twin_ = nullptr;
    twin->twin_ = nullptr;
    std::pair<edge_t*, edge_t*> left_pair = self.insertRib(*last_edge_replacing_input, mid_node);
    std::pair<edge_t*, edge_t*> right_pair = self.insertRib(*twin, mid_node);
    edge_t* first_edge_replacing_input = left_pair.first;
    last_edge_replacing_input = left_pair.second;
    edge_t* first_edge_replacing_twin = right_pair.first;
    edge_t* last_edge_replacing_twin = right_pair.second;
    first_edge_replacing_input->twin_ = last_edge_replacing_twin;
    last_edge_replacing_twin->twin_ = first_edge_replacing_input;
    last_edge_replacing_input->twin_ = first_edge_replacing_twin;
    first_edge_replacing_twin->twin_ = last_edge_replacing_input;
    mid_node->data_.bead_count_ = mide_node_bead_count;
    return last_edge_replacing_input;
}
} // namespace n60

//= cura::SkeletalTrapezoidationGraph::getSource
namespace n61
{
using edge_t = cura::SkeletalTrapezoidationGraph::edge_t;
std::pair<Point2LL, Point2LL> r61(cura::SkeletalTrapezoidationGraph& self, const edge_t& edge)
{
    const edge_t* from_edge = &edge;
    while (from_edge->prev_)
    {
        from_edge = from_edge->prev_;
    }
    const edge_t* to_edge = &edge;
    while (to_edge->next_)
    {
        to_edge = to_edge->next_;
    }
    return std::make_pair(from_edge->from_->p_, to_edge->to_->p_);
}
} // namespace n61

//= cura::SkeletalTrapezoidationEdge::TransitionMiddle::TransitionMiddle
void r63(cura::SkeletalTrapezoidationEdge::TransitionMiddle& self, coord_t pos, int lower_bead_count, coord_t feature_radius)
{
member(self.pos_) = pos;
member(self.lower_bead_count_) = lower_bead_count;
member(self.feature_radius_) = feature_radius;
}

//= cura::SkeletalTrapezoidationEdge::TransitionEnd::TransitionEnd
void r64(cura::SkeletalTrapezoidationEdge::TransitionEnd& self, coord_t pos, int lower_bead_count, bool is_lower_end)
{
member(self.pos_) = pos;
member(self.lower_bead_count_) = lower_bead_count;
member(self.is_lower_end_) = is_lower_end;
}

//= cura::SkeletalTrapezoidationEdge::SkeletalTrapezoidationEdge
namespace n65
{
using EdgeType = cura::SkeletalTrapezoidationEdge::EdgeType;
void r65(cura::SkeletalTrapezoidationEdge& self)
{
    base<SkeletalTrapezoidationEdge>(self) = ::cura::SkeletalTrapezoidationEdge(EdgeType::NORMAL);
}
} // namespace n65

//= cura::SkeletalTrapezoidationEdge::SkeletalTrapezoidationEdge
namespace n66
{
using Central = cura::SkeletalTrapezoidationEdge::Central;
using EdgeType = cura::SkeletalTrapezoidationEdge::EdgeType;
void r66(cura::SkeletalTrapezoidationEdge& self, const EdgeType& type)
{
    member(self.type_) = type;
    member(self.is_central) = Central::UNKNOWN;
}
} // namespace n66

//= cura::SkeletalTrapezoidationEdge::isCentral
namespace n67
{
using Central = cura::SkeletalTrapezoidationEdge::Central;
bool r67(const cura::SkeletalTrapezoidationEdge& self)
{
    return self.is_central == Central::YES;
}
} // namespace n67

//= cura::SkeletalTrapezoidationEdge::setIsCentral
namespace n68
{
using Central = cura::SkeletalTrapezoidationEdge::Central;
void r68(cura::SkeletalTrapezoidationEdge& self, bool b)
{
    self.is_central = b ? Central::YES : Central::NO;
}
} // namespace n68

//= cura::SkeletalTrapezoidationEdge::centralIsSet
namespace n69
{
using Central = cura::SkeletalTrapezoidationEdge::Central;
bool r69(const cura::SkeletalTrapezoidationEdge& self)
{
    return self.is_central != Central::UNKNOWN;
}
} // namespace n69

//= cura::SkeletalTrapezoidationEdge::hasTransitions
bool r70(const cura::SkeletalTrapezoidationEdge& self, bool ignore_empty)
{
    return self.transitions_.use_count() > 0 && (ignore_empty || ! self.transitions_.lock()->empty());
}

//= cura::SkeletalTrapezoidationEdge::setTransitions
namespace n71
{
using TransitionMiddle = cura::SkeletalTrapezoidationEdge::TransitionMiddle;
void r71(cura::SkeletalTrapezoidationEdge& self, std::shared_ptr<std::list<TransitionMiddle>>& storage)
{
    self.transitions_ = storage;
}
} // namespace n71

//= cura::SkeletalTrapezoidationEdge::getTransitions
namespace n72
{
using TransitionMiddle = cura::SkeletalTrapezoidationEdge::TransitionMiddle;
std::shared_ptr<std::list<TransitionMiddle>> r72(cura::SkeletalTrapezoidationEdge& self)
{
    return self.transitions_.lock();
}
} // namespace n72

//= cura::SkeletalTrapezoidationEdge::hasTransitionEnds
bool r73(const cura::SkeletalTrapezoidationEdge& self, bool ignore_empty)
{
    return self.transition_ends_.use_count() > 0 && (ignore_empty || ! self.transition_ends_.lock()->empty());
}

//= cura::SkeletalTrapezoidationEdge::setTransitionEnds
namespace n74
{
using TransitionEnd = cura::SkeletalTrapezoidationEdge::TransitionEnd;
void r74(cura::SkeletalTrapezoidationEdge& self, std::shared_ptr<std::list<TransitionEnd>>& storage)
{
    self.transition_ends_ = storage;
}
} // namespace n74

//= cura::SkeletalTrapezoidationEdge::getTransitionEnds
namespace n75
{
using TransitionEnd = cura::SkeletalTrapezoidationEdge::TransitionEnd;
std::shared_ptr<std::list<TransitionEnd>> r75(cura::SkeletalTrapezoidationEdge& self)
{
    return self.transition_ends_.lock();
}
} // namespace n75

//= cura::SkeletalTrapezoidationEdge::hasExtrusionJunctions
bool r76(const cura::SkeletalTrapezoidationEdge& self, bool ignore_empty)
{
    return self.extrusion_junctions_.use_count() > 0 && (ignore_empty || ! self.extrusion_junctions_.lock()->empty());
}

//= cura::SkeletalTrapezoidationEdge::setExtrusionJunctions
void r77(cura::SkeletalTrapezoidationEdge& self, std::shared_ptr<LineJunctions>& storage)
{
    self.extrusion_junctions_ = storage;
}

//= cura::SkeletalTrapezoidationEdge::getExtrusionJunctions
std::shared_ptr<LineJunctions> r78(const cura::SkeletalTrapezoidationEdge& self)
{
    return const_cast<SkeletalTrapezoidationEdge*>((&self))->extrusion_junctions_.lock();
}

//= cura::SkeletalTrapezoidationJoint::SkeletalTrapezoidationJoint
void r80(cura::SkeletalTrapezoidationJoint& self)
{
    member(self.distance_to_boundary_) = -1;
    member(self.bead_count_) = -1;
    member(self.transition_ratio_) = 0;
}

//= cura::SkeletalTrapezoidationJoint::hasBeading
bool r81(const cura::SkeletalTrapezoidationJoint& self)
{
    return self.beading_.use_count() > 0;
}

//= cura::SkeletalTrapezoidationJoint::setBeading
namespace n82
{
using BeadingPropagation = cura::SkeletalTrapezoidationJoint::BeadingPropagation;
void r82(cura::SkeletalTrapezoidationJoint& self, std::shared_ptr<BeadingPropagation>& storage)
{
    self.beading_ = storage;
}
} // namespace n82

//= cura::SkeletalTrapezoidationJoint::getBeading
namespace n83
{
using BeadingPropagation = cura::SkeletalTrapezoidationJoint::BeadingPropagation;
std::shared_ptr<BeadingPropagation> r83(const cura::SkeletalTrapezoidationJoint& self)
{
    return self.beading_.lock();
}
} // namespace n83

//= cura::WallToolPaths::generate
const std::vector<VariableWidthLines>& r86(cura::WallToolPaths& self)
{
    switch (self.generator_)
    {
    case WallToolPathGenerator::Arachne:
        self.generateArachne();
        break;
    case WallToolPathGenerator::NaiveInset:
        self.generateNaiveInset();
        break;
    }
    self.toolpaths_generated_ = true;
    return self.toolpaths_;
}

//= cura::WallToolPaths::stitchToolPaths
void r87(std::vector<VariableWidthLines>& toolpaths, const coord_t stitch_distance)
{
    for (unsigned int wall_idx = 0; wall_idx < toolpaths.size(); wall_idx++)
    {
        VariableWidthLines& wall_lines = toolpaths[wall_idx];
        VariableWidthLines stitched_polylines;
        VariableWidthLines closed_polygons;
        ExtrusionLineStitcher::stitch(wall_lines, stitched_polylines, closed_polygons, stitch_distance);
        wall_lines = stitched_polylines; 
        for (ExtrusionLine& wall_polygon : closed_polygons)
        {
            if (wall_polygon.junctions_.empty())
            {
                continue;
            }
            wall_polygon.is_closed_ = true;
            wall_lines.emplace_back(std::move(wall_polygon)); 
        }
#ifdef DEBUG
        for (ExtrusionLine& line : wall_lines)
        {
        }
#endif 
    }
}

//= cura::WallToolPaths::removeSmallFillLines
void r88(std::vector<VariableWidthLines>& toolpaths)
{
    for (VariableWidthLines& inset : toolpaths)
    {
        for (size_t line_idx = 0; line_idx < inset.size(); line_idx++)
        {
            ExtrusionLine& line = inset[line_idx];
            if (line.is_outer_wall())
            {
                continue;
            }
            coord_t min_width = std::numeric_limits<coord_t>::max();
            for (const ExtrusionJunction& j : line)
            {
                min_width = std::min(min_width, j.w_);
            }
            if (line.is_odd_ && ! line.is_closed_ && line.shorterThan(min_width / 2))
            { 
                line = std::move(inset.back());
                inset.erase(--inset.end());
                line_idx--; 
            }
        }
    }
}

//= cura::WallToolPaths::simplifyToolPaths
void r89(std::vector<VariableWidthLines>& toolpaths, const Settings& settings)
{
    const Simplify simplifier(settings);
    for (auto& toolpath : toolpaths)
    {
        toolpath = toolpath
                 | ranges::views::transform(
                       [&simplifier](auto& line)
                       {
                           auto line_ = line.is_closed_ ? simplifier.polygon(line) : simplifier.polyline(line);
                           if (line_.is_closed_ && line_.size() >= 2 && line_.front() != line_.back())
                           {
                               line_.emplace_back(line_.front());
                           }
                           return line_;
                       })
                 | ranges::views::filter(
                       [](const auto& line)
                       {
                           return ! line.empty();
                       })
                 | ranges::to_vector;
    }
}

//END
}  // namespace ref
