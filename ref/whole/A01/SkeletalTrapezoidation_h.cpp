// What the functions of this unit compute.
#ifndef SKELETAL_TRAPEZOIDATION_H
#define SKELETAL_TRAPEZOIDATION_H
#include <memory>
#include <unordered_map>
#include <utility>
#include <boost/polygon/voronoi.hpp>
#include "BeadingStrategy/BeadingStrategy.h"
#include "arachne/SkeletalTrapezoidationEdge.h"
#include "arachne/SkeletalTrapezoidationGraph.h"
#include "arachne/SkeletalTrapezoidationJoint.h"
#include "geometry/MendedShape.h"
#include "geometry/Polygon.h"
#include "settings/types/Ratio.h"
#include "utils/ExtrusionJunction.h"
#include "utils/ExtrusionLine.h"
#include "utils/PolygonsSegmentIndex.h"
#include "utils/VoronoiUtils.h"
#include "utils/section_type.h"
namespace cura
{
class SkeletalTrapezoidation
{
    using pos_t = VoronoiUtils::voronoi_data_t;
    using vd_t = VoronoiUtils::vd_t;
    using graph_t = SkeletalTrapezoidationGraph;
    using edge_t = STHalfEdge;
    using node_t = STHalfEdgeNode;
    using Beading = BeadingStrategy::Beading;
    using BeadingPropagation = SkeletalTrapezoidationJoint::BeadingPropagation;
    using TransitionMiddle = SkeletalTrapezoidationEdge::TransitionMiddle;
    using TransitionEnd = SkeletalTrapezoidationEdge::TransitionEnd;
    template<typename T>
    using ptr_vector_t = std::vector<std::shared_ptr<T>>;
    AngleRadians transitioning_angle_;
    coord_t discretization_step_size_;
    coord_t transition_filter_dist_;
    coord_t allowed_filter_deviation_;
    coord_t beading_propagation_transition_dist_;
    static constexpr coord_t central_filter_dist_ = 20;
    static constexpr coord_t snap_dist_ = 20;
    int layer_idx_{};
    SectionType section_type_;
    const BeadingStrategy& beading_strategy_;
public:
    using Segment = PolygonsSegmentIndex;
    graph_t graph_;
    SkeletalTrapezoidation(
        const MendedShape& polys,
        const BeadingStrategy& beading_strategy,
        AngleRadians transitioning_angle,
        coord_t discretization_step_size,
        coord_t transition_filter_dist,
        coord_t allowed_filter_deviation,
        coord_t beading_propagation_transition_dist,
        int layer_idx,
        SectionType section_type);
    void generateToolpaths(std::vector<VariableWidthLines>& generated_toolpaths, bool filter_outermost_central_edges = false);
protected:
    struct TransitionMidRef
    {
        edge_t* edge_;
        std::list<TransitionMiddle>::iterator transition_it_;
//= cura::SkeletalTrapezoidation::TransitionMidRef::TransitionMidRef
        TransitionMidRef(edge_t* edge, std::list<TransitionMiddle>::iterator transition_it)
            : edge_(edge)
            , transition_it_(transition_it)
        {
        }
//END
    };
    std::unordered_map<vd_t::edge_type*, edge_t*> vd_edge_to_he_edge_;
    std::unordered_map<vd_t::vertex_type*, node_t*> vd_node_to_he_node_;
    void constructFromPolygons(const Shape& polys);
    node_t& makeNode(vd_t::vertex_type& vd_node, Point2LL p);
    std::vector<VariableWidthLines>* p_generated_toolpaths;
    void transferEdge(
        Point2LL from,
        Point2LL to,
        vd_t::edge_type& vd_edge,
        edge_t*& prev_edge,
        Point2LL& start_source_point,
        Point2LL& end_source_point,
        const std::vector<Point2LL>& points,
        const std::vector<Segment>& segments);
    std::vector<Point2LL> discretize(const vd_t::edge_type& segment, const std::vector<Point2LL>& points, const std::vector<Segment>& segments);
    bool computePointCellRange(
        vd_t::cell_type& cell,
        Point2LL& start_source_point,
        Point2LL& end_source_point,
        vd_t::edge_type*& starting_vd_edge,
        vd_t::edge_type*& ending_vd_edge,
        const std::vector<Point2LL>& points,
        const std::vector<Segment>& segments,
        const Shape& polys);
    void computeSegmentCellRange(
        vd_t::cell_type& cell,
        Point2LL& start_source_point,
        Point2LL& end_source_point,
        vd_t::edge_type*& starting_vd_edge,
        vd_t::edge_type*& ending_vd_edge,
        const std::vector<Point2LL>& points,
        const std::vector<Segment>& segments);
    void separatePointyQuadEndNodes();
    void updateIsCentral();
    void filterCentral(coord_t max_length);
    bool filterCentral(edge_t* starting_edge, coord_t traveled_dist, coord_t max_length);
    void filterOuterCentral();
    void updateBeadCount();
    void filterNoncentralRegions();
    bool filterNoncentralRegions(edge_t* to_edge, coord_t bead_count, coord_t traveled_dist, coord_t max_dist);
    void generateTransitionMids(ptr_vector_t<std::list<TransitionMiddle>>& edge_transitions);
    void filterTransitionMids();
    std::list<TransitionMidRef> dissolveNearbyTransitions(edge_t* edge_to_start, TransitionMiddle& origin_transition, coord_t traveled_dist, coord_t max_dist, bool going_up);
    void dissolveBeadCountRegion(edge_t* edge_to_start, coord_t from_bead_count, coord_t to_bead_count);
    bool filterEndOfCentralTransition(edge_t* edge_to_start, coord_t traveled_dist, coord_t max_dist, coord_t replacing_bead_count);
    void generateAllTransitionEnds(ptr_vector_t<std::list<TransitionEnd>>& edge_transition_ends);
    void applyTransitions(ptr_vector_t<std::list<TransitionEnd>>& edge_transition_ends);
    void generateTransitioningRibs();
    void generateTransitionEnds(edge_t& edge, coord_t mid_R, coord_t transition_lower_bead_count, ptr_vector_t<std::list<TransitionEnd>>& edge_transition_ends);
    bool generateTransitionEnd(
        edge_t& edge,
        coord_t start_pos,
        coord_t end_pos,
        coord_t transition_half_length,
        Ratio start_rest,
        Ratio end_rest,
        coord_t transition_lower_bead_count,
        ptr_vector_t<std::list<TransitionEnd>>& edge_transition_ends);
    bool isGoingDown(edge_t* outgoing, coord_t traveled_dist, coord_t transition_half_length, coord_t lower_bead_count) const;
    bool isEndOfCentral(const edge_t& edge) const;
    void generateExtraRibs();
    void generateSegments();
    edge_t* getQuadMaxRedgeTo(edge_t* quad_start_edge);
    void propagateBeadingsUpward(std::vector<edge_t*>& upward_quad_mids, ptr_vector_t<BeadingPropagation>& node_beadings);
    void propagateBeadingsDownward(std::vector<edge_t*>& upward_quad_mids, ptr_vector_t<BeadingPropagation>& node_beadings);
    void propagateBeadingsDownward(edge_t* edge_to_peak, ptr_vector_t<BeadingPropagation>& node_beadings);
    Beading interpolate(const Beading& left, Ratio ratio_left_to_whole, const Beading& right, coord_t switching_radius) const;
    Beading interpolate(const Beading& left, Ratio ratio_left_to_whole, const Beading& right) const;
    std::shared_ptr<BeadingPropagation> getOrCreateBeading(node_t* node, ptr_vector_t<BeadingPropagation>& node_beadings);
    std::shared_ptr<BeadingPropagation> getNearestBeading(node_t* node, coord_t max_dist);
    void generateJunctions(ptr_vector_t<BeadingPropagation>& node_beadings, ptr_vector_t<LineJunctions>& edge_junctions);
    void addToolpathSegment(const ExtrusionJunction& from, const ExtrusionJunction& to, bool is_odd, bool force_new_path, bool from_is_3way, bool to_is_3way);
    void connectJunctions(ptr_vector_t<LineJunctions>& edge_junctions);
    void generateLocalMaximaSingleBeads();
};
}
#endif
