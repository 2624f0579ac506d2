// What the functions of this unit compute.
#include "pathPlanning/Comb.h"
#include <algorithm>
#include <functional>
#include <unordered_set>
#include "Application.h"
#include "ExtruderTrain.h"
#include "Slice.h"
#include "pathPlanning/CombPaths.h"
#include "pathPlanning/LinePolygonsCrossings.h"
#include "sliceDataStorage.h"
#include "utils/PolygonsPointIndex.h"
#include "utils/linearAlg2D.h"
namespace cura
{
//= cura::Comb::Comb
Comb::Comb(
    const SliceDataStorage& storage,
    const LayerIndex layer_nr,
    const Shape& comb_boundary_inside_minimum,
    const Shape& comb_boundary_inside_optimal,
    coord_t comb_boundary_offset,
    coord_t travel_avoid_distance,
    coord_t move_inside_distance)
    : storage_(storage)
    , layer_nr_(layer_nr)
    , travel_avoid_distance_(travel_avoid_distance)
    , offset_from_outlines_(comb_boundary_offset)
    , max_moveInside_distance2_(offset_from_outlines_ * offset_from_outlines_)
    , max_move_inside_distance_enlarged2_(std::pow(offset_from_outlines_ + max_move_inside_enlarge_distance_, 2))
    , offset_from_inside_to_outside_(offset_from_outlines_ + travel_avoid_distance)
    , max_crossing_dist2_(
          offset_from_inside_to_outside_ * offset_from_inside_to_outside_
          * 2)
    , boundary_inside_minimum_(comb_boundary_inside_minimum)
    , boundary_inside_optimal_(comb_boundary_inside_optimal)
    , parts_view_inside_minimum_(boundary_inside_minimum_.splitIntoPartsView())
    , parts_view_inside_optimal_(boundary_inside_optimal_.splitIntoPartsView())
    , inside_loc_to_line_minimum_(PolygonUtils::createLocToLineGrid(boundary_inside_minimum_, comb_boundary_offset))
    , inside_loc_to_line_optimal_(PolygonUtils::createLocToLineGrid(boundary_inside_optimal_, comb_boundary_offset))
    , move_inside_distance_(move_inside_distance)
{
}
//END
//= cura::Comb::calc
bool Comb::calc(
    bool perform_z_hops,
    bool perform_z_hops_only_when_collides,
    const ExtruderTrain& train,
    Point2LL start_point,
    Point2LL end_point,
    CombPaths& comb_paths,
    bool _start_inside,
    bool _end_inside,
    coord_t max_comb_distance_ignored,
    bool& unretract_before_last_travel_move,
    bool& do_retracted_move)
{
    if (shorterThen(end_point - start_point, max_comb_distance_ignored))
    {
        return true;
    }
    const Point2LL travel_end_point_before_combing = end_point;
    size_t start_inside_poly = NO_INDEX;
    const bool start_inside = moveInside(boundary_inside_optimal_, _start_inside, inside_loc_to_line_optimal_.get(), start_point, start_inside_poly);
    size_t end_inside_poly = NO_INDEX;
    const bool end_inside = moveInside(boundary_inside_optimal_, _end_inside, inside_loc_to_line_optimal_.get(), end_point, end_inside_poly);
    size_t start_part_boundary_poly_idx = NO_INDEX;
    size_t end_part_boundary_poly_idx = NO_INDEX;
    size_t start_part_idx = (start_inside_poly == NO_INDEX) ? NO_INDEX : parts_view_inside_optimal_.getPartContaining(start_inside_poly, &start_part_boundary_poly_idx);
    size_t end_part_idx = (end_inside_poly == NO_INDEX) ? NO_INDEX : parts_view_inside_optimal_.getPartContaining(end_inside_poly, &end_part_boundary_poly_idx);
    const bool fail_on_unavoidable_obstacles = perform_z_hops && perform_z_hops_only_when_collides;
    if (start_inside && end_inside && start_part_idx == end_part_idx)
    {
        SingleShape part = parts_view_inside_optimal_.assemblePart(start_part_idx);
        comb_paths.emplace_back();
        const bool combing_succeeded = LinePolygonsCrossings::comb(
            part,
            *inside_loc_to_line_optimal_,
            start_point,
            end_point,
            comb_paths.back(),
            -offset_dist_to_get_from_on_the_polygon_to_outside_,
            max_comb_distance_ignored,
            fail_on_unavoidable_obstacles);
        unretract_before_last_travel_move = combing_succeeded && end_point != travel_end_point_before_combing;
        return combing_succeeded;
    }
    size_t start_inside_poly_optimal = NO_INDEX;
    const bool start_inside_optimal
        = moveInside(boundary_inside_optimal_, _start_inside, inside_loc_to_line_optimal_.get(), start_point, start_inside_poly_optimal, max_move_inside_distance_enlarged2_);
    size_t end_inside_poly_optimal = NO_INDEX;
    const bool end_inside_optimal
        = moveInside(boundary_inside_optimal_, _end_inside, inside_loc_to_line_optimal_.get(), end_point, end_inside_poly_optimal, max_move_inside_distance_enlarged2_);
    size_t start_part_boundary_poly_idx_optimal{};
    size_t end_part_boundary_poly_idx_optimal{};
    size_t start_part_idx_optimal
        = (start_inside_poly_optimal == NO_INDEX) ? NO_INDEX : parts_view_inside_optimal_.getPartContaining(start_inside_poly_optimal, &start_part_boundary_poly_idx_optimal);
    size_t end_part_idx_optimal
        = (end_inside_poly_optimal == NO_INDEX) ? NO_INDEX : parts_view_inside_optimal_.getPartContaining(end_inside_poly_optimal, &end_part_boundary_poly_idx_optimal);
    CombPath result_path;
    bool comb_result;
    if (start_inside_optimal && end_inside_optimal && start_part_idx_optimal == end_part_idx_optimal)
    {
        SingleShape part = parts_view_inside_optimal_.assemblePart(start_part_idx_optimal);
        comb_paths.emplace_back();
        comb_result = LinePolygonsCrossings::comb(
            part,
            *inside_loc_to_line_optimal_,
            start_point,
            end_point,
            result_path,
            -offset_dist_to_get_from_on_the_polygon_to_outside_,
            max_comb_distance_ignored,
            fail_on_unavoidable_obstacles);
        Comb::moveCombPathInside(boundary_inside_minimum_, boundary_inside_optimal_, result_path, comb_paths.back());
        unretract_before_last_travel_move = comb_result && end_point != travel_end_point_before_combing;
        return comb_result;
    }
    size_t start_inside_poly_min = NO_INDEX;
    const bool start_inside_min = moveInside(boundary_inside_minimum_, _start_inside, inside_loc_to_line_minimum_.get(), start_point, start_inside_poly_min);
    size_t end_inside_poly_min = NO_INDEX;
    const bool end_inside_min = moveInside(boundary_inside_minimum_, _end_inside, inside_loc_to_line_minimum_.get(), end_point, end_inside_poly_min);
    size_t start_part_boundary_poly_idx_min{};
    size_t end_part_boundary_poly_idx_min{};
    size_t start_part_idx_min
        = (start_inside_poly_min == NO_INDEX) ? NO_INDEX : parts_view_inside_minimum_.getPartContaining(start_inside_poly_min, &start_part_boundary_poly_idx_min);
    size_t end_part_idx_min = (end_inside_poly_min == NO_INDEX) ? NO_INDEX : parts_view_inside_minimum_.getPartContaining(end_inside_poly_min, &end_part_boundary_poly_idx_min);
    if (start_inside_min && end_inside_min && start_part_idx_min == end_part_idx_min)
    {
        SingleShape part = parts_view_inside_minimum_.assemblePart(start_part_idx_min);
        comb_paths.emplace_back();
        comb_result = LinePolygonsCrossings::comb(
            part,
            *inside_loc_to_line_minimum_,
            start_point,
            end_point,
            result_path,
            -offset_dist_to_get_from_on_the_polygon_to_outside_,
            max_comb_distance_ignored,
            fail_on_unavoidable_obstacles);
        Comb::moveCombPathInside(boundary_inside_minimum_, boundary_inside_optimal_, result_path, comb_paths.back());
        unretract_before_last_travel_move = comb_result && end_point != travel_end_point_before_combing;
        do_retracted_move = true;
        return comb_result;
    }
    if (perform_z_hops && ! perform_z_hops_only_when_collides)
    {
        return false;
    }
    Crossing start_crossing(start_point, start_inside_min, start_part_idx_min, start_part_boundary_poly_idx_min, boundary_inside_minimum_, *inside_loc_to_line_minimum_);
    Crossing end_crossing(end_point, end_inside_min, end_part_idx_min, end_part_boundary_poly_idx_min, boundary_inside_minimum_, *inside_loc_to_line_minimum_);
    {
        start_crossing.findCrossingInOrMid(parts_view_inside_minimum_, end_point);
        end_crossing.findCrossingInOrMid(parts_view_inside_minimum_, start_crossing.in_or_mid_);
    }
    bool skip_avoid_other_parts_path = false;
    if (vSize2(start_crossing.in_or_mid_ - end_crossing.in_or_mid_) < offset_from_inside_to_outside_ * offset_from_inside_to_outside_ * 4)
    {
        skip_avoid_other_parts_path = true;
    }
    const bool travel_avoid_other_parts = train.settings_.get<bool>("travel_avoid_other_parts");
    if (travel_avoid_other_parts && ! skip_avoid_other_parts_path)
    {
        bool success = start_crossing.findOutside(train, getBoundaryOutside(train), end_crossing.in_or_mid_, fail_on_unavoidable_obstacles, *this);
        if (! success)
        {
            return false;
        }
        success = end_crossing.findOutside(train, getBoundaryOutside(train), start_crossing.out_, fail_on_unavoidable_obstacles, *this);
        if (! success)
        {
            return false;
        }
    }
    if (start_inside_min)
    {
        assert(start_crossing.dest_part_.size() > 0 && "The part we start inside when combing should have been computed already!");
        comb_paths.emplace_back();
        constexpr bool fail_for_optimum_bound = true;
        bool combing_succeeded = start_inside
                              && LinePolygonsCrossings::comb(
                                     boundary_inside_optimal_,
                                     *inside_loc_to_line_optimal_,
                                     start_point,
                                     start_crossing.in_or_mid_,
                                     comb_paths.back(),
                                     -offset_dist_to_get_from_on_the_polygon_to_outside_,
                                     max_comb_distance_ignored,
                                     fail_for_optimum_bound);
        if (! combing_succeeded)
        {
            combing_succeeded = LinePolygonsCrossings::comb(
                start_crossing.dest_part_,
                *inside_loc_to_line_minimum_,
                start_point,
                start_crossing.in_or_mid_,
                comb_paths.back(),
                -offset_dist_to_get_from_on_the_polygon_to_outside_,
                max_comb_distance_ignored,
                fail_on_unavoidable_obstacles);
        }
        if (! combing_succeeded)
        {
            return false;
        }
    }
    if (travel_avoid_other_parts && ! skip_avoid_other_parts_path)
    {
        comb_paths.emplace_back();
        comb_paths.throughAir = true;
        if (vSize(start_crossing.in_or_mid_ - end_crossing.in_or_mid_)
            < vSize(start_crossing.in_or_mid_ - start_crossing.out_) + vSize(end_crossing.in_or_mid_ - end_crossing.out_))
        {
            comb_paths.back().push_back(start_crossing.in_or_mid_);
            comb_paths.back().push_back(end_crossing.in_or_mid_);
        }
        else
        {
            CombPath tmp_comb_path;
            bool combing_succeeded = LinePolygonsCrossings::comb(
                getBoundaryOutside(train),
                getOutsideLocToLine(train),
                start_crossing.out_,
                end_crossing.out_,
                tmp_comb_path,
                offset_dist_to_get_from_on_the_polygon_to_outside_,
                max_comb_distance_ignored,
                true);
            if (combing_succeeded)
            {
                comb_paths.push_back(tmp_comb_path);
            }
            else
            {
                comb_paths.emplace_back();
                comb_paths.throughAir = true;
                comb_paths.back().cross_boundary = true;
                comb_paths.back().push_back(start_crossing.in_or_mid_);
                comb_paths.back().push_back(end_crossing.in_or_mid_);
                if (fail_on_unavoidable_obstacles)
                {
                    return false;
                }
            }
        }
    }
    else
    {
        comb_paths.emplace_back();
        comb_paths.throughAir = true;
        comb_paths.back().cross_boundary = true;
        comb_paths.back().push_back(start_crossing.in_or_mid_);
        comb_paths.back().push_back(end_crossing.in_or_mid_);
    }
    if (skip_avoid_other_parts_path)
    {
        if (start_inside == end_inside && start_part_idx == end_part_idx)
        {
            if (start_inside)
            {
                comb_paths.back().cross_boundary = PolygonUtils::polygonCollidesWithLineSegment(start_point, end_point, *inside_loc_to_line_optimal_);
            }
            else
            {
                comb_paths.back().cross_boundary = PolygonUtils::polygonCollidesWithLineSegment(start_point, end_point, getModelBoundaryLocToLine(train));
            }
        }
        else
        {
            comb_paths.back().cross_boundary = true;
        }
    }
    if (end_inside)
    {
        assert(end_crossing.dest_part_.size() > 0 && "The part we end up inside when combing should have been computed already!");
        comb_paths.emplace_back();
        constexpr bool fail_for_optimum_bound = true;
        bool combing_succeeded = end_inside
                              && LinePolygonsCrossings::comb(
                                     boundary_inside_optimal_,
                                     *inside_loc_to_line_optimal_,
                                     end_crossing.in_or_mid_,
                                     end_point,
                                     comb_paths.back(),
                                     -offset_dist_to_get_from_on_the_polygon_to_outside_,
                                     max_comb_distance_ignored,
                                     fail_for_optimum_bound);
        if (! combing_succeeded)
        {
            combing_succeeded = LinePolygonsCrossings::comb(
                end_crossing.dest_part_,
                *inside_loc_to_line_minimum_,
                end_crossing.in_or_mid_,
                end_point,
                comb_paths.back(),
                -offset_dist_to_get_from_on_the_polygon_to_outside_,
                max_comb_distance_ignored,
                fail_on_unavoidable_obstacles);
        }
        unretract_before_last_travel_move = combing_succeeded && end_point != travel_end_point_before_combing;
        if (! combing_succeeded)
        {
            return false;
        }
    }
    return true;
}
//END
//= cura::Comb::Crossing::Crossing
Comb::Crossing::Crossing(
    const Point2LL& dest_point,
    const bool dest_is_inside,
    const unsigned int dest_part_idx,
    const unsigned int dest_part_boundary_crossing_poly_idx,
    const Shape& boundary_inside,
    const LocToLineGrid& inside_loc_to_line)
    : dest_is_inside_(dest_is_inside)
    , boundary_inside_(boundary_inside)
    , inside_loc_to_line_(inside_loc_to_line)
    , dest_point_(dest_point)
    , dest_part_idx_(dest_part_idx)
{
    if (dest_is_inside)
    {
        dest_crossing_poly_ = &(boundary_inside[dest_part_boundary_crossing_poly_idx]);
    }
}
//END
//= cura::Comb::Crossing::findCrossingInOrMid
void Comb::Crossing::findCrossingInOrMid(const PartsView& partsView_inside, const Point2LL close_to)
{
    if (dest_is_inside_)
    {
        Point2LL _dest_point(dest_point_);
        std::function<int(Point2LL)> close_towards_start_penalty_function(
            [_dest_point](Point2LL candidate)
            {
                return vSize2((candidate - _dest_point) / 10);
            });
        dest_part_ = partsView_inside.assemblePart(dest_part_idx_);
        ClosestPointPolygon boundary_crossing_point;
        {
            std::unordered_set<unsigned int> dest_part_poly_indices;
            for (unsigned int poly_idx : partsView_inside[dest_part_idx_])
            {
                dest_part_poly_indices.emplace(poly_idx);
            }
            coord_t dist2_score = std::numeric_limits<coord_t>::max();
            std::function<bool(const PolygonsPointIndex&)> line_processor
                = [close_to, _dest_point, &boundary_crossing_point, &dist2_score, &dest_part_poly_indices](const PolygonsPointIndex& boundary_segment)
            {
                if (dest_part_poly_indices.find(boundary_segment.poly_idx_) == dest_part_poly_indices.end())
                {
                    return true;
                }
                Point2LL closest_here = LinearAlg2D::getClosestOnLineSegment(close_to, boundary_segment.p(), boundary_segment.next().p());
                coord_t dist2_score_here = vSize2(close_to - closest_here) + vSize2(_dest_point - closest_here) / 10;
                if (dist2_score_here < dist2_score)
                {
                    dist2_score = dist2_score_here;
                    boundary_crossing_point = ClosestPointPolygon(closest_here, boundary_segment.point_idx_, &boundary_segment.getPolygon(), boundary_segment.poly_idx_);
                }
                return true;
            };
            inside_loc_to_line_.processLine(std::make_pair(dest_point_, close_to), line_processor);
        }
        Point2LL result(boundary_crossing_point.p());
        if (! boundary_crossing_point.isValid())
        {
            result = dest_point_;
        }
        ClosestPointPolygon crossing_1_in_cp = PolygonUtils::ensureInsideOrOutside(
            dest_part_,
            result,
            boundary_crossing_point,
            offset_dist_to_get_from_on_the_polygon_to_outside_,
            &boundary_inside_,
            &inside_loc_to_line_,
            close_towards_start_penalty_function);
        if (crossing_1_in_cp.isValid())
        {
            dest_crossing_poly_ = crossing_1_in_cp.poly_;
            in_or_mid_ = result;
        }
        else
        {
            in_or_mid_ = dest_point_;
        }
    }
    else
    {
        in_or_mid_ = dest_point_;
    }
}
//END
//= cura::Comb::Crossing::findBestCrossing
std::shared_ptr<std::pair<ClosestPointPolygon, ClosestPointPolygon>> Comb::Crossing::findBestCrossing(
    const ExtruderTrain& train,
    const Shape& outside,
    const Polygon& from,
    const Point2LL estimated_start,
    const Point2LL estimated_end,
    Comb& comber)
{
    ClosestPointPolygon* best_in = nullptr;
    ClosestPointPolygon* best_out = nullptr;
    coord_t best_detour_score = std::numeric_limits<coord_t>::max();
    coord_t best_crossing_dist2;
    std::vector<std::pair<ClosestPointPolygon, ClosestPointPolygon>> crossing_out_candidates = PolygonUtils::findClose(from, outside, comber.getOutsideLocToLine(train));
    bool seen_close_enough_connection = false;
    for (std::pair<ClosestPointPolygon, ClosestPointPolygon>& crossing_candidate : crossing_out_candidates)
    {
        const coord_t crossing_dist2 = vSize2(crossing_candidate.first.location_ - crossing_candidate.second.location_);
        if (crossing_dist2 > comber.max_crossing_dist2_ * 2)
        {
            continue;
        }
        const coord_t dist_to_start = vSize(crossing_candidate.second.location_ - estimated_start);
        const coord_t dist_to_end = vSize(crossing_candidate.second.location_ - estimated_end);
        const coord_t detour_dist = dist_to_start + dist_to_end;
        const coord_t detour_score = crossing_dist2 + detour_dist * detour_dist / 1000;
        if ((! seen_close_enough_connection && detour_score < best_detour_score)
            || (! seen_close_enough_connection && crossing_dist2 <= comber.max_crossing_dist2_)
            || (seen_close_enough_connection && crossing_dist2 <= comber.max_crossing_dist2_
                && detour_score < best_detour_score))
        {
            if (! seen_close_enough_connection && crossing_dist2 <= comber.max_crossing_dist2_)
            {
                seen_close_enough_connection = true;
            }
            best_in = &crossing_candidate.first;
            best_out = &crossing_candidate.second;
            best_detour_score = detour_score;
            best_crossing_dist2 = crossing_dist2;
        }
    }
    if (best_detour_score == std::numeric_limits<coord_t>::max())
    {
        return std::shared_ptr<std::pair<ClosestPointPolygon, ClosestPointPolygon>>();
    }
    if (best_crossing_dist2 > comber.max_crossing_dist2_)
    {
        PolygonUtils::walkToNearestSmallestConnection(*best_in, *best_out);
        best_crossing_dist2 = vSize2(best_in->location_ - best_out->location_);
        if (best_crossing_dist2 > comber.max_crossing_dist2_)
        {
            return std::shared_ptr<std::pair<ClosestPointPolygon, ClosestPointPolygon>>();
        }
    }
    return std::make_shared<std::pair<ClosestPointPolygon, ClosestPointPolygon>>(*best_in, *best_out);
}
//END
}
