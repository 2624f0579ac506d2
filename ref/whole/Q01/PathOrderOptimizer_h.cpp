// What the functions of this unit compute.
#ifndef PATHORDEROPTIMIZER_H
#define PATHORDEROPTIMIZER_H
#include <numbers>
#include <unordered_set>
#include <range/v3/algorithm/max_element.hpp>
#include <range/v3/algorithm/partition_copy.hpp>
#include <range/v3/iterator/insert_iterators.hpp>
#include <range/v3/view/addressof.hpp>
#include <range/v3/view/drop_last.hpp>
#include <range/v3/view/enumerate.hpp>
#include <range/v3/view/filter.hpp>
#include <range/v3/view/reverse.hpp>
#include <spdlog/spdlog.h>
#include "pathPlanning/CombPath.h"
#include "pathPlanning/LinePolygonsCrossings.h"
#include "path_ordering.h"
#include "settings/EnumSettings.h"
#include "settings/ZSeamConfig.h"
#include "utils/linearAlg2D.h"
#include "utils/math.h"
#include "utils/polygonUtils.h"
#include "utils/scoring/BestElementFinder.h"
#include "utils/scoring/CornerScoringCriterion.h"
#include "utils/scoring/DistanceScoringCriterion.h"
#include "utils/scoring/ExclusionAreaScoringCriterion.h"
#include "utils/scoring/RandomScoringCriterion.h"
#include "utils/scoring/TextureScoringCriterion.h"
#include "utils/views/dfs.h"
namespace cura
{
template<typename Path>
class PathOrderOptimizer
{
public:
    using OrderablePath = PathOrdering<Path>;
    Shape disallowed_area_for_seams;
    std::vector<OrderablePath> paths_;
    std::unordered_map<Path, OrderablePath*> vertices_to_paths_;
    Point2LL start_point_;
    ZSeamConfig seam_config_;
    static const std::unordered_multimap<Path, Path> no_order_requirements_;
    bool prefer_longest_path_;
    PathOrderOptimizer(
        const Point2LL& start_point,
        const ZSeamConfig seam_config = ZSeamConfig(),
        const bool detect_loops = false,
        const Shape* combing_boundary = nullptr,
        const bool reverse_direction = false,
        const std::unordered_multimap<Path, Path>& order_requirements = no_order_requirements_,
        const bool group_outer_walls = false,
        const Shape& disallowed_areas_for_seams = {},
        const bool use_shortest_for_inner_walls = false,
        const Shape& overhang_areas = Shape(),
        const std::shared_ptr<TextureDataProvider>& texture_data_provider = nullptr,
        const bool prefer_longest_path_first = false)
        : start_point_(start_point)
        , seam_config_(seam_config)
        , combing_boundary_((combing_boundary != nullptr && ! combing_boundary->empty()) ? combing_boundary : nullptr)
        , detect_loops_(detect_loops)
        , reverse_direction_(reverse_direction)
        , _group_outer_walls(group_outer_walls)
        , order_requirements_(&order_requirements)
        , disallowed_area_for_seams{ disallowed_areas_for_seams }
        , use_shortest_for_inner_walls_(use_shortest_for_inner_walls)
        , overhang_areas_(overhang_areas)
        , texture_data_provider_(texture_data_provider)
        , prefer_longest_path_(prefer_longest_path_first)
    {
    }
    void addPolygon(const Path& polygon, std::optional<size_t> force_start_index = std::nullopt, const bool is_outer_wall = false)
    {
        constexpr bool is_closed = true;
        paths_.emplace_back(polygon, is_closed);
        paths_.back().force_start_index_ = force_start_index;
        paths_.back().is_outer_wall = is_outer_wall;
    }
    void addPolyline(const Path& polyline)
    {
        constexpr bool is_closed = false;
        paths_.emplace_back(polyline, is_closed);
    }
    void optimize(bool precompute_start = true)
    {
        if (paths_.empty())
        {
            return;
        }
        for (auto& path : paths_)
        {
            path.converted_ = &path.getVertexData();
            vertices_to_paths_.emplace(path.vertices_, &path);
        }
        if (detect_loops_)
        {
            for (auto& path : paths_)
            {
                if (! path.is_closed_)
                {
                    path.is_closed_ = isLoopingPolyline(path);
                }
            }
        }
        for (auto& path : paths_)
        {
            if (use_shortest_for_inner_walls_ && ! path.is_outer_wall)
            {
                path.seam_config_ = ZSeamConfig(EZSeamType::SHORTEST);
                path.force_start_index_ = std::nullopt;
            }
            else
            {
                path.seam_config_ = seam_config_;
            }
        }
        const coord_t snap_radius = 10_mu;
        SparsePointGridInclusive<size_t> line_bucket_grid(snap_radius);
        for (const auto& [i, path] : paths_ | ranges::views::enumerate)
        {
            if (path.converted_->empty())
            {
                continue;
            }
            if (path.is_closed_)
            {
                for (const Point2LL& point : *path.converted_)
                {
                    line_bucket_grid.insert(point, i);
                }
            }
            else
            {
                line_bucket_grid.insert(path.converted_->front(), i);
                line_bucket_grid.insert(path.converted_->back(), i);
            }
        }
        if (precompute_start)
        {
            for (auto& path : paths_)
            {
                if (path.seam_config_.type_ == EZSeamType::RANDOM || path.seam_config_.type_ == EZSeamType::USER_SPECIFIED
                    || path.seam_config_.type_ == EZSeamType::SHARPEST_CORNER)
                {
                    if (! path.is_closed_ || path.converted_->empty())
                    {
                        continue;
                    }
                    path.start_vertex_ = findStartLocation(path, path.seam_config_.pos_);
                }
            }
        }
        std::vector<OrderablePath> optimized_order;
        if (order_requirements_->empty())
        {
            optimized_order = getOptimizedOrder(line_bucket_grid, snap_radius);
        }
        else
        {
            optimized_order = getOptimizerOrderWithConstraints(*order_requirements_);
        }
        if (reverse_direction_ && order_requirements_->empty())
        {
            std::vector<OrderablePath> reversed = reverseOrderPaths(optimized_order);
            std::swap(reversed, paths_);
        }
        else
        {
            std::swap(optimized_order, paths_);
        }
        combing_grid_.reset();
    }
protected:
    constexpr static coord_t _coincident_point_distance = 10;
    std::unique_ptr<LocToLineGrid> combing_grid_;
    const Shape* combing_boundary_;
    bool detect_loops_;
    bool reverse_direction_;
    bool _group_outer_walls;
    const std::unordered_multimap<Path, Path>* order_requirements_;
    const bool use_shortest_for_inner_walls_;
    const Shape overhang_areas_;
    const std::shared_ptr<TextureDataProvider> texture_data_provider_;
    std::vector<OrderablePath> getOptimizedOrder(SparsePointGridInclusive<size_t> line_bucket_grid, size_t snap_radius)
    {
        std::vector<OrderablePath> optimized_order;
        Point2LL current_position = start_point_;
        std::unordered_map<OrderablePath*, bool> picked(paths_.size());
        auto notPicked = [&picked](OrderablePath* c)
        {
            return ! picked[c];
        };
        while (optimized_order.size() < paths_.size())
        {
            std::vector<OrderablePath*> nearby_candidates;
            for (const auto i : line_bucket_grid.getNearbyVals(current_position, snap_radius))
            {
                nearby_candidates.push_back(&paths_[i]);
            }
            std::vector<OrderablePath*> available_candidates;
            available_candidates.reserve(nearby_candidates.size());
            for (auto candidate : nearby_candidates | ranges::views::filter(notPicked))
            {
                available_candidates.push_back(candidate);
            }
            if (available_candidates.empty())
            {
                for (auto path : paths_ | ranges::views::addressof | ranges::views::filter(notPicked))
                {
                    available_candidates.push_back(path);
                }
            }
            auto best_candidate = findBestPath(current_position, available_candidates);
            auto best_path = best_candidate;
            optimized_order.push_back(*best_path);
            picked[best_path] = true;
            if (! best_path->converted_->empty())
            {
                if (best_path->is_closed_)
                {
                    current_position = (*best_path->converted_)[best_path->start_vertex_];
                }
                else
                {
                    current_position = best_path->start_vertex_ == 0 ? best_path->converted_->back() : best_path->converted_->front();
                }
            }
        }
        return optimized_order;
    }
    std::vector<OrderablePath> getOptimizerOrderWithConstraints(const std::unordered_multimap<Path, Path>& order_requirements)
    {
        std::vector<OrderablePath> optimized_order;
        std::unordered_set<Path> roots;
        std::unordered_set<Path> leaves;
        std::unordered_map<Path, size_t> num_incoming_edges;
        for (const auto& path : paths_)
        {
            roots.insert(path.vertices_);
            leaves.insert(path.vertices_);
            num_incoming_edges.emplace(path.vertices_, 0);
        }
        for (const auto& [u, v] : order_requirements)
        {
            roots.erase(v);
            leaves.erase(u);
            num_incoming_edges.find(v)->second++;
        }
        std::unordered_set<Path> visited;
        Point2LL current_position = start_point_;
        std::function<std::vector<Path>(const Path, const std::unordered_multimap<Path, Path>&)> get_neighbours
            = [&current_position, &num_incoming_edges, this](const Path current_node, const std::unordered_multimap<Path, Path>& graph)
        {
            std::vector<Path> order;
            const auto& [neighbour_begin, neighbour_end] = graph.equal_range(current_node);
            std::unordered_set<Path> candidates;
            for (const auto& [_, neighbour] : ranges::make_subrange(neighbour_begin, neighbour_end))
            {
                if (num_incoming_edges.at(neighbour) == 0)
                {
                    candidates.insert(neighbour);
                }
            }
            auto local_current_position = current_position;
            while (! candidates.empty())
            {
                Path best_candidate = findBestPathVertices(local_current_position, candidates);
                candidates.erase(best_candidate);
                order.push_back(best_candidate);
                auto path = vertices_to_paths_[best_candidate];
                if (path->is_closed_)
                {
                    local_current_position = (*path->converted_)[path->start_vertex_];
                }
                else
                {
                    local_current_position = path->start_vertex_ == 0 ? path->converted_->back() : path->converted_->front();
                }
            }
            return order;
        };
        const std::function<std::nullptr_t(const Path, const std::nullptr_t)> handle_node
            = [&current_position, &optimized_order, &order_requirements, &num_incoming_edges, this](const Path current_node, [[maybe_unused]] const std::nullptr_t state)
        {
            for (const auto& path : paths_)
            {
                if (path.vertices_ == current_node)
                {
                    if (path.is_closed_)
                    {
                        current_position = (*path.converted_)[path.start_vertex_];
                    }
                    else
                    {
                        current_position = path.start_vertex_ == 0 ? path.converted_->back() : path.converted_->front();
                    }
                    optimized_order.push_back(path);
                    const auto& [neighbour_begin, neighbour_end] = order_requirements.equal_range(path.vertices_);
                    for (const auto& [_, neighbour] : ranges::make_subrange(neighbour_begin, neighbour_end))
                    {
                        num_incoming_edges.find(neighbour)->second--;
                    }
                    break;
                }
            }
            return nullptr;
        };
        if (_group_outer_walls)
        {
            if (reverse_direction_)
            {
                std::unordered_set<Path> outer_walls = leaves;
                visited.insert(outer_walls.begin(), outer_walls.end());
                while (! roots.empty())
                {
                    Path root = findBestPathVertices(current_position, roots);
                    roots.erase(root);
                    actions::dfs(root, order_requirements, handle_node, visited, nullptr, get_neighbours);
                }
                while (! outer_walls.empty())
                {
                    Path wall = findBestPathVertices(current_position, outer_walls);
                    outer_walls.erase(wall);
                    handle_node(wall, nullptr);
                }
            }
            else
            {
                std::unordered_set<Path> outer_walls = roots;
                std::unordered_set<Path> root_neighbours;
                while (! outer_walls.empty())
                {
                    Path outer_wall = findBestPathVertices(current_position, outer_walls);
                    outer_walls.erase(outer_wall);
                    handle_node(outer_wall, nullptr);
                    visited.insert(outer_wall);
                    for (auto path : get_neighbours(outer_wall, order_requirements))
                    {
                        root_neighbours.emplace(path);
                    }
                }
                while (! root_neighbours.empty())
                {
                    Path root_neighbour = findBestPathVertices(current_position, root_neighbours);
                    root_neighbours.erase(root_neighbour);
                    actions::dfs(root_neighbour, order_requirements, handle_node, visited, nullptr, get_neighbours);
                }
            }
        }
        else
        {
            while (! roots.empty())
            {
                Path root = findBestPathVertices(current_position, roots);
                roots.erase(root);
                actions::dfs(root, order_requirements, handle_node, visited, nullptr, get_neighbours);
            }
        }
        return optimized_order;
    }
    std::vector<OrderablePath> reverseOrderPaths(std::vector<OrderablePath> pathsOrderPaths)
    {
        std::vector<OrderablePath> reversed;
        reversed.reserve(pathsOrderPaths.size());
        for (auto& path : pathsOrderPaths | ranges::views::reverse)
        {
            reversed.push_back(path);
            reversed.back().backwards_ = ! reversed.back().backwards_;
            if (! reversed.back().is_closed_)
            {
                reversed.back().start_vertex_ = reversed.back().converted_->size() - 1 - reversed.back().start_vertex_;
            }
        }
        return reversed;
    }
    Path findBestPathVertices(const Point2LL& start_position, const std::unordered_set<Path>& candidate_paths)
    {
        std::vector<OrderablePath*> orderable_paths;
        orderable_paths.reserve(candidate_paths.size());
        for (auto& path : candidate_paths)
        {
            orderable_paths.push_back(vertices_to_paths_.at(path));
        }
        OrderablePath* best_candidate = findBestPath(start_position, orderable_paths);
        return best_candidate->vertices_;
    }
    OrderablePath* findBestPath(const Point2LL& start_position, const std::vector<OrderablePath*>& candidate_paths)
    {
        OrderablePath* best_candidate = prefer_longest_path_ ? findLongestPath(candidate_paths) : findClosestPath(start_position, candidate_paths);
        prefer_longest_path_ = false;
        return best_candidate;
    }
    OrderablePath* findLongestPath(const std::vector<OrderablePath*>& candidate_paths)
    {
        auto iterator = ranges::max_element(
            candidate_paths,
            {},
            [](const OrderablePath* path)
            {
                return path->converted_->length();
            });
        return iterator == candidate_paths.end() ? nullptr : *iterator;
    }
//= cura::PathOrderOptimizer::findClosestPath
    OrderablePath* findClosestPath(const Point2LL& start_position, const std::vector<OrderablePath*>& candidate_paths)
    {
        coord_t best_distance2 = std::numeric_limits<coord_t>::max();
        OrderablePath* best_candidate = nullptr;
        for (OrderablePath* path : candidate_paths)
        {
            if (path->converted_->empty())
            {
                if (best_distance2 == std::numeric_limits<coord_t>::max())
                {
                    best_candidate = path;
                }
                continue;
            }
            const bool precompute_start = path->seam_config_.type_ == EZSeamType::RANDOM || path->seam_config_.type_ == EZSeamType::USER_SPECIFIED
                                       || path->seam_config_.type_ == EZSeamType::SHARPEST_CORNER;
            if (! path->is_closed_ || ! precompute_start)
            {
                path->start_vertex_ = findStartLocation(*path, start_position);
                if (! path->is_closed_)
                {
                    path->backwards_ = path->start_vertex_ > 0;
                }
            }
            const Point2LL candidate_position = (*path->converted_)[path->start_vertex_];
            coord_t distance2 = getDirectDistance(start_position, candidate_position);
            if (distance2 < best_distance2
                && combing_boundary_)
            {
                distance2 = getCombingDistance(start_position, candidate_position);
            }
            if (distance2 < best_distance2)
            {
                best_candidate = path;
                best_distance2 = distance2;
            }
        }
        return best_candidate;
    }
//END
    size_t pathIfZseamIsInDisallowedArea(size_t best_pos, const OrderablePath& path, size_t number_of_paths_analysed)
    {
        size_t path_size = path.converted_->size();
        if (path_size > number_of_paths_analysed)
        {
            if (! disallowed_area_for_seams.empty())
            {
                Point2LL current_candidate = (path.converted_)->at(best_pos);
                if (disallowed_area_for_seams.inside(current_candidate, true))
                {
                    size_t next_best_position = (path_size > best_pos + 1) ? best_pos + 1 : 0;
                    number_of_paths_analysed += 1;
                    best_pos = pathIfZseamIsInDisallowedArea(next_best_position, path, number_of_paths_analysed);
                }
            }
        }
        else
        {
            spdlog::warn("No start path found for support z seam distance");
        }
        return best_pos;
    }
    size_t findStartLocation(const OrderablePath& path, const Point2LL& target_pos)
    {
        if (! path.is_closed_)
        {
            const coord_t back_distance
                = (combing_boundary_ == nullptr) ? getDirectDistance(path.converted_->back(), target_pos) : getCombingDistance(path.converted_->back(), target_pos);
            if (back_distance < getDirectDistance(path.converted_->front(), target_pos)
                || (combing_boundary_
                    && back_distance < getCombingDistance(path.converted_->front(), target_pos)))
            {
                return path.converted_->size() - 1;
            }
            return 0;
        }
        const PointsSet& points = *path.converted_;
        BestElementFinder best_candidate_finder;
        BestElementFinder::CriteriaPass main_criteria_pass;
        main_criteria_pass.outsider_delta_threshold = 0.05;
        if (texture_data_provider_)
        {
            BestElementFinder::WeighedCriterion texture_criterion;
            texture_criterion.criterion = std::make_shared<TextureScoringCriterion>(points, texture_data_provider_, "seam");
            texture_criterion.weight = 5.0;
            main_criteria_pass.criteria.push_back(texture_criterion);
        }
        BestElementFinder::WeighedCriterion main_criterion;
        if (path.force_start_index_.has_value())
        {
            constexpr double distance_divider = 1.0;
            constexpr auto distance_type = DistanceScoringCriterion::DistanceType::Euclidian;
            main_criterion.criterion = std::make_shared<DistanceScoringCriterion>(points, points.at(path.force_start_index_.value()), distance_type, distance_divider);
        }
        else if (path.seam_config_.type_ == EZSeamType::SHORTEST || path.seam_config_.type_ == EZSeamType::USER_SPECIFIED)
        {
            main_criterion.criterion = std::make_shared<DistanceScoringCriterion>(points, target_pos);
        }
        else if (path.seam_config_.type_ == EZSeamType::SHARPEST_CORNER && path.seam_config_.corner_pref_ != EZSeamCornerPrefType::PLUGIN)
        {
            main_criterion.criterion = std::make_shared<CornerScoringCriterion>(points, path.seam_config_.corner_pref_);
        }
        else if (path.seam_config_.type_ == EZSeamType::RANDOM)
        {
            main_criterion.criterion = std::make_shared<RandomScoringCriterion>();
        }
        if (main_criterion.criterion)
        {
            main_criteria_pass.criteria.push_back(main_criterion);
        }
        else
        {
            spdlog::warn("Missing main criterion calculator");
        }
        if (! overhang_areas_.empty())
        {
            BestElementFinder::WeighedCriterion overhang_criterion;
            overhang_criterion.weight = 2.0;
            overhang_criterion.criterion = std::make_shared<ExclusionAreaScoringCriterion>(points, overhang_areas_);
            main_criteria_pass.criteria.push_back(overhang_criterion);
        }
        best_candidate_finder.appendCriteriaPass(main_criteria_pass);
        if (path.seam_config_.type_ == EZSeamType::SHARPEST_CORNER)
        {
            const AABB path_bounding_box(points);
            {
                auto fallback_criterion = std::make_shared<DistanceScoringCriterion>(points, path_bounding_box.max_, DistanceScoringCriterion::DistanceType::YOnly);
                constexpr double outsider_delta_threshold = 0.01;
                best_candidate_finder.appendSingleCriterionPass(fallback_criterion, outsider_delta_threshold);
            }
            {
                auto fallback_criterion = std::make_shared<DistanceScoringCriterion>(points, path_bounding_box.max_, DistanceScoringCriterion::DistanceType::XOnly);
                best_candidate_finder.appendSingleCriterionPass(fallback_criterion);
            }
        }
        std::optional<size_t> best_i = best_candidate_finder.findBestElement(points.size());
        if (! disallowed_area_for_seams.empty())
        {
            best_i = pathIfZseamIsInDisallowedArea(best_i.value_or(0), path, 0);
        }
        return best_i.value_or(0);
    }
    coord_t getDirectDistance(const Point2LL& a, const Point2LL& b) const
    {
        return vSize2(a - b);
    }
    coord_t getCombingDistance(const Point2LL& a, const Point2LL& b)
    {
        if (! PolygonUtils::polygonCollidesWithLineSegment(*combing_boundary_, a, b))
        {
            return getDirectDistance(a, b);
        }
        if (paths_.size() > 100)
        {
            return getDirectDistance(a, b) * 5;
        }
        if (combing_grid_ == nullptr)
        {
            constexpr coord_t grid_size = 2000;
            combing_grid_ = PolygonUtils::createLocToLineGrid(*combing_boundary_, grid_size);
        }
        CombPath comb_path;
        constexpr coord_t rounding_error = -25;
        constexpr coord_t tiny_travel_threshold = 0;
        constexpr bool fail_on_unavoidable_obstacles = false;
        LinePolygonsCrossings::comb(*combing_boundary_, *combing_grid_, a, b, comb_path, rounding_error, tiny_travel_threshold, fail_on_unavoidable_obstacles);
        coord_t sum = 0;
        Point2LL last_point = a;
        for (const Point2LL& point : comb_path)
        {
            sum += vSize(point - last_point);
            last_point = point;
        }
        return sum * sum;
    }
    bool isLoopingPolyline(const OrderablePath& path)
    {
        if (path.converted_->empty())
        {
            return false;
        }
        return vSize2(path.converted_->back() - path.converted_->front()) < _coincident_point_distance * _coincident_point_distance;
    }
};
template<typename Path>
const std::unordered_multimap<Path, Path> PathOrderOptimizer<Path>::no_order_requirements_;
}
#endif
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "slicer.h"
#include "infill.h"
#include "infill/LightningTreeNode.h"
#include "utils/PolygonsSegmentIndex.h"
#include "PathOrderOptimizer.h"
//= instance
template struct cura::PathOrderOptimizer<const cura::ExtrusionLine *>;
//END
//= instance
template struct cura::PathOrderOptimizer<const cura::OpenPolyline *>;
//END
//= instance
template struct cura::PathOrderOptimizer<const cura::Polygon *>;
//END
//= instance
template struct cura::PathOrderOptimizer<const cura::Polyline *>;
//END
//= instance
template struct cura::PathOrderOptimizer<const cura::SkinPart *>;
//END
//= instance
template struct cura::PathOrderOptimizer<const cura::SupportInfillPart *>;
//END
//= instance
template struct cura::PathOrderOptimizer<cura::SliceLayerPart *>;
//END
