// What the functions of this unit compute.
#include "TreeSupport.h"
#include <chrono>
#include <fstream>
#include <optional>
#include <stdio.h>
#include <string>
#include <thread>
#include <range/v3/numeric/accumulate.hpp>
#include <range/v3/view/drop_last.hpp>
#include <range/v3/view/enumerate.hpp>
#include <range/v3/view/iota.hpp>
#include <range/v3/view/map.hpp>
#include <range/v3/view/reverse.hpp>
#include <scripta/logger.h>
#include <spdlog/spdlog.h>
#include "Application.h"
#include "Slice.h"
#include "TreeSupportTipGenerator.h"
#include "TreeSupportUtils.h"
#include "infill.h"
#include "infill/SierpinskiFillProvider.h"
#include "progress/Progress.h"
#include "settings/EnumSettings.h"
#include "support.h"
#include "utils/OBJ.h"
#include "utils/Simplify.h"
#include "utils/ThreadPool.h"
#include "utils/algorithm.h"
#include "utils/math.h"
#include "utils/polygonUtils.h"
#include "utils/section_type.h"
namespace cura
{
//= cura::TreeSupport::mergeHelper
void TreeSupport::mergeHelper(
    std::map<TreeSupportElement, AABB>& reduced_aabb,
    std::map<TreeSupportElement, AABB>& input_aabb,
    const PropertyAreasUnordered& to_bp_areas,
    const PropertyAreas& to_model_areas,
    const PropertyAreas& influence_areas,
    PropertyAreasUnordered& insert_bp_areas,
    PropertyAreasUnordered& insert_model_areas,
    PropertyAreasUnordered& insert_influence,
    std::vector<TreeSupportElement>& erase,
    const LayerIndex layer_idx)
{
    const bool first_merge_iteration = reduced_aabb.empty();
    const std::function<coord_t(size_t, double)> getRadiusFunction = [&](const size_t distance_to_top, const double buildplate_radius_increases)
    {
        return config.getRadius(distance_to_top, buildplate_radius_increases);
    };
    for (auto& influence : input_aabb)
    {
        bool merged = false;
        AABB influence_aabb = influence.second;
        for (const auto& reduced_check : reduced_aabb)
        {
            AABB aabb = reduced_check.second;
            if (aabb.hit(influence_aabb))
            {
                if (! first_merge_iteration && input_aabb.count(reduced_check.first))
                {
                    break;
                }
                const bool merging_gracious_and_non_gracious = reduced_check.first.to_model_gracious_ != influence.first.to_model_gracious_;
                const bool merging_to_bp = reduced_check.first.to_buildplate_ && influence.first.to_buildplate_;
                const bool merging_min_and_regular_xy = reduced_check.first.use_min_xy_dist_ != influence.first.use_min_xy_dist_;
                const bool merging_different_range_limits = reduced_check.first.influence_area_limit_active_ && influence.first.influence_area_limit_active_
                                                         && influence.first.influence_area_limit_range_ != reduced_check.first.influence_area_limit_range_;
                coord_t increased_to_model_radius = 0;
                size_t larger_to_model_dtt = 0;
                if (! merging_to_bp)
                {
                    const coord_t infl_radius = config.getRadius(influence.first);
                    const coord_t redu_radius = config.getRadius(reduced_check.first);
                    if (reduced_check.first.to_buildplate_ != influence.first.to_buildplate_)
                    {
                        if (reduced_check.first.to_buildplate_)
                        {
                            if (infl_radius < redu_radius)
                            {
                                increased_to_model_radius = influence.first.increased_to_model_radius_ + redu_radius - infl_radius;
                            }
                        }
                        else
                        {
                            if (infl_radius > redu_radius)
                            {
                                increased_to_model_radius = reduced_check.first.increased_to_model_radius_ + infl_radius - redu_radius;
                            }
                        }
                    }
                    larger_to_model_dtt = std::max(influence.first.distance_to_top_, reduced_check.first.distance_to_top_);
                }
                if (merging_min_and_regular_xy || merging_gracious_and_non_gracious || increased_to_model_radius > config.max_to_model_radius_increase
                    || (! merging_to_bp && larger_to_model_dtt < config.min_dtt_to_model && ! reduced_check.first.supports_roof_ && ! influence.first.supports_roof_)
                    || merging_different_range_limits)
                {
                    continue;
                }
                Shape relevant_infl;
                Shape relevant_redu;
                if (merging_to_bp)
                {
                    relevant_infl = to_bp_areas.count(influence.first) ? to_bp_areas.at(influence.first)
                                                                       : Shape();
                    relevant_redu = insert_bp_areas.count(reduced_check.first) ? insert_bp_areas[reduced_check.first]
                                                                               : (to_bp_areas.count(reduced_check.first) ? to_bp_areas.at(reduced_check.first) : Shape());
                }
                else
                {
                    relevant_infl = to_model_areas.count(influence.first) ? to_model_areas.at(influence.first) : Shape();
                    relevant_redu = insert_model_areas.count(reduced_check.first) ? insert_model_areas[reduced_check.first]
                                                                                  : (to_model_areas.count(reduced_check.first) ? to_model_areas.at(reduced_check.first) : Shape());
                }
                const bool red_bigger = config.getCollisionRadius(reduced_check.first) > config.getCollisionRadius(influence.first);
                std::pair<TreeSupportElement, Shape> smaller_rad
                    = red_bigger ? std::pair<TreeSupportElement, Shape>(influence.first, relevant_infl) : std::pair<TreeSupportElement, Shape>(reduced_check.first, relevant_redu);
                std::pair<TreeSupportElement, Shape> bigger_rad
                    = red_bigger ? std::pair<TreeSupportElement, Shape>(reduced_check.first, relevant_redu) : std::pair<TreeSupportElement, Shape>(influence.first, relevant_infl);
                const coord_t real_radius_delta = std::abs(config.getRadius(bigger_rad.first) - config.getRadius(smaller_rad.first));
                const coord_t smaller_collision_radius = config.getCollisionRadius(smaller_rad.first);
                if (! bigger_rad.first.can_use_safe_radius_ && smaller_rad.first.can_use_safe_radius_)
                {
                    continue;
                }
                bool use_min_radius = bigger_rad.first.use_min_xy_dist_ && smaller_rad.first.use_min_xy_dist_;
                const Shape small_rad_increased_by_big_minus_small = TreeSupportUtils::safeOffsetInc(
                    smaller_rad.second,
                    real_radius_delta,
                    volumes_.getCollision(smaller_collision_radius, layer_idx - 1, use_min_radius),
                    2 * (config.xy_distance + smaller_collision_radius - EPSILON),
                    0,
                    0,
                    config.support_line_distance / 2,
                    &config.simplifier);
                Shape intersect = small_rad_increased_by_big_minus_small.intersection(bigger_rad.second);
                if (intersect.area()
                    > 1)
                {
                    if (intersect.offset(-FUDGE_LENGTH / 2).area() <= 1)
                    {
                        continue;
                    }
                    Point2LL new_pos = reduced_check.first.next_position_;
                    if (! intersect.inside(new_pos, true))
                    {
                        PolygonUtils::moveInside(intersect, new_pos);
                    }
                    if (increased_to_model_radius == 0)
                    {
                        increased_to_model_radius = std::max(reduced_check.first.increased_to_model_radius_, influence.first.increased_to_model_radius_);
                    }
                    const TreeSupportElement key(
                        reduced_check.first,
                        influence.first,
                        layer_idx - 1,
                        new_pos,
                        increased_to_model_radius,
                        getRadiusFunction,
                        config.diameter_scale_bp_radius,
                        config.branch_radius,
                        config.diameter_angle_scale_factor);
                    const auto getIntersectInfluence = [&](const PropertyAreasUnordered& insert_infl, const PropertyAreas& infl_areas)
                    {
                        const Shape infl_small = insert_infl.count(smaller_rad.first) ? insert_infl.at(smaller_rad.first)
                                                                                      : (infl_areas.count(smaller_rad.first) ? infl_areas.at(smaller_rad.first) : Shape());
                        const Shape infl_big = insert_infl.count(bigger_rad.first) ? insert_infl.at(bigger_rad.first)
                                                                                   : (infl_areas.count(bigger_rad.first) ? infl_areas.at(bigger_rad.first) : Shape());
                        const Shape small_rad_increased_by_big_minus_small_infl = TreeSupportUtils::safeOffsetInc(
                            infl_small,
                            real_radius_delta,
                            volumes_.getCollision(smaller_collision_radius, layer_idx - 1, use_min_radius),
                            2 * (config.xy_distance + smaller_collision_radius - EPSILON),
                            0,
                            0,
                            config.support_line_distance / 2,
                            &config.simplifier);
                        return small_rad_increased_by_big_minus_small_infl.intersection(
                            infl_big);
                    };
                    Shape intersect_influence;
                    intersect_influence
                        = TreeSupportUtils::safeUnion(intersect, getIntersectInfluence(insert_influence, influence_areas));
                    Shape intersect_to_model;
                    if (merging_to_bp && config.support_rests_on_model)
                    {
                        intersect_to_model = getIntersectInfluence(insert_model_areas, to_model_areas);
                        intersect_influence = TreeSupportUtils::safeUnion(intersect_influence, intersect_to_model);
                    }
                    insert_bp_areas.erase(reduced_check.first);
                    insert_bp_areas.erase(influence.first);
                    insert_model_areas.erase(reduced_check.first);
                    insert_model_areas.erase(influence.first);
                    insert_influence.erase(reduced_check.first);
                    insert_influence.erase(influence.first);
                    (merging_to_bp ? insert_bp_areas : insert_model_areas).emplace(key, intersect);
                    if (merging_to_bp && config.support_rests_on_model)
                    {
                        insert_model_areas.emplace(key, intersect_to_model);
                    }
                    insert_influence.emplace(key, intersect_influence);
                    erase.emplace_back(reduced_check.first);
                    erase.emplace_back(influence.first);
                    const Shape merge
                        = intersect.unionPolygons(intersect_to_model).offset(config.getRadius(key), ClipperLib::jtRound).difference(volumes_.getCollision(0, layer_idx - 1));
                    reduced_aabb.erase(reduced_check.first);
                    reduced_aabb.emplace(key, AABB(merge));
                    merged = true;
                    break;
                }
            }
        }
        if (! merged)
        {
            reduced_aabb[influence.first] = influence_aabb;
        }
    }
}
//END
//= cura::TreeSupport::increaseSingleArea
std::optional<TreeSupportElement> TreeSupport::increaseSingleArea(
    AreaIncreaseSettings settings,
    LayerIndex layer_idx,
    TreeSupportElement* parent,
    const Shape& relevant_offset,
    Shape& to_bp_data,
    Shape& to_model_data,
    Shape& increased,
    const coord_t overspeed,
    const bool mergelayer)
{
    TreeSupportElement current_elem(parent);
    Shape check_layer_data;
    if (settings.increase_radius_)
    {
        current_elem.effective_radius_height_ += 1;
    }
    coord_t radius = config.getCollisionRadius(current_elem);
    if (settings.move_)
    {
        increased = relevant_offset;
        if (overspeed > 0)
        {
            const coord_t safe_movement_distance = (current_elem.use_min_xy_dist_ ? config.xy_min_distance : config.xy_distance)
                                                 + (std::min(config.z_distance_top_layers, config.z_distance_bottom_layers) > 0 ? config.min_feature_size : 0);
            increased = TreeSupportUtils::safeOffsetInc(
                increased,
                overspeed,
                volumes_.getWallRestriction(config.getCollisionRadius(*parent), layer_idx, parent->use_min_xy_dist_),
                safe_movement_distance,
                safe_movement_distance + radius,
                1,
                config.support_line_distance / 2,
                nullptr);
        }
        if (settings.no_error_ && settings.move_)
        {
            increased = config.simplifier.polygon(increased);
        }
    }
    else
    {
        increased = *parent->area_;
    }
    if ((mergelayer || current_elem.to_buildplate_) && config.support_rest_preference == RestPreference::BUILDPLATE)
    {
        to_bp_data = TreeSupportUtils::safeUnion(increased.difference(volumes_.getAvoidance(radius, layer_idx - 1, settings.type_, false, settings.use_min_distance_)));
        if (! current_elem.to_buildplate_ && to_bp_data.area() > 1)
        {
            current_elem.to_buildplate_ = true;
            spdlog::debug("Corrected taint leading to a wrong to model value on layer {} targeting {} with radius {}", layer_idx - 1, current_elem.target_height_, radius);
        }
    }
    if (config.support_rests_on_model)
    {
        if (mergelayer || current_elem.to_model_gracious_)
        {
            to_model_data = TreeSupportUtils::safeUnion(increased.difference(volumes_.getAvoidance(radius, layer_idx - 1, settings.type_, true, settings.use_min_distance_)));
        }
        if (! current_elem.to_model_gracious_)
        {
            if (mergelayer && to_model_data.area() >= 1)
            {
                current_elem.to_model_gracious_ = true;
                spdlog::debug("Corrected taint leading to a wrong non gracious value on layer {} targeting {} with radius {}", layer_idx - 1, current_elem.target_height_, radius);
            }
            else
            {
                to_model_data
                    = TreeSupportUtils::safeUnion(increased.difference(volumes_.getAvoidance(radius, layer_idx - 1, AvoidanceType::COLLISION, true, settings.use_min_distance_)));
            }
        }
    }
    check_layer_data = current_elem.to_buildplate_ ? to_bp_data : to_model_data;
    if (settings.increase_radius_ && check_layer_data.area() > 1)
    {
        std::function<bool(coord_t)> validWithRadius = [&](coord_t next_radius)
        {
            if (volumes_.ceilRadius(next_radius, settings.use_min_distance_) <= volumes_.ceilRadius(radius, settings.use_min_distance_))
            {
                return true;
            }
            Shape to_bp_data_2;
            if (current_elem.to_buildplate_)
            {
                to_bp_data_2 = increased.difference(volumes_.getAvoidance(next_radius, layer_idx - 1, settings.type_, false, settings.use_min_distance_)).unionPolygons();
            }
            Shape to_model_data_2;
            if (config.support_rests_on_model && ! current_elem.to_buildplate_)
            {
                to_model_data_2 = increased
                                      .difference(volumes_.getAvoidance(
                                          next_radius,
                                          layer_idx - 1,
                                          current_elem.to_model_gracious_ ? settings.type_ : AvoidanceType::COLLISION,
                                          true,
                                          settings.use_min_distance_))
                                      .unionPolygons();
            }
            Shape check_layer_data_2 = current_elem.to_buildplate_ ? to_bp_data_2 : to_model_data_2;
            return check_layer_data_2.area() > 1;
        };
        coord_t ceil_radius_before = volumes_.ceilRadius(radius, settings.use_min_distance_);
        if (config.getCollisionRadius(current_elem) < config.increase_radius_until_radius && config.getCollisionRadius(current_elem) < config.getRadius(current_elem))
        {
            coord_t target_radius = std::min(config.getRadius(current_elem), config.increase_radius_until_radius);
            coord_t current_ceil_radius = volumes_.getRadiusNextCeil(radius, settings.use_min_distance_);
            while (current_ceil_radius < target_radius && validWithRadius(volumes_.getRadiusNextCeil(current_ceil_radius + 1, settings.use_min_distance_)))
            {
                current_ceil_radius = volumes_.getRadiusNextCeil(current_ceil_radius + 1, settings.use_min_distance_);
            }
            size_t resulting_eff_dtt = current_elem.effective_radius_height_;
            while (resulting_eff_dtt + 1 < current_elem.distance_to_top_
                   && config.getRadius(resulting_eff_dtt + 1, current_elem.buildplate_radius_increases_) <= current_ceil_radius
                   && config.getRadius(resulting_eff_dtt + 1, current_elem.buildplate_radius_increases_) <= config.getRadius(current_elem))
            {
                resulting_eff_dtt++;
            }
            current_elem.effective_radius_height_ = resulting_eff_dtt;
            if (config.getCollisionRadius(current_elem) < config.increase_radius_until_radius && config.getCollisionRadius(current_elem) < config.getRadius(current_elem))
            {
                Shape new_to_bp_data;
                Shape new_to_model_data;
                if (current_elem.to_buildplate_)
                {
                    new_to_bp_data = to_bp_data.difference(volumes_.getCollision(config.getRadius(current_elem), layer_idx - 1, current_elem.use_min_xy_dist_));
                    if (new_to_bp_data.area() > EPSILON)
                    {
                        to_bp_data = new_to_bp_data;
                    }
                }
                if (config.support_rests_on_model && (! current_elem.to_buildplate_ || mergelayer))
                {
                    new_to_model_data = to_model_data.difference(volumes_.getCollision(config.getRadius(current_elem), layer_idx - 1, current_elem.use_min_xy_dist_));
                    if (new_to_model_data.area() > EPSILON)
                    {
                        to_model_data = new_to_model_data;
                    }
                }
            }
        }
        radius = config.getCollisionRadius(current_elem);
        const coord_t foot_radius_increase = config.branch_radius * (std::max(config.diameter_scale_bp_radius - config.diameter_angle_scale_factor, 0.0));
        const double planned_foot_increase = std::min(1.0, double(config.recommendedMinRadius(layer_idx - 1) - config.getRadius(current_elem)) / foot_radius_increase);
        const bool increase_bp_foot
            = planned_foot_increase > 0 && (current_elem.to_buildplate_ || (current_elem.to_model_gracious_ && config.support_rest_preference == RestPreference::GRACEFUL));
        if (increase_bp_foot && config.getRadius(current_elem) >= config.branch_radius && config.getRadius(current_elem) >= config.increase_radius_until_radius)
        {
            if (validWithRadius(config.getRadius(current_elem.effective_radius_height_, current_elem.buildplate_radius_increases_ + planned_foot_increase)))
            {
                current_elem.buildplate_radius_increases_ += planned_foot_increase;
                radius = config.getCollisionRadius(current_elem);
            }
        }
        if (ceil_radius_before != volumes_.ceilRadius(radius, settings.use_min_distance_))
        {
            if (current_elem.to_buildplate_)
            {
                to_bp_data = TreeSupportUtils::safeUnion(increased.difference(volumes_.getAvoidance(radius, layer_idx - 1, settings.type_, false, settings.use_min_distance_)));
            }
            if (config.support_rests_on_model && (! current_elem.to_buildplate_ || mergelayer))
            {
                to_model_data = TreeSupportUtils::safeUnion(increased.difference(
                    volumes_.getAvoidance(radius, layer_idx - 1, current_elem.to_model_gracious_ ? settings.type_ : AvoidanceType::COLLISION, true, settings.use_min_distance_)));
            }
            check_layer_data = current_elem.to_buildplate_ ? to_bp_data : to_model_data;
            if (check_layer_data.area() < 1)
            {
                spdlog::error(
                    "Lost area by doing catch up from {} to radius {}",
                    ceil_radius_before,
                    volumes_.ceilRadius(config.getCollisionRadius(current_elem), settings.use_min_distance_));
            }
        }
    }
    if (current_elem.influence_area_limit_active_ && ! current_elem.use_min_xy_dist_ && check_layer_data.area() > 1
        && (current_elem.to_model_gracious_ || current_elem.distance_to_top_ <= config.min_dtt_to_model))
    {
        const coord_t max_radius_increase = std::max(
            static_cast<coord_t>((config.branch_radius - config.min_radius) / config.tip_layers),
            static_cast<coord_t>(
                (config.branch_radius * config.diameter_angle_scale_factor)
                + config.branch_radius * (std::max(config.diameter_scale_bp_radius - config.diameter_angle_scale_factor, 0.0))));
        bool limit_range_validated = false;
        to_bp_data = TreeSupportUtils::safeUnion(to_bp_data);
        to_model_data = TreeSupportUtils::safeUnion(to_model_data);
        while (! limit_range_validated)
        {
            if (current_elem.to_buildplate_)
            {
                Shape limited_to_bp = to_bp_data.intersection((current_elem.influence_area_limit_area_));
                if (limited_to_bp.area() > 1)
                {
                    to_bp_data = limited_to_bp;
                    to_model_data = to_model_data.intersection((current_elem.influence_area_limit_area_));
                    limit_range_validated = true;
                }
            }
            else
            {
                Shape limited_to_model_data = to_model_data.intersection((current_elem.influence_area_limit_area_));
                if (limited_to_model_data.area() > 1)
                {
                    to_bp_data = to_bp_data.intersection((current_elem.influence_area_limit_area_));
                    to_model_data = limited_to_model_data;
                    limit_range_validated = true;
                }
            }
            if (! limit_range_validated)
            {
                const coord_t reach_increase = std::max(current_elem.influence_area_limit_range_ / 4, (config.maximum_move_distance + max_radius_increase));
                current_elem.influence_area_limit_range_ += reach_increase;
                current_elem.RecreateInfluenceLimitArea();
            }
        }
    }
    return check_layer_data.area() > 1 ? std::optional<TreeSupportElement>(current_elem) : std::optional<TreeSupportElement>();
}
//END
//= cura::TreeSupport::setPointsOnAreas
void TreeSupport::setPointsOnAreas(const TreeSupportElement* elem)
{
    if (elem->result_on_layer_ == Point2LL(-1, -1))
    {
        spdlog::error("Uninitialized support element");
        return;
    }
    for (TreeSupportElement* next_elem : elem->parents_)
    {
        if (next_elem->result_on_layer_
            != Point2LL(-1, -1))
        {
            continue;
        }
        Point2LL from = elem->result_on_layer_;
        if (! (next_elem->area_->inside(from, true)))
        {
            PolygonUtils::moveInside(
                *next_elem->area_,
                from,
                0);
        }
        next_elem->result_on_layer_ = from;
    }
}
//END
//= cura::TreeSupport::createNodesFromArea
void TreeSupport::createNodesFromArea(std::vector<std::set<TreeSupportElement*>>& move_bounds)
{
    std::unordered_set<TreeSupportElement*> remove;
    for (TreeSupportElement* init : move_bounds[0])
    {
        Point2LL p = init->next_position_;
        if (! (init->area_->inside(p, true)))
        {
            PolygonUtils::moveInside(*init->area_, p, 0);
        }
        init->result_on_layer_ = p;
        setPointsOnAreas(init);
        if (config.support_rest_preference != RestPreference::BUILDPLATE)
        {
            if (setToModelContact(move_bounds, init, 0))
            {
                remove.emplace(init);
            }
            else
            {
                init->setToBuildplateForAllParents(true);
            }
        }
    }
    for (TreeSupportElement* del : remove)
    {
        move_bounds[0].erase(del);
        delete del->area_;
        delete del;
    }
    remove.clear();
    for (const auto layer_idx : ranges::views::iota(1UL, move_bounds.size()))
    {
        for (TreeSupportElement* elem : move_bounds[layer_idx])
        {
            bool removed = false;
            if (elem->result_on_layer_ == Point2LL(-1, -1))
            {
                if (elem->to_buildplate_ || (! elem->to_buildplate_ && elem->distance_to_top_ < config.min_dtt_to_model && ! elem->supports_roof_))
                {
                    if (elem->to_buildplate_)
                    {
                        spdlog::error(
                            "Uninitialized Influence area targeting ({},{}) at target_height: {} layer: {}",
                            elem->target_position_.X,
                            elem->target_position_.Y,
                            elem->target_height_,
                            layer_idx);
                    }
                    remove.emplace(elem);
                    removed = true;
                    for (TreeSupportElement* parent : elem->parents_)
                    {
                        parent->result_on_layer_ = Point2LL(-1, -1);
                    }
                    continue;
                }
                else
                {
                    removed = setToModelContact(move_bounds, elem, layer_idx);
                    if (removed)
                    {
                        remove.emplace(elem);
                    }
                }
            }
            if (! removed)
            {
                setPointsOnAreas(elem);
            }
        }
        for (TreeSupportElement* del : remove)
        {
            move_bounds[layer_idx].erase(del);
            delete del->area_;
            delete del;
        }
        remove.clear();
    }
}
//END
}
