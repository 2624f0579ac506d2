// What the functions of this unit compute.
#include "TreeModelVolumes.h"
#include <range/v3/view/enumerate.hpp>
#include <range/v3/view/iota.hpp>
#include <range/v3/view/reverse.hpp>
#include <spdlog/spdlog.h>
#include "PrimeTower/PrimeTower.h"
#include "TreeSupport.h"
#include "TreeSupportEnums.h"
#include "progress/Progress.h"
#include "sliceDataStorage.h"
#include "utils/ThreadPool.h"
#include "utils/algorithm.h"
namespace cura
{
//= cura::TreeModelVolumes::getCollision
const Shape& TreeModelVolumes::getCollision(coord_t radius, LayerIndex layer_idx, bool min_xy_dist)
{
    const coord_t orig_radius = radius;
    std::optional<std::reference_wrapper<const Shape>> result;
    if (! min_xy_dist)
    {
        radius += current_min_xy_dist_delta_;
    }
    if (orig_radius != 0)
    {
        radius = ceilRadius(radius);
    }
    RadiusLayerPair key{ radius, layer_idx };
    {
        std::lock_guard<std::mutex> critical_section_support_max_layer_nr(*critical_collision_cache_);
        result = getArea(collision_cache_, key);
    }
    if (result)
    {
        return result.value().get();
    }
    if (precalculated_)
    {
        spdlog::warn("Had to calculate collision at radius {} and layer {}, but precalculate was called. Performance may suffer!", key.first, key.second);
    }
    calculateCollision(key);
    return getCollision(orig_radius, layer_idx, min_xy_dist);
}
//END
//= cura::TreeModelVolumes::getCollisionHolefree
const Shape& TreeModelVolumes::getCollisionHolefree(coord_t radius, LayerIndex layer_idx, bool min_xy_dist)
{
    const coord_t orig_radius = radius;
    std::optional<std::reference_wrapper<const Shape>> result;
    if (! min_xy_dist)
    {
        radius += current_min_xy_dist_delta_;
    }
    if (radius >= increase_until_radius_ + current_min_xy_dist_delta_)
    {
        return getCollision(orig_radius, layer_idx, min_xy_dist);
    }
    RadiusLayerPair key{ radius, layer_idx };
    {
        std::lock_guard<std::mutex> critical_section_support_max_layer_nr(*critical_collision_cache_holefree_);
        result = getArea(collision_cache_holefree_, key);
    }
    if (result)
    {
        return result.value().get();
    }
    if (precalculated_)
    {
        spdlog::warn("Had to calculate collision holefree at radius {} and layer {}, but precalculate was called. Performance may suffer!", key.first, key.second);
    }
    calculateCollisionHolefree(key);
    return getCollisionHolefree(orig_radius, layer_idx, min_xy_dist);
}
//END
//= cura::TreeModelVolumes::getAvoidance
const Shape& TreeModelVolumes::getAvoidance(coord_t radius, LayerIndex layer_idx, AvoidanceType type, bool to_model, bool min_xy_dist)
{
    if (layer_idx == 0)
    {
        return getCollision(radius, layer_idx, min_xy_dist);
    }
    const coord_t orig_radius = radius;
    std::optional<std::reference_wrapper<const Shape>> result;
    radius += (min_xy_dist ? 0 : current_min_xy_dist_delta_);
    radius = ceilRadius(radius);
    if (radius >= increase_until_radius_ + current_min_xy_dist_delta_ && type == AvoidanceType::FAST_SAFE)
    {
        type = AvoidanceType::FAST;
    }
    const RadiusLayerPair key{ radius, layer_idx };
    std::unordered_map<RadiusLayerPair, Shape>* cache_ptr = nullptr;
    std::mutex* mutex_ptr = nullptr;
    switch (type)
    {
    case AvoidanceType::FAST:
        cache_ptr = to_model ? &avoidance_cache_to_model_ : &avoidance_cache_;
        mutex_ptr = to_model ? critical_avoidance_cache_to_model_.get() : critical_avoidance_cache_.get();
        break;
    case AvoidanceType::SLOW:
        cache_ptr = to_model ? &avoidance_cache_to_model_slow_ : &avoidance_cache_slow_;
        mutex_ptr = to_model ? critical_avoidance_cache_to_model_slow_.get() : critical_avoidance_cache_slow_.get();
        break;
    case AvoidanceType::FAST_SAFE:
        cache_ptr = to_model ? &avoidance_cache_hole_to_model_ : &avoidance_cache_hole_;
        mutex_ptr = to_model ? critical_avoidance_cache_holefree_to_model_.get() : critical_avoidance_cache_holefree_.get();
        break;
    case AvoidanceType::COLLISION:
        if (layer_idx <= max_layer_idx_without_blocker_)
        {
            return getCollision(radius, layer_idx, true);
        }
        else
        {
            cache_ptr = &avoidance_cache_collision_;
            mutex_ptr = critical_avoidance_cache_collision_.get();
        }
        break;
    default:
        spdlog::error("Invalid Avoidance Request");
        break;
    }
    {
        std::lock_guard<std::mutex> critical_section(*mutex_ptr);
        result = getArea(*cache_ptr, key);
    }
    if (result)
    {
        return result.value().get();
    }
    if (precalculated_)
    {
        spdlog::warn(
            "Had to calculate Avoidance (to model-bool: {}) at radius {} and layer {} and type {}, but precalculate was called. Performance may suffer!",
            to_model,
            key.first,
            key.second,
            coord_t(type));
    }
    if (type == AvoidanceType::COLLISION)
    {
        calculateCollisionAvoidance(key);
    }
    else if (to_model)
    {
        calculateAvoidanceToModel(key);
    }
    else
    {
        calculateAvoidance(key);
    }
    return getAvoidance(orig_radius, layer_idx, type, to_model, min_xy_dist);
}
//END
//= cura::TreeModelVolumes::getPlaceableAreas
const Shape& TreeModelVolumes::getPlaceableAreas(coord_t radius, LayerIndex layer_idx)
{
    std::optional<std::reference_wrapper<const Shape>> result;
    const coord_t orig_radius = radius;
    radius = ceilRadius(radius);
    RadiusLayerPair key{ radius, layer_idx };
    {
        std::lock_guard<std::mutex> critical_section(*critical_placeable_areas_cache_);
        result = getArea(placeable_areas_cache_, key);
    }
    if (result)
    {
        return result.value().get();
    }
    if (precalculated_)
    {
        spdlog::warn("Had to calculate Placeable Areas at radius {} and layer {}, but precalculate was called. Performance may suffer!", radius, layer_idx);
    }
    if (radius != 0)
    {
        calculatePlaceables(key);
    }
    else
    {
        getCollision(0, layer_idx, true);
    }
    return getPlaceableAreas(orig_radius, layer_idx);
}
//END
//= cura::TreeModelVolumes::getWallRestriction
const Shape& TreeModelVolumes::getWallRestriction(coord_t radius, LayerIndex layer_idx, bool min_xy_dist)
{
    if (layer_idx == 0)
    {
        return getCollision(radius, layer_idx, min_xy_dist);
    }
    const coord_t orig_radius = radius;
    min_xy_dist = min_xy_dist && current_min_xy_dist_delta_ > 0;
    std::optional<std::reference_wrapper<const Shape>> result;
    radius = ceilRadius(radius);
    const RadiusLayerPair key{ radius, layer_idx };
    std::unordered_map<RadiusLayerPair, Shape>* cache_ptr = min_xy_dist ? &wall_restrictions_cache_min_ : &wall_restrictions_cache_;
    {
        std::lock_guard<std::mutex> critical_section(min_xy_dist ? *critical_wall_restrictions_cache_min_ : *critical_wall_restrictions_cache_);
        result = getArea(*cache_ptr, key);
    }
    if (result)
    {
        return result.value().get();
    }
    if (precalculated_)
    {
        spdlog::warn("Had to calculate Wall restrictions at radius {} and layer {}, but precalculate was called. Performance may suffer!", key.first, key.second);
    }
    calculateWallRestrictions(key);
    return getWallRestriction(orig_radius, layer_idx, min_xy_dist);
}
//END
//= cura::TreeModelVolumes::getMaxCalculatedLayer
LayerIndex TreeModelVolumes::getMaxCalculatedLayer(coord_t radius, const std::unordered_map<RadiusLayerPair, Shape>& map) const
{
    LayerIndex max_layer = -1;
    const RadiusLayerPair key_layer_1(radius, 1);
    if (getArea(map, key_layer_1))
    {
        max_layer = 1;
    }
    while (map.count(RadiusLayerPair(radius, max_layer + 1)))
    {
        max_layer++;
    }
    return max_layer;
}
//END
template<typename KEY>
const std::optional<std::reference_wrapper<const Shape>> TreeModelVolumes::getArea(const std::unordered_map<KEY, Shape>& cache, const KEY key) const
{
    const auto it = cache.find(key);
    if (it != cache.end())
    {
        return std::optional<std::reference_wrapper<const Shape>>{ it->second };
    }
    else
    {
        return std::optional<std::reference_wrapper<const Shape>>();
    }
}
}
