// Tree support.
#include <algorithm>
#include <array>
#include <unordered_set>
#include <unordered_map>
#include <set>
#include <map>
#include <list>
#include <vector>
#include <deque>
#include <memory>
#include <numeric>
#include <optional>
#include <functional>
#include <string>
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "geometry/Polygon.h"
#include "geometry/OpenPolyline.h"
#include "geometry/SingleShape.h"
#include "geometry/MixedLinesSet.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "raft.h"
#include "Application.h"
#include "PrimeTower/PrimeTower.h"
#include "Slice.h"
#include "TreeModelVolumes.h"
#include "TreeSupport.h"
#include "TreeSupportBaseCircle.h"
#include "TreeSupportElement.h"
#include "TreeSupportEnums.h"
#include "TreeSupportSettings.h"
#include "TreeSupportTipGenerator.h"
#include "TreeSupportUtils.h"
#include "boost/functional/hash.hpp"
#include "geometry/LinesSet.h"
#include "geometry/OpenPolyline.h"
#include "geometry/Polygon.h"
#include "geometry/Shape.h"
#include "infill.h"
#include "infill/SierpinskiFillProvider.h"
#include "polyclipping/clipper.hpp"
#include "progress/Progress.h"
#include "settings/EnumSettings.h"
#include "settings/Settings.h"
#include "settings/types/Angle.h"
#include "settings/types/LayerIndex.h"
#include "settings/types/Ratio.h"
#include "sliceDataStorage.h"
#include "support.h"
#include "utils/Coord_t.h"
#include "utils/OBJ.h"
#include "utils/PairHash.h"
#include "utils/Simplify.h"
#include "utils/SparsePointGridInclusive.h"
#include "utils/ThreadPool.h"
#include "utils/algorithm.h"
#include "utils/math.h"
#include "utils/polygonUtils.h"
#include "utils/section_type.h"
#include <boost/container_hash/hash.hpp>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <fstream>
#include <functional>
#include <future>
#include <map>
#include <mutex>
#include <numbers>
#include <optional>
#include <range/v3/numeric/accumulate.hpp>
#include <range/v3/view/drop_last.hpp>
#include <range/v3/view/enumerate.hpp>
#include <range/v3/view/iota.hpp>
#include <range/v3/view/map.hpp>
#include <range/v3/view/reverse.hpp>
#include <scripta/logger.h>
#include <spdlog/spdlog.h>
#include <stdio.h>
#include <string>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include "TreeSupport.h"
#include "TreeSupportBaseCircle.h"
#include "TreeSupportElement.h"
#include "TreeSupportEnums.h"
#include "TreeSupportSettings.h"
#include "TreeSupportTipGenerator.h"
#include "TreeSupportUtils.h"
#include "TreeModelVolumes.h"
#include "ref.h"

namespace ref
{
using namespace cura;

//= cura::TreeSupport::TreeSupport
void r1(cura::TreeSupport& self, const SliceDataStorage& storage)
{
    size_t largest_printed_mesh_idx = 0;
    for (const std::shared_ptr<SliceMeshStorage>& mesh_ptr : storage.meshes)
    {
        const auto& mesh = *mesh_ptr;
        TreeSupportSettings::some_model_contains_thick_roof |= mesh.settings.get<coord_t>("support_roof_height") >= 2 * mesh.settings.get<coord_t>("layer_height");
        TreeSupportSettings::has_to_rely_on_min_xy_dist_only |= mesh.settings.get<coord_t>("support_top_distance") == 0
                                                             || mesh.settings.get<coord_t>("support_bottom_distance") == 0
                                                             || mesh.settings.get<coord_t>("min_feature_size") < (FUDGE_LENGTH * 2);
    }
    const bool mesh_group_support_paint = Application::getInstance().current_slice_->scene.current_mesh_group->has_painted_support;
    for (auto [mesh_idx, mesh_ptr] : storage.meshes | ranges::views::enumerate)
    {
        SliceMeshStorage& mesh = *mesh_ptr;
        const bool non_supportable_mesh = ! mesh.isModelMesh() || mesh.settings.get<bool>("support_mesh");
        if (mesh.settings.get<ESupportStructure>("support_structure") != ESupportStructure::TREE || ! (mesh.settings.get<bool>("support_enable") || mesh_group_support_paint)
            || non_supportable_mesh)
        {
            continue;
        }
        bool added = false;
        TreeSupportSettings next_settings(mesh.settings);
        for (auto& grouped_mesh : self.grouped_meshes)
        {
            if (next_settings == grouped_mesh.first)
            {
                added = true;
                grouped_mesh.second.emplace_back(mesh_idx);
            }
        }
        if (! added)
        {
            self.grouped_meshes.emplace_back(next_settings, std::vector<size_t>{ mesh_idx });
        }
        if (storage.meshes[largest_printed_mesh_idx]->layers.back().printZ < mesh.layers.back().printZ)
        {
            largest_printed_mesh_idx = mesh_idx;
        }
    }
    std::vector<coord_t> known_z(storage.meshes[largest_printed_mesh_idx]->layers.size());
    for (auto [z, layer] : ranges::views::enumerate(storage.meshes[largest_printed_mesh_idx]->layers))
    {
        known_z[z] = layer.printZ;
    }
    for (auto& mesh : self.grouped_meshes)
    {
        mesh.first.setActualZ(known_z);
    }
    self.fake_roof_areas = std::vector<std::vector<FakeRoofArea>>(storage.support.supportLayers.size(), std::vector<FakeRoofArea>());
}

//= cura::TreeSupport::generateSupportAreas
void r2(cura::TreeSupport& self, SliceDataStorage& storage)
{
    if (self.grouped_meshes.empty())
    {
        return;
    }
    if (storage.support.cross_fill_provider == nullptr)
    {
        AreaSupport::precomputeCrossInfillTree(storage);
    }
    for (auto [counter, processing] : self.grouped_meshes | ranges::views::enumerate)
    {
        std::vector<std::set<TreeSupportElement*>> move_bounds(
            storage.support.supportLayers
                .size()); 
        self.additional_required_support_area = std::vector<Shape>(storage.support.supportLayers.size(), Shape());
        std::vector<Shape> exclude(storage.support.supportLayers.size());
        auto t_start = std::chrono::high_resolution_clock::now();
        cura::parallel_for<coord_t>(
            LayerIndex(0),
            LayerIndex(storage.support.supportLayers.size()),
            [&](const LayerIndex layer_idx)
            {
                Shape exlude_at_layer;
                exlude_at_layer.push_back(storage.support.supportLayers[layer_idx].support_bottom);
                exlude_at_layer.push_back(storage.support.supportLayers[layer_idx].support_roof);
                for (auto part : storage.support.supportLayers[layer_idx].support_infill_parts)
                {
                    exlude_at_layer.push_back(part.outline_);
                }
                exclude[layer_idx] = exlude_at_layer.unionPolygons();
                scripta::log("tree_support_exclude", exclude[layer_idx], SectionType::SUPPORT, layer_idx);
            });
        self.config = processing.first; 
        self.progress_multiplier = 1.0 / double(self.grouped_meshes.size());
        self.progress_offset = counter == 0 ? 0 : TREE_PROGRESS_TOTAL * (double(counter) * self.progress_multiplier);
        self.volumes_ = TreeModelVolumes(
            storage,
            self.config.maximum_move_distance,
            self.config.maximum_move_distance_slow,
            self.config.support_line_width / 2,
            processing.second.front(),
            self.progress_multiplier,
            self.progress_offset,
            exclude);
        const LayerIndex max_required_layer = self.precalculate(storage, processing.second);
        if (max_required_layer < 0)
        {
            continue; 
        }
        const auto t_precalc = std::chrono::high_resolution_clock::now();
        for (size_t mesh_idx : processing.second)
        {
            self.generateInitialAreas(*storage.meshes[mesh_idx], move_bounds, storage);
        }
        const auto t_gen = std::chrono::high_resolution_clock::now();
        self.createLayerPathing(move_bounds);
        const auto t_path = std::chrono::high_resolution_clock::now();
        self.createNodesFromArea(move_bounds);
        const auto t_place = std::chrono::high_resolution_clock::now();
        self.drawAreas(move_bounds, storage);
        const auto t_draw = std::chrono::high_resolution_clock::now();
        const auto dur_pre_gen = 0.001 * std::chrono::duration_cast<std::chrono::microseconds>(t_precalc - t_start).count();
        const auto dur_gen = 0.001 * std::chrono::duration_cast<std::chrono::microseconds>(t_gen - t_precalc).count();
        const auto dur_path = 0.001 * std::chrono::duration_cast<std::chrono::microseconds>(t_path - t_gen).count();
        const auto dur_place = 0.001 * std::chrono::duration_cast<std::chrono::microseconds>(t_place - t_path).count();
        const auto dur_draw = 0.001 * std::chrono::duration_cast<std::chrono::microseconds>(t_draw - t_place).count();
        const auto dur_total = 0.001 * std::chrono::duration_cast<std::chrono::microseconds>(t_draw - t_start).count();
        for (auto& layer : move_bounds)
        {
            for (auto elem : layer)
            {
                delete elem->area_;
                delete elem;
            }
        }
    }
    storage.support.generated = true;
}

//= cura::TreeSupport::precalculate
LayerIndex r3(cura::TreeSupport& self, const SliceDataStorage& storage, std::vector<size_t> currently_processing_meshes)
{
    LayerIndex max_layer = -1;
    for (size_t mesh_idx : currently_processing_meshes)
    {
        const SliceMeshStorage& mesh = *storage.meshes[mesh_idx];
        const coord_t layer_height = mesh.settings.get<coord_t>("layer_height");
        const coord_t z_distance_top = mesh.settings.get<coord_t>("support_top_distance");
        const size_t z_distance_top_layers = round_up_divide(z_distance_top,
                                                             layer_height) + 1; 
        if (mesh.overhang_areas.size() <= z_distance_top_layers)
        {
            continue;
        }
        for (const auto layer_idx : ranges::views::iota(1UL, mesh.overhang_areas.size() - z_distance_top_layers) | ranges::views::reverse)
        {
            const Shape& overhang = mesh.overhang_areas[layer_idx + z_distance_top_layers];
            if (! overhang.empty())
            {
                if (layer_idx > max_layer) 
                {
                    max_layer = 1 + layer_idx; 
                }
                break;
            }
        }
    }
    if (max_layer >= 0)
    {
        self.volumes_.precalculate(max_layer);
    }
    return max_layer;
}

//= cura::TreeSupport::generateInitialAreas
void r4(cura::TreeSupport& self, const SliceMeshStorage& mesh, std::vector<std::set<TreeSupportElement*>>& move_bounds, SliceDataStorage& storage)
{
    TreeSupportTipGenerator tip_gen(mesh, self.volumes_);
    tip_gen.generateTips(storage, mesh, move_bounds, self.additional_required_support_area, self.fake_roof_areas);
}

//= cura::TreeSupport::mergeInfluenceAreas
void r6(cura::TreeSupport& self, PropertyAreasUnordered& to_bp_areas, PropertyAreas& to_model_areas, PropertyAreas& influence_areas, LayerIndex layer_idx)
{
    const size_t input_size = influence_areas.size();
    size_t num_threads = std::max(size_t(1), size_t(std::thread::hardware_concurrency())); 
    if (input_size == 0)
    {
        return;
    }
    constexpr int min_elements_per_bucket = 2;
    const size_t max_bucket_count = std::pow(2, std::floor(std::log(round_up_divide(input_size, min_elements_per_bucket))));
    int bucket_count = std::min(max_bucket_count, num_threads); 
    std::vector<PropertyAreas> buckets_area(2 * bucket_count);
    std::vector<std::map<TreeSupportElement, AABB>> buckets_aabb(2 * bucket_count);
    size_t position = 0, counter = 0;
    const size_t over_elements = input_size % bucket_count;
    const size_t elements_per_step = input_size / bucket_count;
    for (const auto& influence_area : influence_areas)
    {
        buckets_area[position * 2 + 1].emplace(influence_area.first, influence_area.second);
        counter++;
        if ((counter == elements_per_step && position >= over_elements) || counter > elements_per_step)
        {
            position++;
            counter = 0;
        }
    }
    cura::parallel_for<size_t>(
        0,
        buckets_area.size() / 2,
        [&](size_t idx) 
        {
            idx = idx * 2 + 1; 
            for (const std::pair<TreeSupportElement, Shape>& input_pair : buckets_area[idx])
            {
                AABB outer_support_wall_aabb = AABB(input_pair.second);
                outer_support_wall_aabb.expand(self.config.getRadius(input_pair.first));
                buckets_aabb[idx].emplace(input_pair.first, outer_support_wall_aabb);
            }
        });
    while (buckets_area.size() > 1)
    {
        std::vector<PropertyAreasUnordered> insert_main(buckets_area.size() / 2);
        std::vector<PropertyAreasUnordered> insert_secondary(buckets_area.size() / 2);
        std::vector<PropertyAreasUnordered> insert_influence(buckets_area.size() / 2);
        std::vector<std::vector<TreeSupportElement>> erase(buckets_area.size() / 2);
        cura::parallel_for<size_t>(
            0,
            (coord_t)buckets_area.size() / 2,
            [&](size_t bucket_pair_idx)
            {
                bucket_pair_idx *= 2; 
                self.mergeHelper(
                    buckets_aabb[bucket_pair_idx],
                    buckets_aabb[bucket_pair_idx + 1],
                    to_bp_areas,
                    to_model_areas,
                    influence_areas,
                    insert_main[bucket_pair_idx / 2],
                    insert_secondary[bucket_pair_idx / 2],
                    insert_influence[bucket_pair_idx / 2],
                    erase[bucket_pair_idx / 2],
                    layer_idx);
                buckets_area[bucket_pair_idx + 1].clear(); 
                buckets_aabb[bucket_pair_idx + 1].clear();
            });
        for (const coord_t i : ranges::views::iota(0UL, buckets_area.size() / 2))
        {
            for (TreeSupportElement& del : erase[i])
            {
                to_bp_areas.erase(del);
                to_model_areas.erase(del);
                influence_areas.erase(del);
            }
            for (const std::pair<TreeSupportElement, Shape>& tup : insert_main[i])
            {
                to_bp_areas.emplace(tup);
            }
            for (const std::pair<TreeSupportElement, Shape>& tup : insert_secondary[i])
            {
                to_model_areas.emplace(tup);
            }
            for (const std::pair<TreeSupportElement, Shape>& tup : insert_influence[i])
            {
                influence_areas.emplace(tup);
            }
        }
        const auto position_rem = std::remove_if(
            buckets_area.begin(),
            buckets_area.end(),
            [&](const PropertyAreas x) mutable
            {
                return x.empty();
            });
        buckets_area.erase(position_rem, buckets_area.end());
        const auto position_aabb = std::remove_if(
            buckets_aabb.begin(),
            buckets_aabb.end(),
            [&](const std::map<TreeSupportElement, AABB> x) mutable
            {
                return x.empty();
            });
        buckets_aabb.erase(position_aabb, buckets_aabb.end());
    }
}

//= cura::TreeSupport::increaseAreas
void r8(cura::TreeSupport& self, PropertyAreasUnordered& to_bp_areas, PropertyAreas& to_model_areas, PropertyAreas& influence_areas, std::vector<TreeSupportElement*>& bypass_merge_areas, const std::vector<TreeSupportElement*>& last_layer, const LayerIndex layer_idx, const bool mergelayer)
{
    std::mutex critical_sections;
    cura::parallel_for<size_t>(
        0,
        last_layer.size(),
        [&](const size_t idx)
        {
            TreeSupportElement* parent = last_layer[idx];
            TreeSupportElement elem(parent); 
            const Shape wall_restriction = self.volumes_.getWallRestriction(self.config.getCollisionRadius(*parent), layer_idx, parent->use_min_xy_dist_);
            Shape to_bp_data;
            Shape to_model_data;
            coord_t radius = self.config.getCollisionRadius(elem);
            coord_t extra_speed = EPSILON; 
            coord_t extra_slow_speed = 0; 
            const coord_t ceiled_parent_radius = self.volumes_.ceilRadius(self.config.getCollisionRadius(*parent), parent->use_min_xy_dist_);
            const coord_t projected_radius_increased = self.config.getRadius(parent->effective_radius_height_ + 1, parent->buildplate_radius_increases_);
            const coord_t projected_radius_delta = projected_radius_increased - self.config.getCollisionRadius(*parent);
            const coord_t safe_movement_distance = (elem.use_min_xy_dist_ ? self.config.xy_min_distance : self.config.xy_distance)
                                                 + (std::min(self.config.z_distance_top_layers, self.config.z_distance_bottom_layers) > 0 ? self.config.min_feature_size : 0);
            if (ceiled_parent_radius == self.volumes_.ceilRadius(projected_radius_increased, parent->use_min_xy_dist_)
                || projected_radius_increased < self.config.increase_radius_until_radius)
            {
                extra_speed += projected_radius_delta;
            }
            else
            {
                extra_slow_speed += std::min(projected_radius_delta, (self.config.maximum_move_distance + extra_speed) - (self.config.maximum_move_distance_slow + extra_slow_speed));
            }
            if (self.config.layer_start_bp_radius > layer_idx
                && self.config.recommendedMinRadius(layer_idx - 1) < self.config.getRadius(elem.effective_radius_height_ + 1, elem.buildplate_radius_increases_))
            {
                if (ceiled_parent_radius
                    == self.volumes_.ceilRadius(self.config.getRadius(parent->effective_radius_height_ + 1, parent->buildplate_radius_increases_ + 1), parent->use_min_xy_dist_))
                {
                    extra_speed += self.config.branch_radius * self.config.diameter_scale_bp_radius;
                }
                else
                {
                    extra_slow_speed += std::min(
                        coord_t(self.config.branch_radius * self.config.diameter_scale_bp_radius),
                        self.config.maximum_move_distance - (self.config.maximum_move_distance_slow + extra_slow_speed));
                }
            }
            const coord_t fast_speed = self.config.maximum_move_distance + extra_speed;
            const coord_t slow_speed = self.config.maximum_move_distance_slow + extra_speed + extra_slow_speed;
            Shape offset_slow;
            Shape offset_fast;
            bool add = false;
            bool bypass_merge = false;
            constexpr bool increase_radius = true;
            constexpr bool no_error = true;
            constexpr bool use_min_radius = true;
            constexpr bool move = true;
            std::deque<AreaIncreaseSettings> order;
            std::function<void(const AreaIncreaseSettings&, bool)> insertSetting = [&](const AreaIncreaseSettings& settings, bool back)
            {
                if (std::find(order.begin(), order.end(), settings) == order.end())
                {
                    if (back)
                    {
                        order.emplace_back(settings);
                    }
                    else
                    {
                        order.emplace_front(settings);
                    }
                }
            };
            const bool parent_moved_slow = elem.last_area_increase_.increase_speed_ < self.config.maximum_move_distance;
            const bool avoidance_speed_mismatch = parent_moved_slow && elem.last_area_increase_.type_ != AvoidanceType::SLOW;
            if (elem.last_area_increase_.move_ && elem.last_area_increase_.no_error_ && elem.can_use_safe_radius_ && ! mergelayer && ! avoidance_speed_mismatch
                && (elem.distance_to_top_ >= self.config.tip_layers || parent_moved_slow))
            {
                const auto slow_or_fast = elem.last_area_increase_.increase_speed_ < self.config.maximum_move_distance ? slow_speed : fast_speed;
                insertSetting(
                    AreaIncreaseSettings(
                        elem.last_area_increase_.type_,
                        slow_or_fast,
                        increase_radius,
                        elem.last_area_increase_.no_error_,
                        ! use_min_radius,
                        elem.last_area_increase_.move_),
                    true);
                insertSetting(
                    AreaIncreaseSettings(
                        elem.last_area_increase_.type_,
                        slow_or_fast,
                        ! increase_radius,
                        elem.last_area_increase_.no_error_,
                        ! use_min_radius,
                        elem.last_area_increase_.move_),
                    true);
            }
            if (! elem.can_use_safe_radius_)
            {
                insertSetting(AreaIncreaseSettings(AvoidanceType::SLOW, slow_speed, increase_radius, no_error, ! use_min_radius, ! move), true); 
                if (elem.distance_to_top_ < round_up_divide(self.config.tip_layers, 2))
                {
                    insertSetting(AreaIncreaseSettings(AvoidanceType::FAST, slow_speed, increase_radius, no_error, ! use_min_radius, ! move), true);
                }
                insertSetting(
                    AreaIncreaseSettings(AvoidanceType::FAST_SAFE, fast_speed, increase_radius, no_error, ! use_min_radius, ! move),
                    true); 
                insertSetting(AreaIncreaseSettings(AvoidanceType::FAST_SAFE, fast_speed, ! increase_radius, no_error, ! use_min_radius, move), true);
                insertSetting(AreaIncreaseSettings(AvoidanceType::FAST, fast_speed, ! increase_radius, no_error, ! use_min_radius, move), true);
            }
            else
            {
                insertSetting(AreaIncreaseSettings(AvoidanceType::SLOW, slow_speed, increase_radius, no_error, ! use_min_radius, move), true);
                insertSetting(AreaIncreaseSettings(AvoidanceType::SLOW, slow_speed, ! increase_radius, no_error, ! use_min_radius, move), true); 
                if (elem.distance_to_top_ < self.config.tip_layers)
                {
                    insertSetting(AreaIncreaseSettings(AvoidanceType::FAST_SAFE, slow_speed, increase_radius, no_error, ! use_min_radius, move), true);
                }
                insertSetting(AreaIncreaseSettings(AvoidanceType::FAST_SAFE, fast_speed, increase_radius, no_error, ! use_min_radius, move), true); 
                insertSetting(AreaIncreaseSettings(AvoidanceType::FAST_SAFE, fast_speed, ! increase_radius, no_error, ! use_min_radius, move), true);
            }
            if (elem.use_min_xy_dist_)
            {
                std::deque<AreaIncreaseSettings> new_order;
                for (AreaIncreaseSettings settings : order)
                {
                    new_order.emplace_back(settings);
                    new_order.emplace_back(settings.type_, settings.increase_speed_, settings.increase_radius_, settings.no_error_, use_min_radius, settings.move_);
                }
                order = new_order;
            }
            insertSetting(
                AreaIncreaseSettings(AvoidanceType::FAST, fast_speed, ! increase_radius, ! no_error, elem.use_min_xy_dist_, move),
                true); 
            if (elem.to_buildplate_ || (elem.to_model_gracious_ && (parent->area_->intersection(self.volumes_.getPlaceableAreas(radius, layer_idx)).empty()))
                || (! elem.to_model_gracious_ && (parent->area_->intersection(self.volumes_.getAccumulatedPlaceable0(layer_idx)).empty()))) 
            {
                insertSetting(AreaIncreaseSettings(AvoidanceType::FAST, fast_speed * 1.5, ! increase_radius, ! no_error, elem.use_min_xy_dist_, move), true);
            }
            if (elem.distance_to_top_ < elem.dont_move_until_ && elem.can_use_safe_radius_) 
            {
                insertSetting(
                    AreaIncreaseSettings(AvoidanceType::SLOW, 0, increase_radius, no_error, ! use_min_radius, ! move),
                    false); 
            }
            Shape inc_wo_collision;
            const bool offset_independent_faster = (radius / safe_movement_distance - (((self.config.maximum_move_distance + extra_speed) < (radius + safe_movement_distance)) ? 1 : 0))
                                                 > (round_up_divide((extra_speed + extra_slow_speed + self.config.maximum_move_distance_slow), safe_movement_distance));
            for (AreaIncreaseSettings settings : order)
            {
                if (settings.move_)
                {
                    if (offset_slow.empty() && (settings.increase_speed_ == slow_speed || ! offset_independent_faster))
                    {
                        offset_slow = TreeSupportUtils::safeOffsetInc(
                                          *parent->area_,
                                          extra_speed + extra_slow_speed + self.config.maximum_move_distance_slow,
                                          wall_restriction,
                                          safe_movement_distance,
                                          offset_independent_faster ? safe_movement_distance + radius : 0,
                                          2, 
                                          self.config.support_line_distance / 2,
                                          &self.config.simplifier)
                                          .unionPolygons();
                    }
                    if ((settings.increase_speed_ != slow_speed) && offset_fast.empty())
                    {
                        if (offset_independent_faster)
                        {
                            offset_fast = TreeSupportUtils::safeOffsetInc(
                                              *parent->area_,
                                              extra_speed + self.config.maximum_move_distance,
                                              wall_restriction,
                                              safe_movement_distance,
                                              offset_independent_faster ? safe_movement_distance + radius : 0,
                                              1,
                                              self.config.support_line_distance / 2,
                                              &self.config.simplifier)
                                              .unionPolygons();
                        }
                        else
                        {
                            const coord_t delta_slow_fast = self.config.maximum_move_distance - (self.config.maximum_move_distance_slow + extra_slow_speed);
                            offset_fast = TreeSupportUtils::safeOffsetInc(
                                              offset_slow,
                                              delta_slow_fast,
                                              wall_restriction,
                                              safe_movement_distance,
                                              safe_movement_distance + radius,
                                              offset_independent_faster ? 2 : 1,
                                              self.config.support_line_distance / 2,
                                              &self.config.simplifier)
                                              .unionPolygons();
                        }
                    }
                }
                std::optional<TreeSupportElement> result;
                if (! settings.no_error_)
                {
                    Shape lines_offset = TreeSupportUtils::toPolylines(*parent->area_).offset(EPSILON);
                    Shape base_error_area = parent->area_->unionPolygons(lines_offset);
                    result = self.increaseSingleArea(settings, layer_idx, parent, base_error_area, to_bp_data, to_model_data, inc_wo_collision, settings.increase_speed_, mergelayer);
                    if (fast_speed < settings.increase_speed_)
                    {
                    }
                }
                else
                {
                    result = self.increaseSingleArea(
                        settings,
                        layer_idx,
                        parent,
                        settings.increase_speed_ == slow_speed ? offset_slow : offset_fast,
                        to_bp_data,
                        to_model_data,
                        inc_wo_collision,
                        std::max(settings.increase_speed_ - fast_speed, coord_t(0)),
                        mergelayer);
                }
                if (result)
                {
                    elem = result.value();
                    radius = self.config.getCollisionRadius(elem);
                    elem.last_area_increase_ = settings;
                    add = true;
                    bypass_merge = ! settings.move_
                                || (settings.use_min_distance_
                                    && elem.distance_to_top_
                                           < self.config.tip_layers); 
                    if (settings.move_)
                    {
                        elem.dont_move_until_ = 0;
                    }
                    else
                    {
                        elem.result_on_layer_ = parent->result_on_layer_;
                    }
                    elem.can_use_safe_radius_ = settings.type_ != AvoidanceType::FAST;
                    if (! settings.use_min_distance_)
                    {
                        elem.use_min_xy_dist_ = false;
                    }
                    if (! settings.no_error_ && fast_speed < settings.increase_speed_)
                    {
                    }
                    break;
                }
                else if (! settings.no_error_ && fast_speed < settings.increase_speed_)
                {
                }
            }
            if (add)
            {
                Shape max_influence_area = TreeSupportUtils::safeUnion(
                    inc_wo_collision.difference(self.volumes_.getCollision(radius, layer_idx - 1, elem.use_min_xy_dist_)),
                    TreeSupportUtils::safeUnion(to_bp_data, to_model_data));
                {
                    std::lock_guard<std::mutex> critical_section_newLayer(critical_sections);
                    if (bypass_merge)
                    {
                        Shape* new_area = new Shape(max_influence_area);
                        TreeSupportElement* next = new TreeSupportElement(elem, new_area);
                        bypass_merge_areas.emplace_back(next);
                    }
                    else
                    {
                        influence_areas.emplace(elem, max_influence_area);
                        if (elem.to_buildplate_)
                        {
                            to_bp_areas.emplace(elem, to_bp_data);
                        }
                        if (self.config.support_rests_on_model)
                        {
                            to_model_areas.emplace(elem, to_model_data);
                        }
                    }
                }
            }
            else
            {
                parent->result_on_layer_ = Point2LL(-1, -1);
            }
        });
}

//= cura::TreeSupport::createLayerPathing
void r9(cura::TreeSupport& self, std::vector<std::set<TreeSupportElement*>>& move_bounds)
{
    const double data_size_inverse = 1 / double(move_bounds.size());
    double progress_total = TREE_PROGRESS_PRECALC_AVO + TREE_PROGRESS_PRECALC_COLL + TREE_PROGRESS_GENERATE_NODES;
    auto dur_inc = std::chrono::duration_values<std::chrono::nanoseconds>::zero();
    auto dur_merge = std::chrono::duration_values<std::chrono::nanoseconds>::zero();
    const auto dur_inc_recent = std::chrono::duration_values<std::chrono::nanoseconds>::zero();
    const auto dur_merge_recent = std::chrono::duration_values<std::chrono::nanoseconds>::zero();
    LayerIndex last_merge = move_bounds.size();
    bool new_element = false;
    size_t max_merge_every_x_layers = std::min(
        std::min(5000 / (std::max(self.config.maximum_move_distance, static_cast<coord_t>(100))), 1000 / std::max(self.config.maximum_move_distance_slow, static_cast<coord_t>(20))),
        3000 / self.config.layer_height);
    size_t merge_every_x_layers = 1;
    for (const auto layer_idx : ranges::views::iota(1UL, move_bounds.size()) | ranges::views::reverse)
    {
        bool merge_this_layer = size_t(last_merge - layer_idx) >= merge_every_x_layers;
        if (new_element)
        {
            merge_this_layer = true;
            merge_every_x_layers = 1;
        }
        PropertyAreas influence_areas; 
        PropertyAreas to_model_areas; 
        PropertyAreasUnordered to_bp_areas; 
        std::vector<TreeSupportElement*>
            bypass_merge_areas; 
        const auto time_a = std::chrono::high_resolution_clock::now();
        std::vector<TreeSupportElement*> last_layer;
        last_layer.insert(last_layer.begin(), move_bounds[layer_idx].begin(), move_bounds[layer_idx].end());
        self.increaseAreas(to_bp_areas, to_model_areas, influence_areas, bypass_merge_areas, last_layer, layer_idx, merge_this_layer);
        const auto time_b = std::chrono::high_resolution_clock::now();
        if (merge_this_layer)
        {
            bool reduced_by_merging = false;
            size_t count_before_merge = influence_areas.size();
            self.mergeInfluenceAreas(to_bp_areas, to_model_areas, influence_areas, layer_idx);
            last_merge = layer_idx;
            reduced_by_merging = count_before_merge > influence_areas.size();
            if (! reduced_by_merging && ! new_element)
            {
                merge_every_x_layers = std::min(max_merge_every_x_layers, merge_every_x_layers + 1);
            }
        }
        const auto time_c = std::chrono::high_resolution_clock::now();
        dur_inc += time_b - time_a;
        dur_merge += time_c - time_b;
        new_element = ! move_bounds[layer_idx - 1].empty();
        for (std::pair<TreeSupportElement, Shape> tup : influence_areas)
        {
            const TreeSupportElement elem = tup.first;
            Shape* new_area = new Shape(TreeSupportUtils::safeUnion(tup.second));
            TreeSupportElement* next = new TreeSupportElement(elem, new_area);
            move_bounds[layer_idx - 1].emplace(next);
            if (new_area->area() < 1)
            {
            }
        }
        for (TreeSupportElement* elem : bypass_merge_areas)
        {
            if (elem->area_->area() < 1)
            {
            }
            move_bounds[layer_idx - 1].emplace(elem);
        }
        progress_total += data_size_inverse * TREE_PROGRESS_AREA_CALC;
        Progress::messageProgress(Progress::Stage::SUPPORT, progress_total * self.progress_multiplier + self.progress_offset, TREE_PROGRESS_TOTAL);
    }
}

//= cura::TreeSupport::setToModelContact
bool r11(cura::TreeSupport& self, std::vector<std::set<TreeSupportElement*>>& move_bounds, TreeSupportElement* first_elem, const LayerIndex layer_idx)
{
    if (first_elem->to_model_gracious_)
    {
        TreeSupportElement* check = first_elem;
        std::vector<TreeSupportElement*> checked;
        LayerIndex last_successfull_layer = layer_idx;
        bool set = false;
        if (self.config.support_rest_preference != RestPreference::BUILDPLATE && layer_idx == 0)
        {
            set = true;
        }
        Shape valid_place_area;
        for (LayerIndex layer_check = layer_idx; check->next_height_ >= layer_check; layer_check++)
        {
            Shape check_valid_place_area = check->area_->intersection(self.volumes_.getPlaceableAreas(self.config.getCollisionRadius(*check), layer_check));
            if (! check_valid_place_area.empty())
            {
                set = true;
                last_successfull_layer = layer_check;
                valid_place_area = check_valid_place_area;
            }
            checked.emplace_back(check);
            if (check->parents_.size() == 1)
            {
                check = check->parents_[0];
            }
            else
            {
                break; 
            }
        }
        if (! set)
        {
            if (SUPPORT_TREE_ONLY_GRACIOUS_TO_MODEL)
            {
                for (LayerIndex layer = layer_idx; layer <= first_elem->next_height_; layer++)
                {
                    move_bounds[layer].erase(checked[layer - layer_idx]);
                    delete checked[layer - layer_idx]->area_;
                    delete checked[layer - layer_idx];
                }
                return true;
            }
            else
            {
                first_elem->to_model_gracious_ = false;
                return self.setToModelContact(move_bounds, first_elem, layer_idx);
            }
        }
        for (LayerIndex layer = layer_idx + 1; layer < last_successfull_layer - 1;
             ++layer) 
        {
            move_bounds[layer].erase(checked[layer - layer_idx]);
            delete checked[layer - layer_idx]->area_;
            delete checked[layer - layer_idx];
        }
        if (self.config.support_rest_preference != RestPreference::BUILDPLATE && last_successfull_layer == 0)
        {
            return false;
        }
        Point2LL best = checked[last_successfull_layer - layer_idx]->next_position_;
        if (! valid_place_area.inside(best, true))
        {
            PolygonUtils::moveInside(valid_place_area, best);
        }
        checked[last_successfull_layer - layer_idx]->result_on_layer_ = best;
        return last_successfull_layer != layer_idx;
    }
    else 
    {
        Point2LL best = first_elem->next_position_;
        Shape valid_place_area
            = first_elem->area_->difference(self.volumes_.getAvoidance(self.config.getCollisionRadius(first_elem), layer_idx, AvoidanceType::COLLISION, first_elem->use_min_xy_dist_));
        if (! valid_place_area.inside(best, true))
        {
            if (! valid_place_area.empty())
            {
                PolygonUtils::moveInside(valid_place_area, best);
            }
            else
            {
                bool found_partial_placement;
                for (coord_t radius_offset : { -self.config.getCollisionRadius(first_elem),
                                               -self.config.getCollisionRadius(first_elem) / 2,
                                               coord_t(0) }) 
                {
                    valid_place_area = first_elem->area_->intersection(self.volumes_.getAccumulatedPlaceable0(layer_idx).offset(radius_offset));
                    if (! valid_place_area.empty())
                    {
                        PolygonUtils::moveInside(valid_place_area, best);
                        found_partial_placement = true;
                        break;
                    }
                }
                if (! found_partial_placement)
                {
                    PolygonUtils::moveInside(*first_elem->area_, best);
                }
            }
        }
        first_elem->result_on_layer_ = best;
        first_elem->to_model_gracious_ = false;
        return false;
    }
}

//= cura::TreeSupport::generateBranchAreas
void r13(cura::TreeSupport& self, std::vector<std::pair<LayerIndex, TreeSupportElement*>>& linear_data, std::vector<std::unordered_map<TreeSupportElement*, Shape>>& layer_tree_polygons, const std::map<TreeSupportElement*, TreeSupportElement*>& inverse_tree_order)
{
    double progress_total = TREE_PROGRESS_PRECALC_AVO + TREE_PROGRESS_PRECALC_COLL + TREE_PROGRESS_GENERATE_NODES + TREE_PROGRESS_AREA_CALC;
    constexpr int progress_report_steps = 10;
    Polygon branch_circle; 
    {
        Polygon base_circle = TreeSupportBaseCircle::getBaseCircle();
        for (Point2LL vertex : base_circle)
        {
            vertex = Point2LL(vertex.X * self.config.branch_radius / TreeSupportBaseCircle::base_radius, vertex.Y * self.config.branch_radius / TreeSupportBaseCircle::base_radius);
            branch_circle.push_back(vertex);
        }
    }
    std::vector<Shape> linear_inserts(linear_data.size());
    const size_t progress_inserts_check_interval = std::max(linear_data.size() / progress_report_steps, size_t(1));
    std::mutex critical_sections;
    cura::parallel_for<size_t>(
        0,
        linear_data.size(),
        [&](const size_t idx)
        {
            TreeSupportElement* elem = linear_data[idx].second;
            coord_t radius = self.config.getRadius(*elem);
            bool parent_uses_min = false;
            TreeSupportElement* child_elem = inverse_tree_order.count(elem) ? inverse_tree_order.at(elem) : nullptr;
            std::vector<std::pair<Point2LL, coord_t>> movement_directions{ std::pair<Point2LL, coord_t>(Point2LL(0, 0), radius) };
            if (! elem->skip_ovalisation_)
            {
                if (child_elem != nullptr)
                {
                    Point2LL movement = (child_elem->result_on_layer_ - elem->result_on_layer_);
                    movement_directions.emplace_back(movement, radius);
                }
                for (TreeSupportElement* parent : elem->parents_)
                {
                    Point2LL movement = (parent->result_on_layer_ - elem->result_on_layer_);
                    movement_directions.emplace_back(movement, std::max(self.config.getRadius(parent), self.config.support_line_width));
                    parent_uses_min |= parent->use_min_xy_dist_;
                }
                for (Point2LL target : elem->additional_ovalization_targets_)
                {
                    Point2LL movement = (target - elem->result_on_layer_);
                    movement_directions.emplace_back(movement, std::max(radius, self.config.support_line_width));
                }
            }
            coord_t max_speed_sqd = 0;
            const std::function<Shape(coord_t)> generateArea = [&](coord_t offset)
            {
                Shape poly;
                for (std::pair<Point2LL, coord_t> movement : movement_directions)
                {
                    max_speed_sqd = std::max(max_speed_sqd, vSize2(movement.first));
                    double used_scale = (movement.second + offset) / (1.0 * self.config.branch_radius);
                    Point2LL center_position = elem->result_on_layer_ + movement.first / 2;
                    const double moveX = movement.first.X / (used_scale * self.config.branch_radius);
                    const double moveY = movement.first.Y / (used_scale * self.config.branch_radius);
                    const double vsize_inv = 0.5 / (0.01 + std::sqrt(moveX * moveX + moveY * moveY));
                    std::array<double, 4> matrix = {
                        used_scale * (1 + moveX * moveX * vsize_inv),
                        used_scale * (0 + moveX * moveY * vsize_inv),
                        used_scale * (0 + moveX * moveY * vsize_inv),
                        used_scale * (1 + moveY * moveY * vsize_inv),
                    };
                    Polygon circle;
                    for (Point2LL vertex : branch_circle)
                    {
                        vertex = Point2LL(matrix[0] * vertex.X + matrix[1] * vertex.Y, matrix[2] * vertex.X + matrix[3] * vertex.Y);
                        circle.push_back(center_position + vertex);
                    }
                    poly.push_back(circle.offset(0));
                }
                poly = poly.unionPolygons()
                           .offset(std::min(static_cast<coord_t>(FUDGE_LENGTH), self.config.support_line_width / 4))
                           .difference(self.volumes_.getCollision(0, linear_data[idx].first, parent_uses_min || elem->use_min_xy_dist_));
                return poly;
            };
            constexpr auto three_quarters_sqd = 0.75 * 0.75;
            const bool fast_relative_movement = max_speed_sqd > (radius * radius * three_quarters_sqd);
            linear_inserts[idx] = generateArea(0);
            if (fast_relative_movement || self.config.getRadius(*elem) - self.config.getCollisionRadius(*elem) > self.config.support_line_width)
            {
                Shape nozzle_path = linear_inserts[idx].offset(-self.config.support_line_width / 2);
                if (nozzle_path.splitIntoParts(false).size() > 1)
                {
                    linear_inserts[idx] = generateArea(self.config.support_line_width / 2);
                    nozzle_path = linear_inserts[idx].offset(-self.config.support_line_width / 2);
                    if (nozzle_path.splitIntoParts(false).size() > 1)
                    {
                        Shape polygons_with_correct_center;
                        for (SingleShape part : nozzle_path.splitIntoParts(false))
                        {
                            if (part.inside(elem->result_on_layer_, true))
                            {
                                polygons_with_correct_center = polygons_with_correct_center.unionPolygons(part);
                            }
                            else
                            {
                                Point2LL from = elem->result_on_layer_;
                                PolygonUtils::moveInside(part, from, 0);
                                if (vSize2(elem->result_on_layer_ - from) < (FUDGE_LENGTH * FUDGE_LENGTH) / 4)
                                {
                                    polygons_with_correct_center = polygons_with_correct_center.unionPolygons(part);
                                }
                            }
                        }
                        linear_inserts[idx] = polygons_with_correct_center.offset(self.config.support_line_width / 2).unionPolygons();
                        linear_inserts[idx]
                            = linear_inserts[idx].difference(self.volumes_.getCollision(0, linear_data[idx].first, parent_uses_min || elem->use_min_xy_dist_)).unionPolygons();
                    }
                }
            }
            if (idx % progress_inserts_check_interval == 0)
            {
                {
                    std::lock_guard<std::mutex> critical_section_progress(critical_sections);
                    progress_total += TREE_PROGRESS_GENERATE_BRANCH_AREAS / progress_report_steps;
                    Progress::messageProgress(Progress::Stage::SUPPORT, progress_total * self.progress_multiplier + self.progress_offset, TREE_PROGRESS_TOTAL);
                }
            }
        });
    for (const coord_t i : ranges::views::iota(0UL, linear_data.size()))
    {
        layer_tree_polygons[linear_data[i].first].emplace(linear_data[i].second, linear_inserts[i]);
    }
}

//= cura::TreeSupport::smoothBranchAreas
void r14(cura::TreeSupport& self, std::vector<std::unordered_map<TreeSupportElement*, Shape>>& layer_tree_polygons)
{
    double progress_total = TREE_PROGRESS_PRECALC_AVO + TREE_PROGRESS_PRECALC_COLL + TREE_PROGRESS_GENERATE_NODES + TREE_PROGRESS_AREA_CALC + TREE_PROGRESS_GENERATE_BRANCH_AREAS;
    const coord_t max_radius_change_per_layer = 1 + self.config.support_line_width / 2; 
    for (const auto layer_idx : ranges::views::iota(0UL, std::max<size_t>(layer_tree_polygons.size(), 1UL) - 1UL))
    {
        std::vector<std::pair<TreeSupportElement*, Shape>> processing;
        processing.insert(processing.end(), layer_tree_polygons[layer_idx].begin(), layer_tree_polygons[layer_idx].end());
        std::vector<std::vector<std::pair<TreeSupportElement*, Shape>>> update_next(processing.size()); 
        cura::parallel_for<size_t>(
            0,
            processing.size(),
            [&](const size_t processing_idx)
            {
                std::pair<TreeSupportElement*, Shape> data_pair = processing[processing_idx];
                coord_t max_outer_wall_distance = 0;
                bool do_something = false;
                for (TreeSupportElement* parent : data_pair.first->parents_)
                {
                    if (self.config.getRadius(*parent) != self.config.getCollisionRadius(*parent))
                    {
                        do_something = true;
                        max_outer_wall_distance = std::max(
                            max_outer_wall_distance,
                            vSize(data_pair.first->result_on_layer_ - parent->result_on_layer_) - (self.config.getRadius(*data_pair.first) - self.config.getRadius(*parent)));
                    }
                }
                max_outer_wall_distance
                    += max_radius_change_per_layer; 
                if (do_something)
                {
                    Shape max_allowed_area = data_pair.second.offset(max_outer_wall_distance);
                    for (TreeSupportElement* parent : data_pair.first->parents_)
                    {
                        if (self.config.getRadius(*parent) != self.config.getCollisionRadius(*parent))
                        {
                            update_next[processing_idx].emplace_back(
                                std::pair<TreeSupportElement*, Shape>(parent, layer_tree_polygons[layer_idx + 1][parent].intersection(max_allowed_area)));
                        }
                    }
                }
            });
        for (std::vector<std::pair<TreeSupportElement*, Shape>> data_vector : update_next)
        {
            for (std::pair<TreeSupportElement*, Shape> data_pair : data_vector)
            {
                layer_tree_polygons[layer_idx + 1][data_pair.first] = data_pair.second;
            }
        }
    }
    progress_total += TREE_PROGRESS_SMOOTH_BRANCH_AREAS / 2;
    Progress::messageProgress(Progress::Stage::SUPPORT, progress_total * self.progress_multiplier + self.progress_offset, TREE_PROGRESS_TOTAL);
    std::unordered_set<TreeSupportElement*> updated_last_iteration;
    for (const auto layer_idx : ranges::views::iota(0UL, std::max<size_t>(layer_tree_polygons.size(), 1UL) - 1UL) | ranges::views::reverse)
    {
        std::vector<std::pair<TreeSupportElement*, Shape>> processing;
        processing.insert(processing.end(), layer_tree_polygons[layer_idx].begin(), layer_tree_polygons[layer_idx].end());
        std::vector<std::pair<TreeSupportElement*, Shape>> update_next(
            processing.size(),
            std::pair<TreeSupportElement*, Shape>(nullptr, Shape())); 
        cura::parallel_for<size_t>(
            0,
            processing.size(),
            [&](const size_t processing_idx)
            {
                std::pair<TreeSupportElement*, Shape> data_pair = processing[processing_idx];
                bool do_something = false;
                Shape max_allowed_area;
                for (size_t idx = 0; idx < data_pair.first->parents_.size(); idx++)
                {
                    TreeSupportElement* parent = data_pair.first->parents_[idx];
                    const coord_t max_outer_line_increase = max_radius_change_per_layer;
                    Shape result = layer_tree_polygons[layer_idx + 1][parent].offset(max_outer_line_increase);
                    const Point2LL direction = data_pair.first->result_on_layer_ - parent->result_on_layer_;
                    for (auto& outer : result)
                    {
                        for (Point2LL& p : outer)
                        {
                            p += direction;
                        }
                    }
                    max_allowed_area.push_back(result);
                    do_something = do_something || updated_last_iteration.count(parent) || self.config.getCollisionRadius(*parent) != self.config.getRadius(*parent);
                }
                if (do_something)
                {
                    const Shape result = max_allowed_area.unionPolygons().intersection(data_pair.second);
                    if (result.area() < data_pair.second.area())
                    {
                        update_next[processing_idx] = std::pair<TreeSupportElement*, Shape>(data_pair.first, result);
                    }
                }
            });
        updated_last_iteration.clear();
        for (std::pair<TreeSupportElement*, Shape> data_pair : update_next)
        {
            if (data_pair.first != nullptr)
            {
                updated_last_iteration.emplace(data_pair.first);
                layer_tree_polygons[layer_idx][data_pair.first] = data_pair.second;
            }
        }
    }
    progress_total += TREE_PROGRESS_SMOOTH_BRANCH_AREAS / 2;
    Progress::messageProgress(Progress::Stage::SUPPORT, progress_total * self.progress_multiplier + self.progress_offset, TREE_PROGRESS_TOTAL);
}

//= cura::TreeSupport::dropNonGraciousAreas
void r15(cura::TreeSupport& self, std::vector<std::unordered_map<TreeSupportElement*, Shape>>& layer_tree_polygons, const std::vector<std::pair<LayerIndex, TreeSupportElement*>>& linear_data, std::vector<std::vector<std::pair<LayerIndex, Shape>>>& dropped_down_areas, const std::map<TreeSupportElement*, TreeSupportElement*>& inverse_tree_order)
{
    cura::parallel_for<size_t>(
        0,
        linear_data.size(),
        [&](const size_t idx)
        {
            TreeSupportElement* elem = linear_data[idx].second;
            bool non_gracious_model_contact = ! elem->to_model_gracious_ && ! inverse_tree_order.count(elem) && linear_data[idx].first > 0
                                           && ! elem->to_buildplate_; 
            if (non_gracious_model_contact)
            {
                std::vector<std::pair<LayerIndex, Shape>>& dropped_down_area = dropped_down_areas[idx];
                Shape rest_support = layer_tree_polygons[linear_data[idx].first][elem].intersection(self.volumes_.getAccumulatedPlaceable0(linear_data[idx].first));
                for (LayerIndex counter = 1; rest_support.area() > 1 && counter < linear_data[idx].first && ! rest_support.empty(); ++counter)
                {
                    const LayerIndex layer_index = linear_data[idx].first - counter;
                    rest_support = rest_support.difference(self.volumes_.getCollision(0, layer_index));
                    for (const Shape& layer_tree_polygon : layer_tree_polygons[layer_index] | ranges::views::values)
                    {
                        rest_support = rest_support.difference(layer_tree_polygon.offset(-EPSILON));
                    }
                    dropped_down_area.emplace_back(layer_index, rest_support);
                }
                if (! rest_support.empty())
                {
                    rest_support = rest_support.offset(EPSILON);
                    for (Shape& dropped_area_on_layer : dropped_down_area | ranges::views::values)
                    {
                        dropped_area_on_layer = dropped_area_on_layer.difference(rest_support);
                    }
                }
            }
        });
}

//= cura::TreeSupport::filterFloatingLines
void r16(cura::TreeSupport& self, std::vector<Shape>& support_layer_storage)
{
    const auto t_start = std::chrono::high_resolution_clock::now();
    const coord_t closing_dist = self.config.support_wall_thickness;
    const coord_t open_close_distance = self.config.fill_outline_gaps ? self.config.min_feature_size / 2 - 5 : self.config.min_wall_line_width / 2 - 5; 
    const double small_area_length = INT2MM(static_cast<double>(self.config.support_line_width) / 2);
    std::function<void(Shape&)> reversePolygon = [&](Shape& poly)
    {
        for (size_t idx = 0; idx < poly.size(); idx++)
        {
            poly[idx].reverse();
        }
    };
    std::vector<Shape> support_holes(support_layer_storage.size(), Shape());
    cura::parallel_for<coord_t>(
        0,
        support_layer_storage.size(),
        [&](const LayerIndex layer_idx)
        {
            support_layer_storage[layer_idx] = self.config.simplifier.polygon(PolygonUtils::unionManySmall(support_layer_storage[layer_idx].smooth(FUDGE_LENGTH)))
                                                   .offset(-open_close_distance)
                                                   .offset(open_close_distance * 2)
                                                   .offset(-open_close_distance);
            support_layer_storage[layer_idx].removeSmallAreas(small_area_length * small_area_length, false);
            std::vector<Shape> parts = support_layer_storage[layer_idx].sortByNesting();
            if (parts.size() <= 1)
            {
                return;
            }
            Shape holes_original;
            for (const size_t idx : ranges::views::iota(1UL, parts.size()))
            {
                Shape area = parts[idx];
                reversePolygon(area);
                holes_original.push_back(area);
            }
            support_holes[layer_idx] = holes_original;
        });
    const auto t_union = std::chrono::high_resolution_clock::now();
    std::vector<std::vector<Shape>> holeparts(support_layer_storage.size());
    cura::parallel_for<coord_t>(
        0,
        support_layer_storage.size(),
        [&](const LayerIndex layer_idx)
        {
            for (Shape hole : support_holes[layer_idx].splitIntoParts())
            {
                holeparts[layer_idx].emplace_back(hole);
            }
        });
    std::vector<std::map<size_t, std::vector<size_t>>> hole_rest_map(holeparts.size());
    std::vector<std::set<size_t>> holes_resting_outside(holeparts.size());
    cura::parallel_for<coord_t>(
        1,
        support_layer_storage.size(),
        [&](const LayerIndex layer_idx)
        {
            if (holeparts[layer_idx].empty())
            {
                return;
            }
            const Shape& relevant_forbidden = self.volumes_.getCollision(0, layer_idx, true);
            Shape outer_walls = support_layer_storage[layer_idx - 1].getOutsidePolygons().createTubeShape(closing_dist, 0);
            Shape holes_below;
            for (auto poly : holeparts[layer_idx - 1])
            {
                holes_below.push_back(poly);
            }
            for (auto [idx, hole] : holeparts[layer_idx] | ranges::views::enumerate)
            {
                AABB hole_aabb = AABB(hole);
                hole_aabb.expand(EPSILON);
                if (hole.size() > 1)
                {
                    holes_resting_outside[layer_idx].emplace(idx);
                }
                else if (! hole.intersection(PolygonUtils::clipPolygonWithAABB(outer_walls, hole_aabb)).empty())
                {
                    holes_resting_outside[layer_idx].emplace(idx);
                }
                else if (! hole.intersection(PolygonUtils::clipPolygonWithAABB(relevant_forbidden, hole_aabb)).offset(-self.config.xy_min_distance / 2).empty())
                {
                    holes_resting_outside[layer_idx].emplace(idx);
                }
                else
                {
                    for (auto [idx2, hole2] : holeparts[layer_idx - 1] | ranges::views::enumerate)
                    {
                        if (hole_aabb.hit(AABB(hole2)) && ! hole.intersection(PolygonUtils::clipPolygonWithAABB(hole2, hole_aabb)).empty())
                        {
                            hole_rest_map[layer_idx][idx].emplace_back(idx2);
                        }
                    }
                }
            }
        });
    const auto t_hole_rest_ordering = std::chrono::high_resolution_clock::now();
    std::unordered_set<size_t> removed_holes_by_idx;
    std::vector<Shape> valid_holes(support_holes.size(), Shape());
    for (const size_t layer_idx : ranges::views::iota(1UL, support_holes.size()))
    {
        std::unordered_set<size_t> next_removed_holes_by_idx;
        for (auto [idx, hole] : holeparts[layer_idx] | ranges::views::enumerate)
        {
            bool found = false;
            if (holes_resting_outside[layer_idx].contains(idx))
            {
                found = true;
            }
            else
            {
                if (hole_rest_map[layer_idx].contains(idx))
                {
                    for (size_t resting_idx : hole_rest_map[layer_idx][idx])
                    {
                        if (! removed_holes_by_idx.contains(resting_idx))
                        {
                            found = true;
                            break;
                        }
                    }
                }
            }
            if (! found)
            {
                next_removed_holes_by_idx.emplace(idx);
            }
            else
            {
                valid_holes[layer_idx].push_back(hole);
                holeparts[layer_idx][idx] = Shape(); 
            }
        }
        removed_holes_by_idx = next_removed_holes_by_idx;
    }
    const auto t_hole_removal_tagging = std::chrono::high_resolution_clock::now();
    cura::parallel_for<coord_t>(
        1,
        support_layer_storage.size(),
        [&](const LayerIndex layer_idx)
        {
            if (holeparts[layer_idx].empty())
            {
                return;
            }
            support_layer_storage[layer_idx] = support_layer_storage[layer_idx].getOutsidePolygons();
            reversePolygon(valid_holes[layer_idx]);
            support_layer_storage[layer_idx].push_back(valid_holes[layer_idx]);
        });
    const auto t_end = std::chrono::high_resolution_clock::now();
    const auto dur_union = 0.001 * std::chrono::duration_cast<std::chrono::microseconds>(t_union - t_start).count();
    const auto dur_hole_rest_ordering = 0.001 * std::chrono::duration_cast<std::chrono::microseconds>(t_hole_rest_ordering - t_union).count();
    const auto dur_hole_removal_tagging = 0.001 * std::chrono::duration_cast<std::chrono::microseconds>(t_hole_removal_tagging - t_hole_rest_ordering).count();
    const auto dur_hole_removal = 0.001 * std::chrono::duration_cast<std::chrono::microseconds>(t_end - t_hole_removal_tagging).count();
}

//= cura::TreeSupport::finalizeInterfaceAndSupportAreas
namespace n17
{
using CenterGrid = cura::TreeSupport::CenterGrid;
void r17(cura::TreeSupport& self, std::vector<Shape>& support_layer_storage, std::vector<Shape>& support_roof_storage, std::vector<Shape>& support_layer_storage_fractional, const CenterGrid& center_locator_per_layer, SliceDataStorage& storage)
{
    InterfacePreference interface_pref = self.config.interface_preference; 
    double progress_total = TREE_PROGRESS_PRECALC_AVO + TREE_PROGRESS_PRECALC_COLL + TREE_PROGRESS_GENERATE_NODES + TREE_PROGRESS_AREA_CALC + TREE_PROGRESS_GENERATE_BRANCH_AREAS
                          + TREE_PROGRESS_SMOOTH_BRANCH_AREAS;
    std::mutex critical_sections;
    cura::parallel_for<coord_t>(
        0,
        support_layer_storage.size(),
        [&](const LayerIndex layer_idx)
        {
            Shape fake_roof_lines;
            for (FakeRoofArea& f_roof : self.fake_roof_areas[layer_idx])
            {
                fake_roof_lines.push_back(
                    TreeSupportUtils::generateSupportInfillLines(f_roof.area_, self.config, false, layer_idx, f_roof.line_distance_, storage.support.cross_fill_provider, false)
                        .offset(self.config.support_line_width / 2));
            }
            fake_roof_lines = fake_roof_lines.unionPolygons();
            support_layer_storage[layer_idx] = support_layer_storage[layer_idx].difference(fake_roof_lines);
            storage.support.supportLayers[layer_idx].support_roof = storage.support.supportLayers[layer_idx].support_roof.unionPolygons(support_roof_storage[layer_idx]);
            if (! storage.support.supportLayers[layer_idx].support_roof.empty()
                && support_layer_storage[layer_idx].intersection(storage.support.supportLayers[layer_idx].support_roof).area() > 1)
            {
                switch (interface_pref)
                {
                case InterfacePreference::INTERFACE_AREA_OVERWRITES_SUPPORT:
                    support_layer_storage[layer_idx] = support_layer_storage[layer_idx].difference(storage.support.supportLayers[layer_idx].support_roof);
                    break;
                case InterfacePreference::SUPPORT_AREA_OVERWRITES_INTERFACE:
                    storage.support.supportLayers[layer_idx].support_roof = storage.support.supportLayers[layer_idx].support_roof.difference(support_layer_storage[layer_idx]);
                    break;
                case InterfacePreference::INTERFACE_LINES_OVERWRITE_SUPPORT:
                {
                    Shape interface_lines = TreeSupportUtils::generateSupportInfillLines(
                                                storage.support.supportLayers[layer_idx].support_roof,
                                                self.config,
                                                true,
                                                layer_idx,
                                                self.config.support_roof_line_distance,
                                                storage.support.cross_fill_provider,
                                                true)
                                                .offset(self.config.support_roof_line_width / 2);
                    support_layer_storage[layer_idx] = support_layer_storage[layer_idx].difference(interface_lines);
                }
                break;
                case InterfacePreference::SUPPORT_LINES_OVERWRITE_INTERFACE:
                {
                    Shape tree_lines;
                    tree_lines = tree_lines.unionPolygons(TreeSupportUtils::generateSupportInfillLines(
                                                              support_layer_storage[layer_idx],
                                                              self.config,
                                                              false,
                                                              layer_idx,
                                                              self.config.support_line_distance,
                                                              storage.support.cross_fill_provider,
                                                              true)
                                                              .offset(self.config.support_line_width / 2));
                    storage.support.supportLayers[layer_idx].support_roof = storage.support.supportLayers[layer_idx].support_roof.difference(tree_lines);
                }
                break;
                case InterfacePreference::NOTHING:
                    break;
                }
            }
            if (self.config.support_bottom_layers > 0 && ! support_layer_storage[layer_idx].empty())
            {
                Shape floor_layer = storage.support.supportLayers[layer_idx].support_bottom;
                Shape layer_outset = support_layer_storage[layer_idx].offset(self.config.support_bottom_offset).difference(self.volumes_.getCollision(0, layer_idx, false));
                size_t layers_below = 0;
                while (layers_below <= self.config.support_bottom_layers)
                {
                    const size_t sample_layer
                        = static_cast<size_t>(std::max(0, (static_cast<int>(layer_idx) - static_cast<int>(layers_below)) - static_cast<int>(self.config.z_distance_bottom_layers)));
                    constexpr bool no_support = false;
                    constexpr bool no_prime_tower = false;
                    floor_layer.push_back(layer_outset.intersection(storage.getLayerOutlines(sample_layer, no_support, no_prime_tower)));
                    if (layers_below < self.config.support_bottom_layers)
                    {
                        layers_below = std::min(layers_below + 1UL, self.config.support_bottom_layers);
                    }
                    else
                    {
                        break;
                    }
                }
                floor_layer = floor_layer.unionPolygons();
                storage.support.supportLayers[layer_idx].support_bottom = storage.support.supportLayers[layer_idx].support_bottom.unionPolygons(floor_layer);
                support_layer_storage[layer_idx] = support_layer_storage[layer_idx].difference(floor_layer.offset(10)); 
            }
        });
    cura::parallel_for<coord_t>(
        0,
        support_layer_storage.size(),
        [&](const LayerIndex layer_idx)
        {
            constexpr bool convert_every_part = true; 
            const auto* center_locator = center_locator_per_layer[layer_idx].get();
            for (const SingleShape& support_part : support_layer_storage[layer_idx].splitIntoParts())
            {
                SparsePointGridInclusive<coord_t>::Elem nearest;
                const AABB aabb(support_part);
                const coord_t search_radius = EPSILON + std::max(aabb.width(), aabb.height()) / 2;
                const auto located_data = center_locator->getNearby(aabb.getMiddle(), search_radius);
                const std::pair<float, float> total_area_width = std::accumulate(
                    located_data.begin(),
                    located_data.end(),
                    std::make_pair(0.f, 0.f),
                    [&support_part](const auto& res, const auto& elem)
                    {
                        return support_part.inside(elem.point) ? std::make_pair((elem.val.first * elem.val.second) + res.first, elem.val.second + res.second) : res;
                    });
                const auto weighted_average = static_cast<coord_t>(total_area_width.first / std::max(1.f, total_area_width.second));
                const auto wall_thickness = std::clamp(weighted_average, self.config.support_wall_thickness, self.config.support_enlarged_wall_thickness);
                storage.support.supportLayers[layer_idx].fillInfillParts(support_part, self.config.support_line_width, wall_thickness, false, convert_every_part);
            }
            Shape fractional_support;
            if (layer_idx > 0)
            {
                fractional_support = support_layer_storage_fractional[layer_idx].intersection(support_layer_storage[layer_idx - 1]);
            }
            else
            {
                fractional_support = support_layer_storage_fractional[layer_idx];
            }
            storage.support.supportLayers[layer_idx].fillInfillParts(fractional_support, self.config.support_line_width, self.config.support_wall_thickness, true, convert_every_part);
            for (FakeRoofArea& fake_roof : self.fake_roof_areas[layer_idx])
            {
                storage.support.supportLayers[layer_idx]
                    .fillInfillParts(fake_roof.area_, self.config.support_line_width, 0, fake_roof.fractional_, convert_every_part, fake_roof.line_distance_);
            }
            {
                std::lock_guard<std::mutex> critical_section_progress(critical_sections);
                progress_total += TREE_PROGRESS_FINALIZE_BRANCH_AREAS / support_layer_storage.size();
                Progress::messageProgress(Progress::Stage::SUPPORT, progress_total * self.progress_multiplier + self.progress_offset, TREE_PROGRESS_TOTAL);
            }
            {
                std::lock_guard<std::mutex> critical_section_storage(critical_sections);
                if (! storage.support.supportLayers[layer_idx].support_infill_parts.empty() || ! storage.support.supportLayers[layer_idx].support_roof.empty())
                {
                    storage.support.layer_nr_max_filled_layer = std::max(storage.support.layer_nr_max_filled_layer, static_cast<int>(layer_idx));
                }
            }
        });
}
} // namespace n17

//= cura::TreeSupport::drawAreas
namespace n18
{
using CenterGrid = cura::TreeSupport::CenterGrid;
void r18(cura::TreeSupport& self, std::vector<std::set<TreeSupportElement*>>& move_bounds, SliceDataStorage& storage)
{
    std::vector<Shape> support_layer_storage(move_bounds.size());
    std::vector<Shape> support_layer_storage_fractional(move_bounds.size());
    std::vector<Shape> support_roof_storage_fractional(move_bounds.size());
    std::vector<Shape> support_roof_storage(move_bounds.size());
    std::map<TreeSupportElement*, TreeSupportElement*>
        inverse_tree_order; 
    std::vector<std::pair<LayerIndex, TreeSupportElement*>>
        linear_data; 
    for (const auto layer_idx : ranges::views::iota(0UL, move_bounds.size()))
    {
        for (TreeSupportElement* elem : move_bounds[layer_idx])
        {
            if ((layer_idx > 0
                 && ((! inverse_tree_order.count(elem) && elem->target_height_ == layer_idx && self.config.min_dtt_to_model > 0 && ! elem->to_buildplate_)
                     || (inverse_tree_order.count(elem) && inverse_tree_order[elem]->result_on_layer_ == Point2LL(-1, -1)))))
            {
                continue;
            }
            for (TreeSupportElement* par : elem->parents_)
            {
                if (par->result_on_layer_ == Point2LL(-1, -1))
                {
                    continue;
                }
                inverse_tree_order.emplace(par, elem);
            }
            linear_data.emplace_back(layer_idx, elem);
        }
    }
    std::vector<std::unordered_map<TreeSupportElement*, Shape>> layer_tree_polygons(move_bounds.size());
    const auto t_start = std::chrono::high_resolution_clock::now();
    self.generateBranchAreas(linear_data, layer_tree_polygons, inverse_tree_order);
    const auto t_generate = std::chrono::high_resolution_clock::now();
    self.smoothBranchAreas(layer_tree_polygons);
    const auto t_smooth = std::chrono::high_resolution_clock::now();
    std::vector<std::vector<std::pair<LayerIndex, Shape>>> dropped_down_areas(linear_data.size());
    self.dropNonGraciousAreas(layer_tree_polygons, linear_data, dropped_down_areas, inverse_tree_order);
    const auto t_drop = std::chrono::high_resolution_clock::now();
    for (const coord_t i : ranges::views::iota(0UL, dropped_down_areas.size()))
    {
        for (std::pair<LayerIndex, Shape> pair : dropped_down_areas[i])
        {
            support_layer_storage[pair.first].push_back(pair.second);
        }
    }
    CenterGrid center_locator_per_layer(move_bounds.size());
    cura::parallel_for<size_t>(
        0,
        center_locator_per_layer.size(),
        [&](const size_t layer_idx)
        {
            center_locator_per_layer[layer_idx] = std::make_unique<SparsePointGridInclusive<std::pair<coord_t, float>>>(self.config.branch_radius * 2 + EPSILON);
            auto* center_locator = center_locator_per_layer[layer_idx].get();
            for (const auto& elem : move_bounds[layer_idx])
            {
                const float lerp_mul = static_cast<float>(std::min(
                                           self.config.support_wall_thickness_layer_smooth,
                                           std::max(
                                               self.config.support_wall_thickness_bottom_layers - static_cast<coord_t>(layer_idx),
                                               self.config.support_wall_thickness_top_layers - static_cast<coord_t>(elem->distance_to_top_))))
                                     / std::max(coord_t{ 1 }, self.config.support_wall_thickness_layer_smooth);
                const coord_t nominal_wall_width
                    = std::lerp(self.config.support_enlarged_wall_thickness, std::max(coord_t{ EPSILON }, self.config.support_wall_thickness), std::clamp(lerp_mul, 0.f, 1.f));
                const auto center = (elem->result_on_layer_.X >= 0 && elem->result_on_layer_.Y >= 0) ? elem->result_on_layer_ : elem->target_position_;
                center_locator->insert(center, { nominal_wall_width, elem->area_->area() });
            }
        });
    cura::parallel_for<size_t>(
        0,
        layer_tree_polygons.size(),
        [&](const size_t layer_idx)
        {
            for (std::pair<TreeSupportElement*, Shape> data_pair : layer_tree_polygons[layer_idx])
            {
                if (data_pair.first->missing_roof_layers_ > data_pair.first->distance_to_top_
                    && TreeSupportUtils::generateSupportInfillLines(data_pair.second, self.config, true, layer_idx, self.config.support_roof_line_distance, nullptr, true).empty())
                {
                    std::vector<TreeSupportElement*> to_disable_roofs;
                    to_disable_roofs.emplace_back(data_pair.first);
                    while (! to_disable_roofs.empty())
                    {
                        std::vector<TreeSupportElement*> to_disable_roofs_next;
                        for (TreeSupportElement* elem : to_disable_roofs)
                        {
                            elem->missing_roof_layers_ = 0;
                            if (data_pair.first->missing_roof_layers_ > data_pair.first->distance_to_top_ + 1)
                            {
                                to_disable_roofs_next.emplace_back(inverse_tree_order[elem]);
                            }
                        }
                        to_disable_roofs = to_disable_roofs_next;
                    }
                }
            }
        });
    cura::parallel_for<size_t>(
        0,
        layer_tree_polygons.size(),
        [&](const size_t layer_idx)
        {
            for (std::pair<TreeSupportElement*, Shape> data_pair : layer_tree_polygons[layer_idx])
            {
                if (data_pair.first->parents_.empty() && ! data_pair.first->supports_roof_ && layer_idx + 1 < support_roof_storage_fractional.size()
                    && self.config.z_distance_top % self.config.layer_height > 0)
                {
                    if (data_pair.first->missing_roof_layers_ > data_pair.first->distance_to_top_)
                    {
                        support_roof_storage_fractional[layer_idx + 1].push_back(data_pair.second);
                    }
                    else
                    {
                        support_layer_storage_fractional[layer_idx + 1].push_back(data_pair.second);
                    }
                }
                ((data_pair.first->missing_roof_layers_ > data_pair.first->distance_to_top_) ? support_roof_storage : support_layer_storage)[layer_idx].push_back(data_pair.second);
            }
            if (layer_idx + 1 < support_roof_storage_fractional.size())
            {
                support_roof_storage_fractional[layer_idx + 1] = support_roof_storage_fractional[layer_idx + 1].unionPolygons();
                support_layer_storage_fractional[layer_idx + 1] = support_layer_storage_fractional[layer_idx + 1].unionPolygons();
            }
        });
    for (const auto layer_idx : ranges::views::iota(0UL, self.additional_required_support_area.size()))
    {
        if (support_layer_storage.size() > layer_idx)
        {
            support_layer_storage[layer_idx].push_back(self.additional_required_support_area[layer_idx]);
        }
        scripta::log("tree_support_layer_storage", support_layer_storage[layer_idx], SectionType::SUPPORT, layer_idx);
    }
    self.filterFloatingLines(support_layer_storage);
    const auto t_filter = std::chrono::high_resolution_clock::now();
    self.finalizeInterfaceAndSupportAreas(support_layer_storage, support_roof_storage, support_layer_storage_fractional, center_locator_per_layer, storage);
    const auto t_end = std::chrono::high_resolution_clock::now();
    const auto dur_gen_tips = 0.001 * std::chrono::duration_cast<std::chrono::microseconds>(t_generate - t_start).count();
    const auto dur_smooth = 0.001 * std::chrono::duration_cast<std::chrono::microseconds>(t_smooth - t_generate).count();
    const auto dur_drop = 0.001 * std::chrono::duration_cast<std::chrono::microseconds>(t_drop - t_smooth).count();
    const auto dur_filter = 0.001 * std::chrono::duration_cast<std::chrono::microseconds>(t_filter - t_drop).count();
    const auto dur_finalize = 0.001 * std::chrono::duration_cast<std::chrono::microseconds>(t_end - t_filter).count();
}
} // namespace n18

//= cura::TreeSupport::saveToObj
void r19(const cura::TreeSupport& self, const std::vector<std::set<TreeSupportElement*>>& move_bounds, OBJ& obj)
{
    for (const auto [layer_index, elements] : move_bounds | ranges::views::enumerate)
    {
        const coord_t z = layer_index * self.config.layer_height;
        for (const TreeSupportElement* element : elements)
        {
            element->saveToObj(obj, z, self.config.layer_height);
            obj.writeSphere(Point3D(Point3LL(element->result_on_layer_, z), 1.0), self.config.layer_height / 2.0, SVG::Color::RED);
        }
    }
}

//= cura::TreeSupportElement::TreeSupportElement
void r21(cura::TreeSupportElement& self, const TreeSupportElement& elem, Shape* newArea)
{
        member(self.target_height_) = elem.target_height_;
        member(self.target_position_) = elem.target_position_;
        member(self.next_position_) = elem.next_position_;
        member(self.next_height_) = elem.next_height_;
        member(self.effective_radius_height_) = elem.effective_radius_height_;
        member(self.to_buildplate_) = elem.to_buildplate_;
        member(self.distance_to_top_) = elem.distance_to_top_;
        member(self.area_) = newArea != nullptr ? newArea : elem.area_;
        member(self.result_on_layer_) = elem.result_on_layer_;
        member(self.increased_to_model_radius_) = elem.increased_to_model_radius_;
        member(self.to_model_gracious_) = elem.to_model_gracious_;
        member(self.buildplate_radius_increases_) = elem.buildplate_radius_increases_;
        member(self.use_min_xy_dist_) = elem.use_min_xy_dist_;
        member(self.supports_roof_) = elem.supports_roof_;
        member(self.dont_move_until_) = elem.dont_move_until_;
        member(self.can_use_safe_radius_) = elem.can_use_safe_radius_;
        member(self.last_area_increase_) = elem.last_area_increase_;
        member(self.missing_roof_layers_) = elem.missing_roof_layers_;
        member(self.skip_ovalisation_) = elem.skip_ovalisation_;
        member(self.all_tips_) = elem.all_tips_;
        member(self.influence_area_limit_active_) = elem.influence_area_limit_active_;
        member(self.influence_area_limit_range_) = elem.influence_area_limit_range_;
        member(self.influence_area_limit_area_) = elem.influence_area_limit_area_;
    self.parents_.insert(self.parents_.begin(), elem.parents_.begin(), elem.parents_.end());
}

//= cura::TreeSupportElement::TreeSupportElement
void r22(cura::TreeSupportElement& self, TreeSupportElement* element_above)
{
        member(self.target_height_) = element_above->target_height_;
        member(self.target_position_) = element_above->target_position_;
        member(self.next_position_) = element_above->next_position_;
        member(self.next_height_) = element_above->next_height_;
        member(self.effective_radius_height_) = element_above->effective_radius_height_;
        member(self.to_buildplate_) = element_above->to_buildplate_;
        member(self.distance_to_top_) = element_above->distance_to_top_ + 1;
        member(self.area_) = element_above->area_;
        member(self.result_on_layer_) = {Point2LL(-1, -1)};
        member(self.increased_to_model_radius_) = element_above->increased_to_model_radius_;
        member(self.to_model_gracious_) = element_above->to_model_gracious_;
        member(self.buildplate_radius_increases_) = element_above->buildplate_radius_increases_;
        member(self.use_min_xy_dist_) = element_above->use_min_xy_dist_;
        member(self.supports_roof_) = element_above->supports_roof_;
        member(self.dont_move_until_) = element_above->dont_move_until_;
        member(self.can_use_safe_radius_) = element_above->can_use_safe_radius_;
        member(self.last_area_increase_) = element_above->last_area_increase_;
        member(self.missing_roof_layers_) = element_above->missing_roof_layers_;
        member(self.skip_ovalisation_) = false;
        member(self.all_tips_) = element_above->all_tips_;
        member(self.influence_area_limit_active_) = element_above->influence_area_limit_active_;
        member(self.influence_area_limit_range_) = element_above->influence_area_limit_range_;
        member(self.influence_area_limit_area_) = element_above->influence_area_limit_area_;
    self.parents_ = { element_above };
}

//= cura::TreeSupportElement::TreeSupportElement
void r23(cura::TreeSupportElement& self, const TreeSupportElement& first, const TreeSupportElement& second, size_t next_height, Point2LL next_position, coord_t increased_to_model_radius, const std::function<coord_t(size_t, double)>& getRadius, double diameter_scale_bp_radius, coord_t branch_radius, double diameter_angle_scale_factor)
{
        member(self.next_position_) = next_position;
        member(self.next_height_) = next_height;
        member(self.area_) = nullptr;
        member(self.increased_to_model_radius_) = increased_to_model_radius;
        member(self.use_min_xy_dist_) = first.use_min_xy_dist_ || second.use_min_xy_dist_;
        member(self.supports_roof_) = first.supports_roof_ || second.supports_roof_;
        member(self.dont_move_until_) = {std::max(first.dont_move_until_, second.dont_move_until_)};
        member(self.can_use_safe_radius_) = first.can_use_safe_radius_ || second.can_use_safe_radius_;
        member(self.missing_roof_layers_) = {std::min(first.missing_roof_layers_, second.missing_roof_layers_)};
        member(self.skip_ovalisation_) = false;
    if (first.target_height_ > second.target_height_)
    {
        self.target_height_ = first.target_height_;
        self.target_position_ = first.target_position_;
    }
    else
    {
        self.target_height_ = second.target_height_;
        self.target_position_ = second.target_position_;
    }
    self.effective_radius_height_ = std::max(first.effective_radius_height_, second.effective_radius_height_);
    self.distance_to_top_ = std::max(first.distance_to_top_, second.distance_to_top_);
    self.to_buildplate_ = first.to_buildplate_ && second.to_buildplate_;
    self.to_model_gracious_ = first.to_model_gracious_ && second.to_model_gracious_; 
    self.AddParents(first.parents_);
    self.AddParents(second.parents_);
    self.buildplate_radius_increases_ = 0;
    if (diameter_scale_bp_radius > 0)
    {
        const coord_t foot_increase_radius = std::abs(
            std::max(getRadius(second.effective_radius_height_, second.buildplate_radius_increases_), getRadius(first.effective_radius_height_, first.buildplate_radius_increases_))
            - getRadius(self.effective_radius_height_, self.buildplate_radius_increases_));
        self.buildplate_radius_increases_ = foot_increase_radius / (branch_radius * (diameter_scale_bp_radius - diameter_angle_scale_factor));
    }
    self.last_area_increase_ = AreaIncreaseSettings(
        std::min(first.last_area_increase_.type_, second.last_area_increase_.type_),
        std::min(first.last_area_increase_.increase_speed_, second.last_area_increase_.increase_speed_),
        first.last_area_increase_.increase_radius_ || second.last_area_increase_.increase_radius_,
        first.last_area_increase_.no_error_ || second.last_area_increase_.no_error_,
        first.last_area_increase_.use_min_distance_ && second.last_area_increase_.use_min_distance_,
        first.last_area_increase_.move_ || second.last_area_increase_.move_);
    self.all_tips_ = first.all_tips_;
    self.all_tips_.insert(self.all_tips_.end(), second.all_tips_.begin(), second.all_tips_.end());
    self.influence_area_limit_range_ = std::max(first.influence_area_limit_range_, second.influence_area_limit_range_);
    self.influence_area_limit_active_ = first.influence_area_limit_active_ || second.influence_area_limit_active_;
    self.RecreateInfluenceLimitArea();
    if (first.to_buildplate_ != second.to_buildplate_)
    {
        self.setToBuildplateForAllParents(self.to_buildplate_);
    }
}

//= cura::TreeSupportElement::AddParents
void r24(cura::TreeSupportElement& self, const std::vector<TreeSupportElement*>& adding)
{
    for (TreeSupportElement* ptr : adding)
    {
        self.parents_.emplace_back(ptr);
    }
}

//= cura::TreeSupportElement::RecreateInfluenceLimitArea
void r25(cura::TreeSupportElement& self)
{
    if (self.influence_area_limit_active_)
    {
        self.influence_area_limit_area_.clear();
        for (Point2LL p : self.all_tips_)
        {
            Polygon circle;
            for (Point2LL corner : TreeSupportBaseCircle::getBaseCircle())
            {
                circle.push_back(p + corner * self.influence_area_limit_range_ / double(TreeSupportBaseCircle::base_radius));
            }
            if (self.influence_area_limit_area_.empty())
            {
                self.influence_area_limit_area_ = circle.offset(0);
            }
            else
            {
                self.influence_area_limit_area_ = self.influence_area_limit_area_.intersection(circle.offset(0));
            }
        }
    }
}

//= cura::TreeSupportElement::saveToObj
void r27(const cura::TreeSupportElement& self, OBJ& obj, const coord_t z, const coord_t layer_height)
{
    if (self.area_)
    {
        obj.write(*self.area_, z, layer_height, self.to_model_gracious_ ? SVG::Color::BLUE : SVG::Color::RED);
    }
}

//= cura::TreeSupportTipGenerator::convertLinesToInternal
namespace n29
{
using LineInformation = cura::TreeSupportTipGenerator::LineInformation;
using LineStatus = cura::TreeSupportTipGenerator::LineStatus;
std::vector<TreeSupportTipGenerator::LineInformation> r29(cura::TreeSupportTipGenerator& self, const OpenLinesSet& polylines, LayerIndex layer_idx)
{
    std::vector<LineInformation> result;
    for (const OpenPolyline& line : polylines)
    {
        LineInformation res_line;
        for (const Point2LL& p : line)
        {
            if (self.config_.support_rest_preference == RestPreference::BUILDPLATE
                && ! self.volumes_.getAvoidance(self.config_.getRadius(0), layer_idx, AvoidanceType::FAST_SAFE, false, ! self.xy_overrides_).inside(p, true))
            {
                res_line.emplace_back(p, LineStatus::TO_BP_SAFE);
            }
            else if (
                self.config_.support_rest_preference == RestPreference::BUILDPLATE
                && ! self.volumes_.getAvoidance(self.config_.getRadius(0), layer_idx, AvoidanceType::FAST, false, ! self.xy_overrides_).inside(p, true))
            {
                res_line.emplace_back(p, LineStatus::TO_BP);
            }
            else if (self.config_.support_rests_on_model && ! self.volumes_.getAvoidance(self.config_.getRadius(0), layer_idx, AvoidanceType::FAST_SAFE, true, ! self.xy_overrides_).inside(p, true))
            {
                res_line.emplace_back(p, LineStatus::TO_MODEL_GRACIOUS_SAFE);
            }
            else if (self.config_.support_rests_on_model && ! self.volumes_.getAvoidance(self.config_.getRadius(0), layer_idx, AvoidanceType::FAST, true, ! self.xy_overrides_).inside(p, true))
            {
                res_line.emplace_back(p, LineStatus::TO_MODEL_GRACIOUS);
            }
            else if (self.config_.support_rests_on_model && ! self.volumes_.getAvoidance(self.config_.getRadius(0), layer_idx, AvoidanceType::COLLISION, true, ! self.xy_overrides_).inside(p, true))
            {
                res_line.emplace_back(p, LineStatus::TO_MODEL);
            }
            else if (! res_line.empty())
            {
                result.emplace_back(res_line);
                res_line.clear();
            }
        }
        if (! res_line.empty())
        {
            result.emplace_back(res_line);
            res_line.clear();
        }
    }
    return result;
}
} // namespace n29

//= cura::TreeSupportTipGenerator::convertInternalToLines
namespace n30
{
using LineInformation = cura::TreeSupportTipGenerator::LineInformation;
OpenLinesSet r30(cura::TreeSupportTipGenerator& self, std::vector<TreeSupportTipGenerator::LineInformation> lines)
{
    OpenLinesSet result;
    for (const LineInformation& line : lines)
    {
        OpenPolyline path;
        for (const auto& point_data : line)
        {
            path.push_back(point_data.first);
        }
        result.push_back(path);
    }
    return result;
}
} // namespace n30

//= cura::TreeSupportTipGenerator::getEvaluatePointForNextLayerFunction
namespace n31
{
using LineStatus = cura::TreeSupportTipGenerator::LineStatus;
std::function<bool(std::pair<Point2LL, TreeSupportTipGenerator::LineStatus>)> r31(cura::TreeSupportTipGenerator& self, size_t current_layer)
{
    std::function<bool(std::pair<Point2LL, LineStatus>)> evaluatePoint = [&self, current_layer](std::pair<Point2LL, LineStatus> p)
    {
        if (self.config_.support_rest_preference != RestPreference::GRACEFUL
            && ! self.volumes_
                     .getAvoidance(
                         self.config_.getRadius(0),
                         current_layer - 1,
                         p.second == LineStatus::TO_BP_SAFE ? AvoidanceType::FAST_SAFE : AvoidanceType::FAST,
                         false,
                         ! self.xy_overrides_)
                     .inside(p.first, true))
        {
            return true;
        }
        if (self.config_.support_rests_on_model && (p.second != LineStatus::TO_BP && p.second != LineStatus::TO_BP_SAFE))
        {
            if (p.second == LineStatus::TO_MODEL_GRACIOUS || p.second == LineStatus::TO_MODEL_GRACIOUS_SAFE)
            {
                return ! self.volumes_
                             .getAvoidance(
                                 self.config_.getRadius(0),
                                 current_layer - 1,
                                 p.second == LineStatus::TO_MODEL_GRACIOUS_SAFE ? AvoidanceType::FAST_SAFE : AvoidanceType::FAST,
                                 true,
                                 ! self.xy_overrides_)
                             .inside(p.first, true);
            }
            else
            {
                return ! self.volumes_.getAvoidance(self.config_.getRadius(0), current_layer - 1, AvoidanceType::COLLISION, true, ! self.xy_overrides_).inside(p.first, true);
            }
        }
        return false;
    };
    return evaluatePoint;
}
} // namespace n31

//= cura::TreeSupportTipGenerator::splitLines
namespace n32
{
using LineInformation = cura::TreeSupportTipGenerator::LineInformation;
using LineStatus = cura::TreeSupportTipGenerator::LineStatus;
std::pair<std::vector<TreeSupportTipGenerator::LineInformation>, std::vector<TreeSupportTipGenerator::LineInformation>> r32(cura::TreeSupportTipGenerator& self, std::vector<TreeSupportTipGenerator::LineInformation> lines, std::function<bool(std::pair<Point2LL, TreeSupportTipGenerator::LineStatus>)> evaluatePoint)
{
    constexpr bool KEEPING = true;
    constexpr bool FREEING = false;
    std::vector<LineInformation> keep(1);
    std::vector<LineInformation> set_free(1);
    for (const std::vector<std::pair<Point2LL, LineStatus>>& line : lines)
    {
        auto current = KEEPING;
        LineInformation resulting_line;
        for (const std::pair<Point2LL, LineStatus>& me : line)
        {
            if (evaluatePoint(me) == (current == FREEING))
            {
                if (! resulting_line.empty())
                {
                    (current == KEEPING ? keep : set_free).emplace_back(resulting_line);
                    resulting_line.clear();
                }
                current = ! current;
            }
            resulting_line.emplace_back(me);
        }
        if (! resulting_line.empty())
        {
            (current == KEEPING ? keep : set_free).emplace_back(resulting_line);
        }
    }
    return std::pair<
        std::vector<std::vector<std::pair<Point2LL, TreeSupportTipGenerator::LineStatus>>>,
        std::vector<std::vector<std::pair<Point2LL, TreeSupportTipGenerator::LineStatus>>>>(keep, set_free);
}
} // namespace n32

//= cura::TreeSupportTipGenerator::generateCrossFillProvider
std::shared_ptr<SierpinskiFillProvider> r34(const cura::TreeSupportTipGenerator& self, const SliceMeshStorage& mesh, coord_t line_distance, coord_t line_width)
{
    if (self.config_.support_pattern == EFillMethod::CROSS || self.config_.support_pattern == EFillMethod::CROSS_3D)
    {
        AABB3D aabb;
        if (! mesh.isModelMesh())
        {
            return nullptr;
        }
        const coord_t aabb_expansion = mesh.settings.get<coord_t>("support_offset");
        AABB3D aabb_here(mesh.bounding_box);
        aabb_here.include(aabb_here.min_ - Point3LL(-aabb_expansion, -aabb_expansion, 0));
        aabb_here.include(aabb_here.max_ + Point3LL(-aabb_expansion, -aabb_expansion, 0));
        aabb.include(aabb_here);
        const std::string cross_subdisivion_spec_image_file = mesh.settings.get<std::string>("cross_support_density_image");
        std::ifstream cross_fs(cross_subdisivion_spec_image_file.c_str());
        if (cross_subdisivion_spec_image_file != "" && cross_fs.good())
        {
            return std::make_shared<SierpinskiFillProvider>(aabb, line_distance, line_width, cross_subdisivion_spec_image_file);
        }
        return std::make_shared<SierpinskiFillProvider>(aabb, line_distance, line_width);
    }
    return nullptr;
}

//= cura::TreeSupportTipGenerator::dropOverhangAreas
void r35(cura::TreeSupportTipGenerator& self, const SliceMeshStorage& mesh, std::vector<Shape>& result, bool roof)
{
    std::mutex critical;
    cura::parallel_for<coord_t>(
        1,
        mesh.overhang_areas.size() - self.z_distance_delta_,
        [&](const LayerIndex layer_idx)
        {
            if (mesh.overhang_areas[layer_idx + self.z_distance_delta_].empty() || result.size() < layer_idx)
            {
                return; 
            }
            Shape relevant_forbidden = self.volumes_.getCollision(roof ? 0 : self.config_.getRadius(0), layer_idx, ! self.xy_overrides_);
            Shape model_outline = self.volumes_.getCollision(0, layer_idx, ! self.xy_overrides_).offset(-self.config_.xy_min_distance, ClipperLib::jtRound);
            Shape overhang_regular = TreeSupportUtils::safeOffsetInc(
                mesh.overhang_areas[layer_idx + self.z_distance_delta_],
                roof ? self.roof_outset_ : self.support_outset_,
                relevant_forbidden,
                self.config_.min_radius * 1.75 + self.config_.xy_min_distance,
                0,
                1,
                self.config_.support_line_distance / 2,
                &self.config_.simplifier);
            Shape remaining_overhang = mesh.overhang_areas[layer_idx + self.z_distance_delta_]
                                           .offset(roof ? self.roof_outset_ : self.support_outset_)
                                           .difference(overhang_regular)
                                           .intersection(relevant_forbidden)
                                           .difference(model_outline);
            for (size_t lag_ctr = 1; lag_ctr <= self.max_overhang_insert_lag_ && layer_idx - coord_t(lag_ctr) >= 1 && ! remaining_overhang.empty(); lag_ctr++)
            {
                {
                    std::lock_guard<std::mutex> critical_section_storage(critical);
                    result[layer_idx - lag_ctr].push_back(remaining_overhang);
                }
                Shape relevant_forbidden_below = self.volumes_.getCollision(roof ? 0 : self.config_.getRadius(0), layer_idx - lag_ctr, ! self.xy_overrides_).offset(EPSILON);
                remaining_overhang = remaining_overhang.intersection(relevant_forbidden_below).unionPolygons().difference(model_outline);
            }
        });
    cura::parallel_for<coord_t>(
        0,
        result.size(),
        [&](const LayerIndex layer_idx)
        {
            result[layer_idx] = result[layer_idx].unionPolygons();
        });
}

//= cura::TreeSupportTipGenerator::calculateRoofAreas
void r36(cura::TreeSupportTipGenerator& self, const cura::SliceMeshStorage& mesh)
{
    std::vector<Shape> potential_support_roofs(mesh.overhang_areas.size(), Shape());
    std::mutex critical_potential_support_roofs;
    std::vector<Shape> dropped_overhangs(mesh.overhang_areas.size(), Shape());
    if (self.xy_overrides_)
    {
        self.dropOverhangAreas(mesh, dropped_overhangs, true);
    }
    cura::parallel_for<coord_t>(
        0,
        mesh.overhang_areas.size() - self.z_distance_delta_,
        [&](const LayerIndex layer_idx)
        {
            if (mesh.overhang_areas[layer_idx + self.z_distance_delta_].empty())
            {
                return; 
            }
            Shape forbidden_here = self.volumes_
                                       .getAvoidance(
                                           self.config_.getRadius(0),
                                           layer_idx,
                                           (self.only_gracious_ || ! self.config_.support_rests_on_model) ? AvoidanceType::FAST : AvoidanceType::COLLISION,
                                           self.config_.support_rests_on_model,
                                           ! self.xy_overrides_)
                                       .offset(-self.config_.getRadius(0), ClipperLib::jtRound);
            Shape full_overhang_area = TreeSupportUtils::safeOffsetInc(
                mesh.full_overhang_areas[layer_idx + self.z_distance_delta_].unionPolygons(dropped_overhangs[layer_idx]),
                self.roof_outset_,
                forbidden_here,
                self.config_.support_line_width,
                0,
                1,
                self.config_.support_line_distance / 2,
                &self.config_.simplifier);
            for (LayerIndex dtt_roof = 0; dtt_roof < self.support_roof_layers_ && layer_idx - dtt_roof >= 1; dtt_roof++)
            {
                const Shape forbidden_next = self.volumes_
                                                 .getAvoidance(
                                                     self.config_.getRadius(0),
                                                     layer_idx - (dtt_roof + 1),
                                                     (self.only_gracious_ || ! self.config_.support_rests_on_model) ? AvoidanceType::FAST : AvoidanceType::COLLISION,
                                                     self.config_.support_rests_on_model,
                                                     ! self.xy_overrides_)
                                                 .offset(-self.config_.getRadius(0), ClipperLib::jtRound);
                full_overhang_area = full_overhang_area.difference(forbidden_next);
                if (self.force_minimum_roof_area_)
                {
                    full_overhang_area.removeSmallAreas(self.minimum_roof_area_);
                }
                if (full_overhang_area.area() > EPSILON)
                {
                    std::lock_guard<std::mutex> critical_section_potential_support_roofs(critical_potential_support_roofs);
                    potential_support_roofs[layer_idx - dtt_roof].push_back((full_overhang_area));
                    if (dtt_roof == 0)
                    {
                        self.support_roof_drawn_fractional_[layer_idx].push_back(full_overhang_area);
                    }
                }
                else
                {
                    break;
                }
            }
        });
    cura::parallel_for<coord_t>(
        0,
        potential_support_roofs.size(),
        [&](const LayerIndex layer_idx)
        {
            potential_support_roofs[layer_idx] = potential_support_roofs[layer_idx]
                                                     .unionPolygons()
                                                     .offset(self.config_.xy_min_distance)
                                                     .unionPolygons()
                                                     .offset(-self.config_.xy_min_distance)
                                                     .unionPolygons(potential_support_roofs[layer_idx]);
        });
    std::vector<Shape> additional_support_roofs(mesh.overhang_areas.size(), Shape());
    cura::parallel_for<coord_t>(
        0,
        potential_support_roofs.size(),
        [&](const LayerIndex layer_idx)
        {
            if (! potential_support_roofs[layer_idx].empty())
            {
                Shape forbidden_here = self.volumes_
                                           .getAvoidance(
                                               self.config_.getRadius(0),
                                               layer_idx,
                                               (self.only_gracious_ || ! self.config_.support_rests_on_model) ? AvoidanceType::FAST : AvoidanceType::COLLISION,
                                               self.config_.support_rests_on_model,
                                               ! self.xy_overrides_)
                                           .offset(-(self.config_.getRadius(0)), ClipperLib::jtRound);
                if (! self.force_minimum_roof_area_)
                {
                    Shape fuzzy_area = Shape();
                    for (const LayerIndex layer_offset : ranges::views::iota(
                             -LayerIndex{ std::min(layer_idx, LayerIndex{ self.support_roof_layers_ }) },
                             LayerIndex{ std::min(LayerIndex{ potential_support_roofs.size() - layer_idx }, LayerIndex{ self.support_roof_layers_ + 1 }) }))
                    {
                        fuzzy_area.push_back(self.support_roof_drawn_[layer_idx + layer_offset]);
                        fuzzy_area.push_back(potential_support_roofs[layer_idx + layer_offset]);
                    }
                    fuzzy_area = fuzzy_area.unionPolygons();
                    fuzzy_area.removeSmallAreas(std::max(self.minimum_roof_area_, self.tip_roof_size_));
                    for (Shape potential_roof : potential_support_roofs[layer_idx].difference(forbidden_here).splitIntoParts())
                    {
                        if (! potential_roof.intersection(fuzzy_area).empty())
                        {
                            additional_support_roofs[layer_idx].push_back(potential_roof);
                        }
                    }
                }
                else
                {
                    Shape valid_roof = potential_support_roofs[layer_idx].difference(forbidden_here);
                    valid_roof.removeSmallAreas(std::max(self.minimum_roof_area_, self.tip_roof_size_));
                    additional_support_roofs[layer_idx].push_back(valid_roof);
                }
            }
        });
    cura::parallel_for<coord_t>(
        0,
        additional_support_roofs.size(),
        [&](const LayerIndex layer_idx)
        {
            self.support_roof_drawn_[layer_idx] = self.support_roof_drawn_[layer_idx].unionPolygons(additional_support_roofs[layer_idx]);
        });
}

//= cura::TreeSupportTipGenerator::addPointAsInfluenceArea
namespace n37
{
using LineStatus = cura::TreeSupportTipGenerator::LineStatus;
void r37(cura::TreeSupportTipGenerator& self, std::vector<std::set<TreeSupportElement*>>& move_bounds, std::pair<Point2LL, TreeSupportTipGenerator::LineStatus> p, size_t dtt, LayerIndex insert_layer, size_t dont_move_until, bool roof, bool skip_ovalisation, std::vector<Point2LL> additional_ovalization_targets)
{
    const bool to_bp = p.second == LineStatus::TO_BP || p.second == LineStatus::TO_BP_SAFE;
    const bool gracious = to_bp || p.second == LineStatus::TO_MODEL_GRACIOUS || p.second == LineStatus::TO_MODEL_GRACIOUS_SAFE;
    const bool safe_radius = p.second == LineStatus::TO_BP_SAFE || p.second == LineStatus::TO_MODEL_GRACIOUS_SAFE;
    if (! self.config_.support_rests_on_model && ! to_bp)
    {
        return;
    }
    Polygon circle;
    Polygon base_circle = TreeSupportBaseCircle::getBaseCircle();
    for (const Point2LL& corner : base_circle)
    {
        circle.push_back(p.first + corner);
    }
    Shape area = circle.offset(0);
    {
        std::lock_guard<std::mutex> critical_section_movebounds(self.critical_move_bounds_);
        if (! self.already_inserted_[insert_layer].count(p.first / ((self.config_.min_radius + 1) / 10)))
        {
            self.already_inserted_[insert_layer].emplace(p.first / ((self.config_.min_radius + 1) / 10));
            TreeSupportElement* elem = new TreeSupportElement(
                dtt,
                insert_layer,
                p.first,
                to_bp,
                gracious,
                ! self.xy_overrides_,
                dont_move_until,
                roof,
                safe_radius,
                ! roof && self.force_tip_to_roof_,
                skip_ovalisation,
                self.support_tree_limit_branch_reach_,
                self.support_tree_branch_reach_limit_);
            elem->area_ = new Shape(area);
            for (Point2LL target : additional_ovalization_targets)
            {
                elem->additional_ovalization_targets_.emplace_back(target);
            }
            move_bounds[insert_layer].emplace(elem);
        }
    }
}
} // namespace n37

//= cura::TreeSupportTipGenerator::addLinesAsInfluenceAreas
namespace n38
{
using LineInformation = cura::TreeSupportTipGenerator::LineInformation;
using LineStatus = cura::TreeSupportTipGenerator::LineStatus;
void r38(cura::TreeSupportTipGenerator& self, std::vector<std::set<TreeSupportElement*>>& move_bounds, std::vector<TreeSupportTipGenerator::LineInformation> lines, size_t roof_tip_layers, LayerIndex insert_layer_idx, bool supports_roof, size_t dont_move_until, bool connect_points)
{
    size_t dtt_roof_tip = 0;
    if (self.config_.support_roof_wall_count == 0)
    {
        for (dtt_roof_tip = 0; dtt_roof_tip < roof_tip_layers && insert_layer_idx - dtt_roof_tip >= 1; dtt_roof_tip++)
        {
            std::function<bool(std::pair<Point2LL, LineStatus>)> evaluateRoofWillGenerate = [&](std::pair<Point2LL, LineStatus> p)
            {
                Polygon roof_circle;
                for (const Point2LL& corner : TreeSupportBaseCircle::getBaseCircle())
                {
                    roof_circle.push_back(p.first + corner * std::max(self.config_.min_radius / TreeSupportBaseCircle::base_radius, coord_t(1)));
                }
                Shape area = roof_circle.offset(0);
                return ! TreeSupportUtils::generateSupportInfillLines(area, self.config_, true, insert_layer_idx - dtt_roof_tip, self.support_roof_line_distance_, self.cross_fill_provider_, true)
                             .empty();
            };
            std::pair<std::vector<TreeSupportTipGenerator::LineInformation>, std::vector<TreeSupportTipGenerator::LineInformation>> split
                = self.splitLines(lines, self.getEvaluatePointForNextLayerFunction(insert_layer_idx - dtt_roof_tip)); 
            for (LineInformation line : split.second) 
            {
                for (std::pair<Point2LL, TreeSupportTipGenerator::LineStatus> point_data : line)
                {
                    self.addPointAsInfluenceArea(move_bounds, point_data, 0, insert_layer_idx - dtt_roof_tip, roof_tip_layers - dtt_roof_tip, dtt_roof_tip != 0, false);
                }
            }
            split = self.splitLines(split.first, evaluateRoofWillGenerate);
            lines = split.first;
            for (LineInformation line : split.second)
            {
                for (std::pair<Point2LL, TreeSupportTipGenerator::LineStatus> point_data : line)
                {
                    self.addPointAsInfluenceArea(move_bounds, point_data, 0, insert_layer_idx - dtt_roof_tip, roof_tip_layers - dtt_roof_tip, dtt_roof_tip != 0, false);
                }
            }
            Shape added_roofs;
            for (LineInformation line : lines)
            {
                for (std::pair<Point2LL, TreeSupportTipGenerator::LineStatus> p : line)
                {
                    Polygon roof_circle;
                    for (const Point2LL& corner : TreeSupportBaseCircle::getBaseCircle())
                    {
                        roof_circle.push_back(p.first + corner * std::max(self.config_.min_radius / TreeSupportBaseCircle::base_radius, coord_t(1)));
                    }
                    added_roofs.push_back(roof_circle);
                }
            }
            added_roofs = added_roofs.unionPolygons();
            {
                std::lock_guard<std::mutex> critical_section_roof(self.critical_roof_tips_);
                self.roof_tips_drawn_[insert_layer_idx - dtt_roof_tip].push_back(added_roofs);
                if (dtt_roof_tip == 0)
                {
                    self.support_roof_drawn_fractional_[insert_layer_idx].push_back(added_roofs);
                }
            }
        }
    }
    for (LineInformation line : lines)
    {
        const bool disable_ovalization = ! connect_points && self.config_.min_radius < 3 * self.config_.support_line_width && roof_tip_layers == 0 && dtt_roof_tip == 0;
        for (auto [idx, point_data] : line | ranges::views::enumerate)
        {
            std::vector<Point2LL> additional_ovalization_targets;
            if (connect_points) 
            {
                if (idx != 0)
                {
                    additional_ovalization_targets.emplace_back(line[idx - 1].first);
                }
                if (idx != line.size() - 1)
                {
                    additional_ovalization_targets.emplace_back(line[idx + 1].first);
                }
            }
            self.addPointAsInfluenceArea(
                move_bounds,
                point_data,
                0,
                insert_layer_idx - dtt_roof_tip,
                dont_move_until > dtt_roof_tip ? dont_move_until - dtt_roof_tip : 0,
                dtt_roof_tip != 0 || supports_roof,
                disable_ovalization,
                additional_ovalization_targets);
        }
    }
}
} // namespace n38

//= cura::TreeSupportTipGenerator::removeUselessAddedPoints
void r39(cura::TreeSupportTipGenerator& self, std::vector<std::set<TreeSupportElement*>>& move_bounds, SliceDataStorage& storage, std::vector<Shape>& additional_support_areas)
{
    cura::parallel_for<coord_t>(
        0,
        move_bounds.size(),
        [&](const LayerIndex layer_idx)
        {
            if (layer_idx + 1 < storage.support.supportLayers.size())
            {
                std::vector<TreeSupportElement*> to_be_removed;
                Shape roof_on_layer_above = self.use_fake_roof_ ? self.support_roof_drawn_[layer_idx + 1]
                                                           : storage.support.supportLayers[layer_idx + 1].support_roof.unionPolygons(additional_support_areas[layer_idx + 1]);
                Shape roof_on_layer
                    = self.use_fake_roof_ ? self.support_roof_drawn_[layer_idx] : storage.support.supportLayers[layer_idx].support_roof.unionPolygons(additional_support_areas[layer_idx]);
                for (TreeSupportElement* elem : move_bounds[layer_idx])
                {
                    if (roof_on_layer.inside(elem->result_on_layer_)) 
                    {
                        to_be_removed.emplace_back(elem);
                    }
                    else if (elem->supports_roof_)
                    {
                        Point2LL from = elem->result_on_layer_;
                        PolygonUtils::moveInside(roof_on_layer_above, from);
                        if (roof_on_layer_above.empty()
                            || (! roof_on_layer_above.inside(elem->result_on_layer_)
                                && vSize2(from - elem->result_on_layer_) > self.config_.getRadius(0) * self.config_.getRadius(0) + FUDGE_LENGTH * FUDGE_LENGTH))
                        {
                            to_be_removed.emplace_back(elem);
                        }
                    }
                }
                for (auto elem : to_be_removed)
                {
                    move_bounds[layer_idx].erase(elem);
                    delete elem->area_;
                    delete elem;
                }
            }
        });
}

//= cura::TreeSupportTipGenerator::generateTips
namespace n40
{
using LineInformation = cura::TreeSupportTipGenerator::LineInformation;
using LineStatus = cura::TreeSupportTipGenerator::LineStatus;
void r40(cura::TreeSupportTipGenerator& self, SliceDataStorage& storage, const SliceMeshStorage& mesh, std::vector<std::set<TreeSupportElement*>>& move_bounds, std::vector<Shape>& additional_support_areas, std::vector<std::vector<FakeRoofArea>>& placed_fake_roof_areas)
{
    std::vector<std::set<TreeSupportElement*>> new_tips(move_bounds.size());
    const coord_t circle_length_to_half_linewidth_change
        = self.config_.min_radius < self.config_.support_line_width ? self.config_.min_radius / 2 : sqrt(square(self.config_.min_radius) - square(self.config_.min_radius - self.config_.support_line_width / 2));
    const coord_t extra_outset = std::max(coord_t(0), self.config_.min_radius - self.config_.support_line_width / 2) + (self.xy_overrides_ ? 0 : self.config_.support_line_width / 2);
    if (self.support_roof_layers_)
    {
        self.calculateRoofAreas(mesh);
    }
    cura::parallel_for<coord_t>(
        1,
        mesh.overhang_areas.size() - self.z_distance_delta_,
        [&](const LayerIndex layer_idx)
        {
            if (mesh.overhang_areas[layer_idx + self.z_distance_delta_].empty() && (layer_idx + 1 >= self.support_roof_drawn_.size() || self.support_roof_drawn_[layer_idx + 1].empty()))
            {
                return; 
            }
            Shape relevant_forbidden = self.volumes_.getAvoidance(
                self.config_.getRadius(0),
                layer_idx,
                (self.only_gracious_ || ! self.config_.support_rests_on_model) ? AvoidanceType::FAST : AvoidanceType::COLLISION,
                self.config_.support_rests_on_model,
                ! self.xy_overrides_);
            relevant_forbidden
                = relevant_forbidden.offset(EPSILON)
                      .unionPolygons(); 
            std::function<OpenLinesSet(const Shape&, bool, LayerIndex)> generateLines = [&](const Shape& area, bool roof, LayerIndex generate_layer_idx)
            {
                coord_t upper_line_distance = self.support_supporting_branch_distance_;
                coord_t line_distance = std::max(roof ? self.support_roof_line_distance_ : self.support_tree_branch_distance_, upper_line_distance);
                return TreeSupportUtils::generateSupportInfillLines(
                    area,
                    self.config_,
                    roof && ! self.use_fake_roof_,
                    generate_layer_idx,
                    line_distance,
                    self.cross_fill_provider_,
                    roof && ! self.use_fake_roof_,
                    line_distance == upper_line_distance);
            };
            std::vector<std::pair<Shape, bool>> overhang_processing;
            Shape core_overhang = mesh.overhang_areas[layer_idx + self.z_distance_delta_];
            if (self.support_roof_layers_ && layer_idx + 1 < self.support_roof_drawn_.size())
            {
                core_overhang = core_overhang.difference(self.support_roof_drawn_[layer_idx]);
                for (Shape roof_part : self.support_roof_drawn_[layer_idx + 1]
                                           .difference(self.support_roof_drawn_[layer_idx])
                                           .splitIntoParts(true)) 
                {
                    overhang_processing.emplace_back(roof_part, true);
                }
            }
            Shape overhang_regular = TreeSupportUtils::safeOffsetInc(
                core_overhang,
                self.support_outset_,
                relevant_forbidden,
                self.config_.min_radius * 1.75 + self.config_.xy_min_distance,
                0,
                1,
                self.config_.support_line_distance / 2,
                &self.config_.simplifier);
            Shape remaining_overhang = core_overhang.offset(self.support_outset_).difference(overhang_regular.offset(self.config_.support_line_width * 0.5)).intersection(relevant_forbidden);
            coord_t extra_total_offset_acc = 0;
            while (extra_total_offset_acc + self.config_.support_line_width / 8
                   < extra_outset) 
            {
                coord_t offset_current_step = extra_total_offset_acc + 2 * self.config_.support_line_width > self.config_.min_radius
                                                ? std::min(self.config_.support_line_width / 8, extra_outset - extra_total_offset_acc)
                                                : std::min(circle_length_to_half_linewidth_change, extra_outset - extra_total_offset_acc);
                extra_total_offset_acc += offset_current_step;
                Shape overhang_offset = TreeSupportUtils::safeOffsetInc(
                    overhang_regular,
                    1.5 * extra_total_offset_acc,
                    self.volumes_.getCollision(0, layer_idx, true),
                    self.config_.xy_min_distance + self.config_.support_line_width,
                    0,
                    1,
                    self.config_.support_line_distance / 2,
                    &self.config_.simplifier);
                remaining_overhang = remaining_overhang.difference(overhang_offset.unionPolygons(self.support_roof_drawn_[layer_idx].offset(1.5 * extra_total_offset_acc)))
                                         .unionPolygons(); 
                Shape next_overhang = TreeSupportUtils::safeOffsetInc(
                    remaining_overhang,
                    extra_total_offset_acc,
                    self.volumes_.getCollision(0, layer_idx, true),
                    self.config_.xy_min_distance + self.config_.support_line_width,
                    0,
                    1,
                    self.config_.support_line_distance / 2,
                    &self.config_.simplifier);
                overhang_regular = overhang_regular.unionPolygons(next_overhang.difference(relevant_forbidden));
            }
            if (self.xy_overrides_)
            {
                for (Shape& remaining_overhang_part : remaining_overhang.splitIntoParts(false))
                {
                    if (remaining_overhang_part.area() <= MM2_2INT(self.minimum_support_area_))
                    {
                        continue;
                    }
                    std::vector<LineInformation> overhang_lines;
                    OpenLinesSet polylines = self.ensureMaximumDistancePolyline(generateLines(remaining_overhang_part, false, layer_idx), self.config_.min_radius, 1, false);
                    if (polylines.pointCount() <= 3)
                    {
                        polylines = self.ensureMaximumDistancePolyline(TreeSupportUtils::toPolylines(remaining_overhang_part), self.connect_length_, 3, true);
                    }
                    for (auto line : polylines)
                    {
                        LineInformation res_line;
                        for (Point2LL p : line)
                        {
                            res_line.emplace_back(p, LineStatus::INVALID);
                        }
                        overhang_lines.emplace_back(res_line);
                    }
                    for (size_t lag_ctr = 1; lag_ctr <= self.max_overhang_insert_lag_ && ! overhang_lines.empty() && layer_idx - coord_t(lag_ctr) >= 1; lag_ctr++)
                    {
                        Shape relevant_forbidden_below = self.volumes_.getAvoidance(
                            self.config_.getRadius(0),
                            layer_idx - lag_ctr,
                            (self.only_gracious_ || ! self.config_.support_rests_on_model) ? AvoidanceType::FAST : AvoidanceType::COLLISION,
                            self.config_.support_rests_on_model,
                            ! self.xy_overrides_);
                        std::function<bool(std::pair<Point2LL, LineStatus>)> evaluatePoint = [&](std::pair<Point2LL, LineStatus> p)
                        {
                            return relevant_forbidden_below.inside(p.first, true);
                        };
                        if (self.support_roof_layers_)
                        {
                            std::function<bool(std::pair<Point2LL, LineStatus>)> evaluatePartOfRoof = [&](std::pair<Point2LL, LineStatus> p)
                            {
                                return self.support_roof_drawn_[layer_idx - lag_ctr].inside(p.first, true);
                            };
                            overhang_lines = self.splitLines(overhang_lines, evaluatePartOfRoof).second;
                        }
                        std::pair<std::vector<TreeSupportTipGenerator::LineInformation>, std::vector<TreeSupportTipGenerator::LineInformation>> split
                            = self.splitLines(overhang_lines, evaluatePoint); 
                        overhang_lines = split.first;
                        std::vector<LineInformation> fresh_valid_points = self.convertLinesToInternal(self.convertInternalToLines(split.second), layer_idx - lag_ctr);
                        self.addLinesAsInfluenceAreas(
                            new_tips,
                            fresh_valid_points,
                            (self.force_tip_to_roof_ && lag_ctr <= self.support_roof_layers_) ? self.support_roof_layers_ : 0,
                            layer_idx - lag_ctr,
                            false,
                            self.support_roof_layers_,
                            false);
                    }
                }
            }
            overhang_regular.removeSmallAreas(self.minimum_support_area_);
            for (Shape support_part : overhang_regular.splitIntoParts(true))
            {
                overhang_processing.emplace_back(support_part, false);
            }
            for (std::pair<Shape, bool> overhang_pair : overhang_processing)
            {
                const bool roof_allowed_for_this_part = overhang_pair.second;
                Shape overhang_outset = overhang_pair.first;
                const size_t min_support_points = std::max(coord_t(1), std::min(coord_t(EPSILON), overhang_outset.length() / self.connect_length_));
                std::vector<LineInformation> overhang_lines;
                bool only_lines = true;
                OpenLinesSet polylines = self.ensureMaximumDistancePolyline(
                    generateLines(overhang_outset, roof_allowed_for_this_part, layer_idx + roof_allowed_for_this_part),
                    ! roof_allowed_for_this_part ? self.config_.min_radius * 2
                    : self.use_fake_roof_             ? self.support_supporting_branch_distance_
                                                 : self.connect_length_,
                    1,
                    false);
                if (polylines.pointCount() <= min_support_points)
                {
                    only_lines = false;
                    Shape reduced_overhang_outset = overhang_outset.offset(-self.config_.support_line_width / 2.2);
                    if (! reduced_overhang_outset.empty()
                        && overhang_outset.difference(reduced_overhang_outset.offset(std::max(self.config_.support_line_width, self.connect_length_))).area() < 1)
                    {
                        polylines = self.ensureMaximumDistancePolyline(TreeSupportUtils::toPolylines(reduced_overhang_outset), self.connect_length_, min_support_points, true);
                    }
                    else
                    {
                        polylines = self.ensureMaximumDistancePolyline(TreeSupportUtils::toPolylines(overhang_outset), self.connect_length_, min_support_points, true);
                    }
                }
                if (roof_allowed_for_this_part) 
                {
                    polylines = TreeSupportUtils::movePointsOutside(polylines, relevant_forbidden, self.config_.getRadius(0) + FUDGE_LENGTH / 2);
                }
                overhang_lines = self.convertLinesToInternal(polylines, layer_idx);
                if (overhang_lines.empty()) 
                {
                    Shape enlarged_overhang_outset = overhang_outset.offset(self.config_.getRadius(0) + FUDGE_LENGTH / 2, ClipperLib::jtRound).difference(relevant_forbidden);
                    polylines = self.ensureMaximumDistancePolyline(TreeSupportUtils::toPolylines(enlarged_overhang_outset), self.connect_length_, min_support_points, true);
                    overhang_lines = self.convertLinesToInternal(polylines, layer_idx);
                    if (! overhang_lines.empty())
                    {
                    }
                    else
                    {
                    }
                }
                size_t dont_move_for_layers = self.support_roof_layers_ ? (self.force_tip_to_roof_ ? self.support_roof_layers_ : (roof_allowed_for_this_part ? 0 : self.support_roof_layers_)) : 0;
                self.addLinesAsInfluenceAreas(
                    new_tips,
                    overhang_lines,
                    self.force_tip_to_roof_ ? self.support_roof_layers_ : 0,
                    layer_idx,
                    roof_allowed_for_this_part,
                    dont_move_for_layers,
                    only_lines);
            }
        });
    cura::parallel_for<coord_t>(
        0,
        self.support_roof_drawn_.size(),
        [&](const LayerIndex layer_idx)
        {
            if (! self.use_fake_roof_ && self.config_.support_wall_thickness >= EPSILON && self.config_.support_roof_wall_count == 0)
            {
                for (auto roof_area : self.support_roof_drawn_[layer_idx].unionPolygons(self.roof_tips_drawn_[layer_idx]).splitIntoParts())
                {
                    if (layer_idx < additional_support_areas.size()
                        && TreeSupportUtils::generateSupportInfillLines(roof_area, self.config_, true, layer_idx, self.support_roof_line_distance_, self.cross_fill_provider_, false).empty())
                    {
                        additional_support_areas[layer_idx].push_back(roof_area);
                    }
                    else
                    {
                        storage.support.supportLayers[layer_idx].support_roof.push_back(roof_area);
                    }
                }
                additional_support_areas[layer_idx] = additional_support_areas[layer_idx].unionPolygons();
                storage.support.supportLayers[layer_idx].support_roof = storage.support.supportLayers[layer_idx].support_roof.unionPolygons();
            }
            else
            {
                if (self.use_fake_roof_)
                {
                    placed_fake_roof_areas[layer_idx].emplace_back(self.support_roof_drawn_[layer_idx], self.support_roof_line_distance_, false);
                    if (self.config_.z_distance_top % self.config_.layer_height != 0 && layer_idx > 0)
                    {
                        Shape all_roof_fractional = self.support_roof_drawn_fractional_[layer_idx - 1].intersection(self.support_roof_drawn_[layer_idx - 1]);
                        placed_fake_roof_areas[layer_idx].emplace_back(all_roof_fractional, self.support_roof_line_distance_, true);
                    }
                }
                else
                {
                    if (self.config_.z_distance_top % self.config_.layer_height != 0 && layer_idx > 0)
                    {
                        Shape all_roof_below = self.support_roof_drawn_[layer_idx - 1].unionPolygons(self.roof_tips_drawn_[layer_idx - 1]);
                        Shape all_roof_fractional = self.support_roof_drawn_fractional_[layer_idx - 1].intersection(all_roof_below);
                        storage.support.supportLayers[layer_idx].support_fractional_roof
                            = storage.support.supportLayers[layer_idx].support_fractional_roof.unionPolygons(all_roof_fractional);
                        storage.support.supportLayers[layer_idx].support_roof.push_back(all_roof_fractional);
                    }
                    Shape all_roof = self.support_roof_drawn_[layer_idx].unionPolygons(self.roof_tips_drawn_[layer_idx]);
                    storage.support.supportLayers[layer_idx].support_roof = storage.support.supportLayers[layer_idx].support_roof.unionPolygons(all_roof);
                }
            }
        });
    self.removeUselessAddedPoints(new_tips, storage, additional_support_areas);
    for (auto [layer_idx, tips_on_layer] : new_tips | ranges::views::enumerate)
    {
        move_bounds[layer_idx].insert(tips_on_layer.begin(), tips_on_layer.end());
    }
}
} // namespace n40

//= cura::FakeRoofArea::FakeRoofArea
void r41(cura::FakeRoofArea& self, Shape area, coord_t line_distance, bool fractional)
{
    member(self.area_) = area;
    member(self.line_distance_) = line_distance;
    member(self.fractional_) = fractional;
}

//= cura::TreeSupportBaseCircle::getBaseCircle
Polygon r42()
{
    std::call_once(
        cura::TreeSupportBaseCircle::flag,
        [&]()
        {
            constexpr auto support_tree_circle_resolution = 12; 
            Polygon circle;
            for (const uint64_t i : ranges::views::iota(0, support_tree_circle_resolution))
            {
                const AngleRadians angle = static_cast<double>(i) / support_tree_circle_resolution * TAU;
                circle.emplace_back(static_cast<coord_t>(std::cos(angle) * cura::TreeSupportBaseCircle::base_radius), static_cast<coord_t>(std::sin(angle) * cura::TreeSupportBaseCircle::base_radius));
            }
            cura::TreeSupportBaseCircle::base_circle = Polygon(circle);
        });
    return cura::TreeSupportBaseCircle::base_circle;
}

//= cura::AreaIncreaseSettings::AreaIncreaseSettings
void r43(cura::AreaIncreaseSettings& self, const AvoidanceType type, const coord_t increase_speed, const bool increase_radius, const bool simplify, const bool use_min_distance, const bool move)
{
    member(self.type_) = type;
    member(self.increase_speed_) = increase_speed;
    member(self.increase_radius_) = increase_radius;
    member(self.no_error_) = simplify;
    member(self.use_min_distance_) = use_min_distance;
    member(self.move_) = move;
}

//= cura::TreeSupportElement::operator==
bool r44(const cura::TreeSupportElement& self, const TreeSupportElement& other)
{
    return self.target_position_ == other.target_position_ && self.target_height_ == other.target_height_;
}

//= cura::TreeSupportElement::operator<
bool r45(const cura::TreeSupportElement& self, const TreeSupportElement& other)
{
    return ! (self == other) && ! (self > other);
}

//= cura::TreeSupportElement::operator>
bool r46(const cura::TreeSupportElement& self, const TreeSupportElement& other)
{
    if (self == other)
    {
        return false;
    }
    if (other.target_height_ != self.target_height_)
    {
        return other.target_height_ < self.target_height_;
    }
    return other.target_position_.X == self.target_position_.X ? other.target_position_.Y < self.target_position_.Y : other.target_position_.X < self.target_position_.X;
}

//= cura::TreeSupportElement::isResultOnLayerSet
bool r47(const cura::TreeSupportElement& self)
{
    return self.result_on_layer_ != Point2LL(-1, -1);
}

//= cura::TreeSupportSettings::operator==
bool r50(const cura::TreeSupportSettings& self, const TreeSupportSettings& other)
{
    return self.branch_radius == other.branch_radius && self.tip_layers == other.tip_layers && self.diameter_angle_scale_factor == other.diameter_angle_scale_factor
        && self.layer_start_bp_radius == other.layer_start_bp_radius && self.bp_radius == other.bp_radius && self.diameter_scale_bp_radius == other.diameter_scale_bp_radius
        && self.min_radius == other.min_radius && self.xy_min_distance == other.xy_min_distance && 
           self.xy_distance - self.xy_min_distance == other.xy_distance - other.xy_min_distance
        && 
           self.support_rests_on_model == other.support_rests_on_model && self.increase_radius_until_dtt == other.increase_radius_until_dtt && self.min_dtt_to_model == other.min_dtt_to_model
        && self.max_to_model_radius_increase == other.max_to_model_radius_increase && self.maximum_move_distance == other.maximum_move_distance
        && self.maximum_move_distance_slow == other.maximum_move_distance_slow && self.z_distance_bottom_layers == other.z_distance_bottom_layers
        && self.support_line_width == other.support_line_width && self.support_overrides == other.support_overrides && self.support_line_distance == other.support_line_distance
        && self.support_roof_line_width == other.support_roof_line_width
        && 
           self.support_bottom_offset == other.support_bottom_offset && self.support_wall_thickness == other.support_wall_thickness
        && self.support_enlarged_wall_thickness == other.support_enlarged_wall_thickness && self.support_pattern == other.support_pattern && self.roof_pattern == other.roof_pattern
        && 
           self.support_roof_angles == other.support_roof_angles && self.support_infill_angles == other.support_infill_angles
        && self.increase_radius_until_radius == other.increase_radius_until_radius && self.support_bottom_layers == other.support_bottom_layers && self.layer_height == other.layer_height
        && self.z_distance_top == other.z_distance_top && self.maximum_deviation == other.maximum_deviation && 
           self.maximum_resolution == other.maximum_resolution && self.support_roof_line_distance == other.support_roof_line_distance && self.skip_some_zags == other.skip_some_zags
        && self.zag_skip_count == other.zag_skip_count && self.connect_zigzags == other.connect_zigzags && self.interface_preference == other.interface_preference
        && self.min_feature_size == other.min_feature_size && 
           self.support_rest_preference == other.support_rest_preference && self.max_radius == other.max_radius && self.min_wall_line_width == other.min_wall_line_width
        && self.fill_outline_gaps == other.fill_outline_gaps && self.support_wall_thickness_bottom_layers == other.support_wall_thickness_bottom_layers
        && self.support_wall_thickness_top_layers == other.support_wall_thickness_top_layers && self.support_wall_thickness_layer_smooth == other.support_wall_thickness_layer_smooth &&
           (self.interface_preference == InterfacePreference::INTERFACE_AREA_OVERWRITES_SUPPORT || self.interface_preference == InterfacePreference::SUPPORT_AREA_OVERWRITES_INTERFACE
            || (self.settings.get<bool>("fill_outline_gaps") == other.settings.get<bool>("fill_outline_gaps")
                && self.settings.get<coord_t>("min_bead_width") == other.settings.get<coord_t>("min_bead_width")
                && self.settings.get<AngleRadians>("wall_transition_angle") == other.settings.get<AngleRadians>("wall_transition_angle")
                && self.settings.get<coord_t>("wall_transition_length") == other.settings.get<coord_t>("wall_transition_length")
                && self.settings.get<coord_t>("min_odd_wall_line_width") == other.settings.get<coord_t>("min_odd_wall_line_width")
                && self.settings.get<coord_t>("min_even_wall_line_width") == other.settings.get<coord_t>("min_even_wall_line_width")
                && self.settings.get<int>("wall_distribution_count") == other.settings.get<int>("wall_distribution_count")
                && self.settings.get<coord_t>("wall_transition_filter_distance") == other.settings.get<coord_t>("wall_transition_filter_distance")
                && self.settings.get<coord_t>("wall_transition_filter_deviation") == other.settings.get<coord_t>("wall_transition_filter_deviation")
                && self.settings.get<coord_t>("wall_line_width_x") == other.settings.get<coord_t>("wall_line_width_x")
                && self.settings.get<int>("meshfix_maximum_extrusion_area_deviation") == other.settings.get<int>("meshfix_maximum_extrusion_area_deviation")));
}

//= cura::TreeSupportSettings::getEffectiveDTT
size_t r51(const cura::TreeSupportSettings& self, const TreeSupportElement& elem)
{
    return elem.effective_radius_height_ < self.increase_radius_until_dtt ? (elem.distance_to_top_ < self.increase_radius_until_dtt ? elem.distance_to_top_ : self.increase_radius_until_dtt)
                                                                     : elem.effective_radius_height_;
}

//= cura::TreeSupportSettings::getRadius
coord_t r52(const cura::TreeSupportSettings& self, size_t distance_to_top, const double buildplate_radius_increases)
{
    coord_t uncapped_radius = (distance_to_top <= self.tip_layers ?
                                                              self.min_radius + (self.branch_radius - self.min_radius) * distance_to_top / self.tip_layers
                                                             :
                                                              self.branch_radius +
                                                                  self.branch_radius * (distance_to_top - self.tip_layers) * self.diameter_angle_scale_factor)
                            + self.branch_radius * buildplate_radius_increases * (std::max(self.diameter_scale_bp_radius - self.diameter_angle_scale_factor, 0.0));
    return std::min(uncapped_radius, self.max_radius);
}

//= cura::TreeSupportSettings::getRadius
coord_t r53(const cura::TreeSupportSettings& self, const TreeSupportElement& elem)
{
    return self.getRadius(self.getEffectiveDTT(elem), (elem.isResultOnLayerSet() || ! self.support_rests_on_model) && elem.to_buildplate_ ? elem.buildplate_radius_increases_ : 0);
}

//= cura::TreeSupportSettings::getCollisionRadius
coord_t r54(const cura::TreeSupportSettings& self, const TreeSupportElement& elem)
{
    return self.getRadius(elem.effective_radius_height_, elem.buildplate_radius_increases_);
}

//= cura::TreeSupportSettings::recommendedMinRadius
coord_t r55(const cura::TreeSupportSettings& self, LayerIndex layer_idx)
{
    const double scale = (self.layer_start_bp_radius - layer_idx) * self.diameter_scale_bp_radius;
    return scale > 0 ? std::min(coord_t(self.branch_radius + self.branch_radius * scale), self.max_radius) : 0;
}

//= cura::TreeSupportSettings::getActualZ
coord_t r56(const cura::TreeSupportSettings& self, LayerIndex layer_idx)
{
    return layer_idx < coord_t(self.known_z.size()) ? self.known_z[layer_idx] : (layer_idx - self.known_z.size()) * self.layer_height + self.known_z.size() ? self.known_z.back() : 0;
}

//= cura::TreeSupportSettings::setActualZ
void r57(cura::TreeSupportSettings& self, std::vector<coord_t>& z)
{
    self.known_z = z;
}

//= cura::TreeSupportUtils::toPolylines
OpenLinesSet r58(const Shape& poly)
{
    OpenLinesSet result;
    for (const auto& path : poly)
    {
        result.push_back(path.toPseudoOpenPolyline());
    }
    return result;
}

//= cura::TreeSupportUtils::toPolylines
OpenLinesSet r59(const std::vector<VariableWidthLines> toolpaths)
{
    OpenLinesSet result;
    for (const VariableWidthLines& lines : toolpaths)
    {
        for (const ExtrusionLine& line : lines)
        {
            if (line.empty())
            {
                continue;
            }
            OpenPolyline result_line;
            for (const ExtrusionJunction& junction : line)
            {
                result_line.push_back(junction.p_);
            }
            if (line.is_closed_)
            {
                result_line.push_back(line[0].p_);
            }
            result.push_back(result_line);
        }
    }
    return result;
}

//= cura::TreeSupportUtils::generateSupportInfillLines
OpenLinesSet r60(const Shape& area, const TreeSupportSettings& config, bool roof, LayerIndex layer_idx, coord_t support_infill_distance, std::shared_ptr<SierpinskiFillProvider> cross_fill_provider, bool include_walls, bool generate_support_supporting)
{
    Shape gaps;
    const EFillMethod pattern = generate_support_supporting ? EFillMethod::GRID : roof ? config.roof_pattern : config.support_pattern;
    if (pattern == EFillMethod::LIGHTNING)
    {
        return {};
    }
    const bool zig_zaggify_infill = roof ? pattern == EFillMethod::ZIG_ZAG : config.zig_zaggify_support;
    const bool connect_polygons = false;
    constexpr coord_t support_roof_overlap = 0;
    constexpr size_t infill_multiplier = 1;
    const int support_shift = roof ? 0 : support_infill_distance / 2;
    const size_t wall_line_count = include_walls ? (! roof ? config.support_wall_thickness : config.support_roof_wall_count) : 0;
    constexpr coord_t narrow_area_width = 0;
    const Point2LL infill_origin;
    constexpr bool skip_stitching = false;
    constexpr bool fill_gaps = true;
    constexpr bool use_endpieces = true;
    const bool connected_zigzags = roof ? false : config.connect_zigzags;
    const bool skip_some_zags = roof ? false : config.skip_some_zags;
    const size_t zag_skip_count = roof ? 0 : config.zag_skip_count;
    constexpr coord_t pocket_size = 0;
    std::vector<AngleDegrees> angles = roof ? config.support_roof_angles : config.support_infill_angles;
    std::vector<VariableWidthLines> toolpaths;
    const coord_t z = config.getActualZ(layer_idx);
    const size_t divisor = angles.size();
    const size_t index = ((layer_idx % divisor) + divisor) % divisor;
    const AngleDegrees fill_angle = angles[index];
    Infill roof_computation(
        pattern,
        zig_zaggify_infill,
        connect_polygons,
        area,
        roof ? config.support_roof_line_width : config.support_line_width,
        support_infill_distance,
        support_roof_overlap,
        infill_multiplier,
        fill_angle,
        z,
        support_shift,
        config.maximum_resolution,
        config.maximum_deviation,
        wall_line_count,
        narrow_area_width,
        infill_origin,
        skip_stitching,
        fill_gaps,
        connected_zigzags,
        use_endpieces,
        skip_some_zags,
        zag_skip_count,
        pocket_size);
    Shape areas;
    OpenLinesSet lines;
    roof_computation.generate(toolpaths, areas, lines, config.settings, layer_idx, SectionType::SUPPORT, cross_fill_provider);
    lines.push_back(cura::TreeSupportUtils::toPolylines(areas));
    lines.push_back(cura::TreeSupportUtils::toPolylines(toolpaths));
    return lines;
}

//= cura::TreeSupportUtils::safeUnion
Shape r61(const Shape& first, const Shape& second)
{
    const bool was_empty = first.empty() && second.empty();
    Shape result = first.unionPolygons(second);
    if (result.empty() && ! was_empty) 
    {
        return cura::TreeSupportUtils::toPolylines(first).offset(2).unionPolygons(cura::TreeSupportUtils::toPolylines(second).offset(2));
    }
    return result;
}

//= cura::TreeSupportUtils::safeOffsetInc
Shape r62(const Shape& me, coord_t distance, const Shape& collision, coord_t safe_step_size, coord_t last_step_offset_without_check, size_t min_amount_offset, coord_t min_offset_per_step, Simplify* simplifier)
{
    bool do_final_difference = last_step_offset_without_check == 0;
    Shape ret = cura::TreeSupportUtils::safeUnion(me); 
    if (distance == 0)
    {
        return (do_final_difference ? ret.difference(collision) : ret).unionPolygons();
    }
    if (safe_step_size < 0 || last_step_offset_without_check < 0)
    {
        return (do_final_difference ? ret.difference(collision) : ret).unionPolygons();
    }
    coord_t step_size = std::max(min_offset_per_step, safe_step_size);
    size_t steps = distance > last_step_offset_without_check ? (distance - last_step_offset_without_check) / step_size : 0;
    if (distance - steps * step_size > last_step_offset_without_check)
    {
        if ((steps + 1) * step_size <= distance)
        {
            steps++; 
        }
        else
        {
            do_final_difference = true;
        }
    }
    if (steps + (distance < last_step_offset_without_check || distance % step_size != 0) < min_amount_offset && min_amount_offset > 1) 
    {
        step_size = distance / min_amount_offset;
        if (step_size >= safe_step_size)
        {
            step_size = safe_step_size;
            steps = min_amount_offset;
        }
        else
        {
            steps = distance / step_size;
        }
    }
    for (const size_t i : ranges::views::iota(0UL, steps))
    {
        ret = ret.offset(step_size, ClipperLib::jtRound).difference(collision).unionPolygons();
        if (i % 10 == 7 && simplifier)
        {
            ret = simplifier->polygon(ret);
        }
    }
    ret = ret.offset(distance - steps * step_size, ClipperLib::jtRound); 
    if (simplifier)
    {
        ret = simplifier->polygon(ret);
    }
    if (do_final_difference)
    {
        ret = ret.difference(collision);
    }
    return ret.unionPolygons();
}

//= cura::TreeSupportUtils::movePointsOutside
OpenLinesSet r63(const OpenLinesSet& polylines, const Shape& area, coord_t max_allowed_distance)
{
    OpenLinesSet result;
    for (const OpenPolyline& line : polylines)
    {
        OpenPolyline next_line;
        for (const Point2LL& p : line)
        {
            if (area.inside(p))
            {
                Point2LL next_outside = p;
                PolygonUtils::moveOutside(area, next_outside);
                if (vSize2(p - next_outside) < max_allowed_distance * max_allowed_distance)
                {
                    next_line.push_back(next_outside);
                }
                else 
                {
                    double max_partial_move_proportion = double(max_allowed_distance) / double(vSize(p - next_outside));
                    next_outside = p + (next_outside - p) * max_partial_move_proportion;
                    next_line.push_back(next_outside);
                }
            }
            else
            {
                next_line.push_back(p);
            }
        }
        if (next_line.size() > 0)
        {
            result.push_back(next_line);
        }
    }
    return result;
}

//= cura::TreeSupportUtils::polyLineToVWL
VariableWidthLines r64(const Shape& polylines, coord_t line_width)
{
    VariableWidthLines result;
    for (auto path : polylines)
    {
        ExtrusionLine vwl_line(1, true);
        for (Point2LL p : path)
        {
            vwl_line.emplace_back(p, line_width, 1);
        }
        result.emplace_back(vwl_line);
    }
    return result;
}

//= cura::TreeModelVolumes::TreeModelVolumes
void r65(cura::TreeModelVolumes& self, const SliceDataStorage& storage, const coord_t max_move, const coord_t max_move_slow, const coord_t min_offset_per_step, size_t current_mesh_idx, double progress_multiplier, double progress_offset, const std::vector<Shape>& additional_excluded_areas)
{
        member(self.max_move_) = {std::max(max_move - 2, coord_t(0))};
        member(self.max_move_slow_) = {std::max(max_move_slow - 2, coord_t(0))};
        member(self.min_offset_per_step_) = {min_offset_per_step};
        member(self.progress_multiplier_) = {progress_multiplier};
        member(self.progress_offset_) = {progress_offset};
        member(self.machine_border_) = {self.calculateMachineBorderCollision(storage.getMachineBorder())};
        member(self.machine_area_) = {storage.getMachineBorder()};
    self.anti_overhang_ = std::vector<Shape>(storage.support.supportLayers.size(), Shape());
    std::unordered_map<size_t, size_t> mesh_to_layeroutline_idx;
    coord_t min_maximum_resolution = std::numeric_limits<coord_t>::max();
    coord_t min_maximum_deviation = std::numeric_limits<coord_t>::max();
    coord_t min_maximum_area_deviation = std::numeric_limits<coord_t>::max();
    for (auto [mesh_idx, mesh_ptr] : storage.meshes | ranges::views::enumerate)
    {
        auto& mesh = *mesh_ptr;
        bool added = false;
        for (auto [idx, layer_outline] : self.layer_outlines_ | ranges::views::enumerate)
        {
            if (self.checkSettingsEquality(layer_outline.first, mesh.settings))
            {
                added = true;
                mesh_to_layeroutline_idx[mesh_idx] = idx;
            }
        }
        if (! added)
        {
            mesh_to_layeroutline_idx[mesh_idx] = self.layer_outlines_.size();
            self.layer_outlines_.emplace_back(mesh.settings, std::vector<Shape>(storage.support.supportLayers.size(), Shape()));
        }
    }
    for (const auto data_pair : self.layer_outlines_)
    {
        self.support_rests_on_model_ |= data_pair.first.get<ESupportType>("support_type") == ESupportType::EVERYWHERE;
        min_maximum_deviation = std::min(min_maximum_deviation, data_pair.first.get<coord_t>("meshfix_maximum_deviation"));
        min_maximum_resolution = std::min(min_maximum_resolution, data_pair.first.get<coord_t>("meshfix_maximum_resolution"));
        min_maximum_area_deviation = std::min(min_maximum_area_deviation, coord_t(data_pair.first.get<int>("meshfix_maximum_extrusion_area_deviation")));
    }
    self.current_outline_idx_ = mesh_to_layeroutline_idx[current_mesh_idx];
    const TreeSupportSettings config(self.layer_outlines_[self.current_outline_idx_].first);
    if (config.support_overrides == SupportDistPriority::Z_OVERRIDES_XY)
    {
        self.current_min_xy_dist_ = config.xy_min_distance;
        if (TreeSupportSettings::has_to_rely_on_min_xy_dist_only)
        {
            self.current_min_xy_dist_ = std::max(self.current_min_xy_dist_, coord_t(FUDGE_LENGTH * 2));
        }
        self.current_min_xy_dist_delta_ = std::max(config.xy_distance - self.current_min_xy_dist_, coord_t(0));
    }
    else
    {
        self.current_min_xy_dist_ = config.xy_distance;
        self.current_min_xy_dist_delta_ = 0;
    }
    self.increase_until_radius_ = config.increase_radius_until_radius;
    for (auto [mesh_idx, mesh] : storage.meshes | ranges::views::enumerate)
    {
        const auto& mesh_idx_l = mesh_idx;
        const auto& mesh_l = *mesh;
        cura::parallel_for<coord_t>(
            0,
            LayerIndex(self.layer_outlines_[mesh_to_layeroutline_idx[mesh_idx_l]].second.size()),
            [&](const LayerIndex layer_idx)
            {
                if (mesh_l.layer_nr_max_filled_layer < layer_idx)
                {
                    return; 
                }
                Shape outline = self.extractOutlineFromMesh(mesh_l, layer_idx);
                self.layer_outlines_[mesh_to_layeroutline_idx[mesh_idx_l]].second[layer_idx].push_back(outline);
            });
    }
    for (auto& layer_outline : self.layer_outlines_)
    {
        cura::parallel_for<coord_t>(
            0,
            LayerIndex(self.anti_overhang_.size()),
            [&](const LayerIndex layer_idx)
            {
                layer_outline.second[layer_idx] = layer_outline.second[layer_idx].unionPolygons();
            });
    }
    cura::parallel_for<coord_t>(
        0,
        LayerIndex(self.anti_overhang_.size()),
        [&](const LayerIndex layer_idx)
        {
            if (layer_idx < coord_t(additional_excluded_areas.size()))
            {
                self.anti_overhang_[layer_idx].push_back(additional_excluded_areas[layer_idx]);
            }
            if (SUPPORT_TREE_AVOID_SUPPORT_BLOCKER)
            {
                self.anti_overhang_[layer_idx].push_back(storage.support.supportLayers[layer_idx].anti_overhang);
            }
            if (storage.prime_tower_)
            {
                self.anti_overhang_[layer_idx].push_back(storage.prime_tower_->getOccupiedOutline(layer_idx));
            }
            self.anti_overhang_[layer_idx] = self.anti_overhang_[layer_idx].unionPolygons();
        });
    for (self.max_layer_idx_without_blocker_ = 0; self.max_layer_idx_without_blocker_ + 1 < self.anti_overhang_.size(); self.max_layer_idx_without_blocker_++)
    {
        if (! self.anti_overhang_[self.max_layer_idx_without_blocker_ + 1].empty())
        {
            break;
        }
    }
    self.radius_0_ = config.getRadius(0);
    self.support_rest_preference_ = config.support_rest_preference;
    self.simplifier_ = Simplify(min_maximum_resolution, min_maximum_deviation, min_maximum_area_deviation);
}

//= cura::TreeModelVolumes::precalculate
namespace n66
{
using RadiusLayerPair = cura::TreeModelVolumes::RadiusLayerPair;
void r66(cura::TreeModelVolumes& self, coord_t max_layer)
{
    const auto t_start = std::chrono::high_resolution_clock::now();
    self.precalculated_ = true;
    const TreeSupportSettings config(self.layer_outlines_[self.current_outline_idx_].first);
    std::unordered_set<coord_t> possible_tip_radiis;
    for (const auto dtt : ranges::views::iota(0UL, config.tip_layers + 1))
    {
        possible_tip_radiis.emplace(self.ceilRadius(config.getRadius(dtt)));
        possible_tip_radiis.emplace(self.ceilRadius(config.getRadius(dtt) + self.current_min_xy_dist_delta_));
    }
    for (coord_t radius_eval = self.ceilRadius(1); radius_eval <= config.branch_radius; radius_eval = self.ceilRadius(radius_eval + 1))
    {
        if (! possible_tip_radiis.count(radius_eval))
        {
            self.ignorable_radii_.emplace(radius_eval);
        }
    }
    std::unordered_map<coord_t, LayerIndex> radius_until_layer;
    for (LayerIndex simulated_dtt = 0; simulated_dtt <= max_layer; simulated_dtt++)
    {
        const LayerIndex current_layer = max_layer - simulated_dtt;
        const coord_t max_regular_radius = self.ceilRadius(config.getRadius(simulated_dtt, 0) + self.current_min_xy_dist_delta_);
        const coord_t max_min_radius = self.ceilRadius(config.getRadius(simulated_dtt, 0)); 
        const coord_t max_initial_layer_diameter_radius = self.ceilRadius(config.recommendedMinRadius(current_layer) + self.current_min_xy_dist_delta_);
        if (! radius_until_layer.count(max_regular_radius))
        {
            radius_until_layer[max_regular_radius] = current_layer;
        }
        if (! radius_until_layer.count(max_min_radius))
        {
            radius_until_layer[max_min_radius] = current_layer;
        }
        if (! radius_until_layer.count(max_initial_layer_diameter_radius))
        {
            radius_until_layer[max_initial_layer_diameter_radius] = current_layer;
        }
    }
    std::deque<RadiusLayerPair> relevant_avoidance_radiis;
    std::deque<RadiusLayerPair> relevant_avoidance_radiis_to_model;
    relevant_avoidance_radiis.insert(relevant_avoidance_radiis.end(), radius_until_layer.begin(), radius_until_layer.end());
    relevant_avoidance_radiis_to_model.insert(relevant_avoidance_radiis_to_model.end(), radius_until_layer.begin(), radius_until_layer.end());
    radius_until_layer[self.ceilRadius(self.increase_until_radius_, false)]
        = max_layer; 
    radius_until_layer[0] = max_layer;
    if (self.current_min_xy_dist_delta_ != 0)
    {
        radius_until_layer[self.current_min_xy_dist_delta_] = max_layer;
    }
    std::deque<RadiusLayerPair> relevant_collision_radiis;
    relevant_collision_radiis.insert(
        relevant_collision_radiis.end(),
        radius_until_layer.begin(),
        radius_until_layer.end()); 
    self.calculateCollision(relevant_collision_radiis);
    std::deque<RadiusLayerPair> relevant_hole_collision_radiis;
    for (RadiusLayerPair key : relevant_avoidance_radiis)
    {
        if (key.first < self.increase_until_radius_ + self.current_min_xy_dist_delta_)
        {
            relevant_hole_collision_radiis.emplace_back(key);
        }
    }
    self.calculateCollisionHolefree(relevant_hole_collision_radiis);
    const auto t_coll = std::chrono::high_resolution_clock::now();
    auto t_acc = std::chrono::high_resolution_clock::now();
    if (self.max_layer_idx_without_blocker_ < max_layer && self.support_rests_on_model_)
    {
        self.calculateAccumulatedPlaceable0(max_layer);
        t_acc = std::chrono::high_resolution_clock::now();
    }
    {
        std::future<void> placeable_waiter;
        std::future<void> avoidance_waiter;
        if (self.support_rests_on_model_)
        {
            self.calculatePlaceables(relevant_avoidance_radiis_to_model);
        }
        if (self.support_rest_preference_ == RestPreference::BUILDPLATE)
        {
            self.calculateAvoidance(relevant_avoidance_radiis);
        }
        self.calculateWallRestrictions(relevant_avoidance_radiis);
        if (self.support_rests_on_model_)
        {
            self.calculateAvoidanceToModel(relevant_avoidance_radiis_to_model);
        }
        if (self.support_rest_preference_ == RestPreference::BUILDPLATE)
        {
        }
    }
    const auto t_avo = std::chrono::high_resolution_clock::now();
    auto t_colAvo = std::chrono::high_resolution_clock::now();
    if (self.max_layer_idx_without_blocker_ < max_layer && self.support_rests_on_model_)
    {
        self.calculateCollisionAvoidance(relevant_avoidance_radiis);
        t_colAvo = std::chrono::high_resolution_clock::now();
    }
    self.precalculation_finished_ = true;
    const auto dur_col = 0.001 * std::chrono::duration_cast<std::chrono::microseconds>(t_coll - t_start).count();
    const auto dur_acc = 0.001 * std::chrono::duration_cast<std::chrono::microseconds>(t_acc - t_coll).count();
    const auto dur_avo = 0.001 * std::chrono::duration_cast<std::chrono::microseconds>(t_avo - t_acc).count();
    const auto dur_col_avo = 0.001 * std::chrono::duration_cast<std::chrono::microseconds>(t_colAvo - t_avo).count();
}
} // namespace n66

//= cura::TreeModelVolumes::getAccumulatedPlaceable0
const Shape& r69(cura::TreeModelVolumes& self, LayerIndex layer_idx)
{
    {
        std::lock_guard<std::mutex> critical_section_support_max_layer_nr(*self.critical_accumulated_placeables_cache_radius_0_);
        auto iterator = self.accumulated_placeables_cache_radius_0_.find(layer_idx);
        if (iterator != self.accumulated_placeables_cache_radius_0_.end())
        {
            return iterator->second;
        }
    }
    self.calculateAccumulatedPlaceable0(layer_idx);
    return self.getAccumulatedPlaceable0(layer_idx);
}

//= cura::TreeModelVolumes::ceilRadius
coord_t r73(const cura::TreeModelVolumes& self, coord_t radius, bool min_xy_dist)
{
    return self.ceilRadius(radius + (min_xy_dist ? 0 : self.current_min_xy_dist_delta_));
}

//= cura::TreeModelVolumes::getRadiusNextCeil
coord_t r74(const cura::TreeModelVolumes& self, coord_t radius, bool min_xy_dist)
{
    return self.ceilRadius(radius, min_xy_dist) - (min_xy_dist ? 0 : self.current_min_xy_dist_delta_);
}

//= cura::TreeModelVolumes::checkSettingsEquality
bool r75(const cura::TreeModelVolumes& self, const Settings& me, const Settings& other)
{
    return TreeSupportSettings(me) == TreeSupportSettings(other);
}

//= cura::TreeModelVolumes::extractOutlineFromMesh
Shape r76(const cura::TreeModelVolumes& self, const SliceMeshStorage& mesh, LayerIndex layer_idx)
{
    constexpr bool external_polys_only = false;
    Shape total;
    if (! mesh.isModelMesh())
    {
        return Shape();
    }
    const SliceLayer& layer = mesh.layers[layer_idx];
    layer.getOutlines(total, external_polys_only);
    if (mesh.settings.get<ESurfaceMode>("magic_mesh_surface_mode") != ESurfaceMode::NORMAL)
    {
        total = total.unionPolygons(layer.open_polylines.offset(FUDGE_LENGTH * 2));
    }
    const coord_t maximum_resolution = mesh.settings.get<coord_t>("meshfix_maximum_resolution");
    const coord_t maximum_deviation = mesh.settings.get<coord_t>("meshfix_maximum_deviation");
    const coord_t maximum_area_deviation = mesh.settings.get<int>("meshfix_maximum_extrusion_area_deviation");
    return Simplify(maximum_resolution, maximum_deviation, maximum_area_deviation).polygon(total);
}

//= cura::TreeModelVolumes::calculateCollision
namespace n78
{
using RadiusLayerPair = cura::TreeModelVolumes::RadiusLayerPair;
void r78(cura::TreeModelVolumes& self, const std::deque<RadiusLayerPair>& keys)
{
    cura::parallel_for<size_t>(
        0,
        keys.size(),
        [&](const size_t i)
        {
            const coord_t radius = keys[i].first;
            RadiusLayerPair key(radius, 0);
            std::unordered_map<RadiusLayerPair, Shape> data_outer;
            std::unordered_map<RadiusLayerPair, Shape> data_placeable_outer;
            for (const auto outline_idx : ranges::views::iota(0UL, self.layer_outlines_.size()))
            {
                std::unordered_map<RadiusLayerPair, Shape> data;
                std::unordered_map<RadiusLayerPair, Shape> data_placeable;
                const coord_t layer_height = self.layer_outlines_[outline_idx].first.get<coord_t>("layer_height");
                const bool support_rests_on_this_model = self.layer_outlines_[outline_idx].first.get<ESupportType>("support_type") == ESupportType::EVERYWHERE;
                const coord_t z_distance_bottom = self.layer_outlines_[outline_idx].first.get<coord_t>("support_bottom_distance");
                const size_t z_distance_bottom_layers = round_up_divide(z_distance_bottom, layer_height);
                const coord_t z_distance_top_layers = round_up_divide(self.layer_outlines_[outline_idx].first.get<coord_t>("support_top_distance"), layer_height);
                const LayerIndex max_anti_overhang_layer = self.anti_overhang_.size() - 1;
                const LayerIndex max_required_layer = keys[i].second + std::max(coord_t(1), z_distance_top_layers);
                const coord_t xy_distance = outline_idx == self.current_outline_idx_ ? self.current_min_xy_dist_ : self.layer_outlines_[outline_idx].first.get<coord_t>("support_xy_distance");
                coord_t min_layer_bottom;
                {
                    std::lock_guard<std::mutex> critical_section(*self.critical_collision_cache_);
                    min_layer_bottom = self.getMaxCalculatedLayer(radius, self.collision_cache_) - z_distance_bottom_layers;
                }
                if (min_layer_bottom < 0)
                {
                    min_layer_bottom = 0;
                }
                for (const auto layer_idx : ranges::views::iota(min_layer_bottom, max_required_layer + 1))
                {
                    key.second = layer_idx;
                    Shape collision_areas = self.machine_border_;
                    if (size_t(layer_idx) < self.layer_outlines_[outline_idx].second.size())
                    {
                        collision_areas.push_back(self.layer_outlines_[outline_idx].second[layer_idx]);
                    }
                    collision_areas = collision_areas.offset(
                        radius
                        + xy_distance); 
                    data[key].push_back(collision_areas); 
                }
                for (const auto layer_idx : ranges::views::iota(min_layer_bottom, max_required_layer + 1) | ranges::views::reverse)
                {
                    key.second = layer_idx;
                    for (size_t layer_offset = 1; layer_offset <= z_distance_bottom_layers && layer_idx - coord_t(layer_offset) > min_layer_bottom; layer_offset++)
                    {
                        data[key].push_back(data[RadiusLayerPair(radius, layer_idx - layer_offset)]);
                    }
                    if ((support_rests_on_this_model || self.precalculation_finished_ || ! self.precalculated_) && radius == 0 && layer_idx < coord_t(1 + keys[i].second))
                    {
                        data[key] = data[key].unionPolygons();
                        Shape above = data[RadiusLayerPair(radius, layer_idx + 1)];
                        above = above.unionPolygons(max_anti_overhang_layer >= layer_idx + 1 ? self.anti_overhang_[layer_idx] : Shape());
                        Shape placeable = data[key].unionPolygons().difference(above);
                        data_placeable[RadiusLayerPair(radius, layer_idx + 1)] = data_placeable[RadiusLayerPair(radius, layer_idx + 1)].unionPolygons(placeable);
                    }
                }
                for (const auto layer_idx : ranges::views::iota(min_layer_bottom, max_required_layer + 1))
                {
                    key.second = layer_idx;
                    for (coord_t layer_offset = 1; layer_offset <= z_distance_top_layers
                                                   && layer_offset + layer_idx < std::min(coord_t(self.layer_outlines_[outline_idx].second.size()), coord_t(max_required_layer + 1));
                         layer_offset++)
                    {
                        const coord_t required_range_x = coord_t(xy_distance - ((layer_offset - (z_distance_top_layers == 1 ? 0.5 : 0)) * xy_distance / z_distance_top_layers));
                        data[key].push_back(self.layer_outlines_[outline_idx].second[layer_idx + layer_offset].offset(radius + required_range_x));
                    }
                    data[key] = data[key].unionPolygons(max_anti_overhang_layer >= layer_idx ? self.anti_overhang_[layer_idx].offset(radius) : Shape());
                }
                for (const auto layer_idx : ranges::views::iota(static_cast<size_t>(keys[i].second) + 1UL, max_required_layer + 1UL) | ranges::views::reverse)
                {
                    data.erase(RadiusLayerPair(radius, layer_idx)); 
                }
                for (auto pair : data)
                {
                    pair.second = self.simplifier_.polygon(pair.second);
                    data_outer[pair.first] = data_outer[pair.first].unionPolygons(pair.second);
                }
                if (radius == 0)
                {
                    for (auto pair : data_placeable)
                    {
                        pair.second = self.simplifier_.polygon(pair.second);
                        data_placeable_outer[pair.first] = data_placeable_outer[pair.first].unionPolygons(pair.second);
                    }
                }
            }
            {
                std::lock_guard<std::mutex> critical_section(*self.critical_progress_);
                if (self.precalculated_ && self.precalculation_progress_ < TREE_PROGRESS_PRECALC_COLL)
                {
                    self.precalculation_progress_ += TREE_PROGRESS_PRECALC_COLL / keys.size();
                    Progress::messageProgress(Progress::Stage::SUPPORT, self.precalculation_progress_ * self.progress_multiplier_ + self.progress_offset_, TREE_PROGRESS_TOTAL);
                }
            }
            {
                std::lock_guard<std::mutex> critical_section(*self.critical_collision_cache_);
                self.collision_cache_.insert(data_outer.begin(), data_outer.end());
            }
            if (radius == 0)
            {
                {
                    std::lock_guard<std::mutex> critical_section(*self.critical_placeable_areas_cache_);
                    self.placeable_areas_cache_.insert(data_placeable_outer.begin(), data_placeable_outer.end());
                }
            }
        });
}
} // namespace n78

//= cura::TreeModelVolumes::calculateCollisionHolefree
namespace n79
{
using RadiusLayerPair = cura::TreeModelVolumes::RadiusLayerPair;
void r79(cura::TreeModelVolumes& self, const std::deque<RadiusLayerPair>& keys)
{
    LayerIndex max_layer = 0;
    for (long long unsigned int i = 0; i < keys.size(); i++)
    {
        max_layer = std::max(max_layer, keys[i].second);
    }
    cura::parallel_for<coord_t>(
        0,
        LayerIndex(max_layer + 1),
        [&](const LayerIndex layer_idx)
        {
            std::unordered_map<RadiusLayerPair, Shape> data;
            for (RadiusLayerPair key : keys)
            {
                const coord_t radius = key.first;
                const coord_t increase_radius_ceil = self.ceilRadius(self.increase_until_radius_, false) - self.ceilRadius(radius, true);
                Shape col = self.getCollision(self.increase_until_radius_, layer_idx, false).offset(EPSILON - increase_radius_ceil, ClipperLib::jtRound).unionPolygons();
                col = self.simplifier_.polygon(col);
                data[RadiusLayerPair(radius, layer_idx)] = col;
            }
            {
                std::lock_guard<std::mutex> critical_section(*self.critical_collision_cache_holefree_);
                self.collision_cache_holefree_.insert(data.begin(), data.end());
            }
        });
}
} // namespace n79

//= cura::TreeModelVolumes::calculateAccumulatedPlaceable0
void r80(cura::TreeModelVolumes& self, const LayerIndex max_layer)
{
    LayerIndex start_layer = -1;
    if (max_layer <= 0)
    {
        std::lock_guard<std::mutex> critical_section_support_max_layer_nr(*self.critical_accumulated_placeables_cache_radius_0_);
        self.accumulated_placeables_cache_radius_0_.emplace(max_layer, Shape());
        return;
    }
    {
        std::lock_guard<std::mutex> critical_section(*self.critical_accumulated_placeables_cache_radius_0_);
        while (self.accumulated_placeables_cache_radius_0_.contains(start_layer + 1))
        {
            ++start_layer;
        }
        start_layer = std::max(LayerIndex{ start_layer + 1 }, LayerIndex{ 1 });
    }
    if (start_layer > max_layer)
    {
        return;
    }
    Shape accumulated_placeable_0
        = start_layer == 1 ? self.machine_area_ : self.getAccumulatedPlaceable0(start_layer - 1).offset(FUDGE_LENGTH + (self.current_min_xy_dist_ + self.current_min_xy_dist_delta_));
    std::vector<std::pair<LayerIndex, Shape>> data(max_layer + 1, std::pair<LayerIndex, Shape>(-1, Shape()));
    for (LayerIndex layer = start_layer; layer <= max_layer; layer++)
    {
        accumulated_placeable_0 = accumulated_placeable_0.unionPolygons(self.getPlaceableAreas(0, layer).offset(FUDGE_LENGTH)).difference(self.anti_overhang_[layer]);
        std::lock_guard<std::mutex> critical_section(*self.critical_accumulated_placeables_cache_radius_0_);
        accumulated_placeable_0 = self.simplifier_.polygon(accumulated_placeable_0);
        data[layer] = std::pair(layer, accumulated_placeable_0);
    }
    cura::parallel_for<size_t>(
        std::max(LayerIndex{ start_layer - 1 }, LayerIndex{ 1 }),
        data.size(),
        [&](const coord_t layer_idx)
        {
            data[layer_idx].second = data[layer_idx].second.offset(-(self.current_min_xy_dist_ + self.current_min_xy_dist_delta_));
        });
    {
        std::lock_guard<std::mutex> critical_section(*self.critical_accumulated_placeables_cache_radius_0_);
        self.accumulated_placeables_cache_radius_0_.insert(data.begin(), data.end());
    }
}

//= cura::TreeModelVolumes::calculateCollisionAvoidance
namespace n81
{
using RadiusLayerPair = cura::TreeModelVolumes::RadiusLayerPair;
void r81(cura::TreeModelVolumes& self, const std::deque<RadiusLayerPair>& keys)
{
    cura::parallel_for<size_t>(
        0,
        keys.size(),
        [&, keys](const size_t key_idx)
        {
            const coord_t radius = keys[key_idx].first;
            const LayerIndex max_required_layer = keys[key_idx].second;
            const coord_t max_step_move = std::max(1.9 * radius, self.current_min_xy_dist_ * 1.9);
            LayerIndex start_layer = 0;
            {
                std::lock_guard<std::mutex> critical_section(*self.critical_avoidance_cache_collision_);
                start_layer = 1 + std::max(self.getMaxCalculatedLayer(radius, self.avoidance_cache_collision_), self.max_layer_idx_without_blocker_);
            }
            if (start_layer > max_required_layer)
            {
                return;
            }
            std::vector<std::pair<RadiusLayerPair, Shape>> data(max_required_layer + 1, std::pair<RadiusLayerPair, Shape>(RadiusLayerPair(radius, -1), Shape()));
            RadiusLayerPair key(radius, 0);
            Shape latest_avoidance = self.getAvoidance(radius, start_layer - 1, AvoidanceType::COLLISION, true, true);
            for (const LayerIndex layer : ranges::views::iota(static_cast<size_t>(start_layer), max_required_layer + 1UL))
            {
                key.second = layer;
                Shape col = self.getCollision(radius, layer, true);
                latest_avoidance = self.safeOffset(latest_avoidance, -self.max_move_, ClipperLib::jtRound, -max_step_move, col);
                Shape placeable0RadiusCompensated = self.getAccumulatedPlaceable0(layer).offset(-std::max(radius, self.increase_until_radius_), ClipperLib::jtRound);
                latest_avoidance = latest_avoidance.difference(placeable0RadiusCompensated).unionPolygons(self.getCollision(radius, layer, true));
                Shape next_latest_avoidance = self.simplifier_.polygon(latest_avoidance);
                latest_avoidance = next_latest_avoidance.unionPolygons(latest_avoidance);
                data[layer] = std::pair<RadiusLayerPair, Shape>(key, latest_avoidance);
            }
            {
                std::lock_guard<std::mutex> critical_section(*self.critical_avoidance_cache_collision_);
                self.avoidance_cache_collision_.insert(data.begin(), data.end());
            }
        });
}
} // namespace n81

//= cura::TreeModelVolumes::safeOffset
Shape r82(const cura::TreeModelVolumes& self, const Shape& me, coord_t distance, ClipperLib::JoinType jt, coord_t max_safe_step_distance, const Shape& collision)
{ 
    const coord_t offset_sign = distance < 0 ? -1 : 1;
    const coord_t step_distance = offset_sign * std::max(self.min_offset_per_step_, std::abs(max_safe_step_distance));
    const size_t steps = std::abs(distance / step_distance);
    Shape ret = me;
    for (size_t i = 0; i < steps; ++i)
    {
        ret = ret.offset(step_distance, jt).unionPolygons(collision);
    }
    ret = ret.offset(distance % step_distance, jt);
    return ret.unionPolygons(collision);
}

//= cura::TreeModelVolumes::calculateAvoidance
namespace n83
{
using RadiusLayerPair = cura::TreeModelVolumes::RadiusLayerPair;
void r83(cura::TreeModelVolumes& self, const std::deque<RadiusLayerPair>& keys)
{
    const std::vector<AvoidanceType> all_types = { AvoidanceType::SLOW, AvoidanceType::FAST_SAFE, AvoidanceType::FAST };
    cura::parallel_for<size_t>(
        0,
        keys.size() * 3,
        [&, keys, all_types](const size_t iter_idx)
        {
            const size_t key_idx = iter_idx / 3;
            const size_t type_idx = iter_idx % all_types.size();
            const AvoidanceType type = all_types[type_idx];
            const bool slow = type == AvoidanceType::SLOW;
            const bool holefree = type == AvoidanceType::FAST_SAFE;
            const coord_t radius = keys[key_idx].first;
            const LayerIndex max_required_layer = keys[key_idx].second;
            if (holefree && radius >= self.increase_until_radius_ + self.current_min_xy_dist_delta_)
            {
                return;
            }
            const coord_t offset_speed = slow ? self.max_move_slow_ : self.max_move_;
            const coord_t max_step_move = std::max(1.9 * radius, self.current_min_xy_dist_ * 1.9);
            RadiusLayerPair key(radius, 0);
            Shape latest_avoidance;
            LayerIndex start_layer;
            {
                std::lock_guard<std::mutex> critical_section(*(slow ? self.critical_avoidance_cache_slow_ : holefree ? self.critical_avoidance_cache_holefree_ : self.critical_avoidance_cache_));
                start_layer = 1 + self.getMaxCalculatedLayer(radius, slow ? self.avoidance_cache_slow_ : holefree ? self.avoidance_cache_hole_ : self.avoidance_cache_);
            }
            if (start_layer > max_required_layer)
            {
                return;
            }
            start_layer = std::max(start_layer, LayerIndex(1)); 
            std::vector<std::pair<RadiusLayerPair, Shape>> data(max_required_layer + 1, std::pair<RadiusLayerPair, Shape>(RadiusLayerPair(radius, -1), Shape()));
            latest_avoidance
                = self.getAvoidance(radius, start_layer - 1, type, false, true); 
            for (const LayerIndex layer : ranges::views::iota(static_cast<size_t>(start_layer), max_required_layer + 1UL))
            {
                key.second = layer;
                Shape col;
                if ((slow && radius < self.increase_until_radius_ + self.current_min_xy_dist_delta_) || holefree)
                {
                    col = self.getCollisionHolefree(radius, layer, true);
                }
                else
                {
                    col = self.getCollision(radius, layer, true);
                }
                latest_avoidance = self.safeOffset(latest_avoidance, -offset_speed, ClipperLib::jtRound, -max_step_move, col);
                Shape next_latest_avoidance = self.simplifier_.polygon(latest_avoidance);
                latest_avoidance = next_latest_avoidance.unionPolygons(latest_avoidance);
                data[layer] = std::pair<RadiusLayerPair, Shape>(key, latest_avoidance);
            }
            {
                std::lock_guard<std::mutex> critical_section(*self.critical_progress_);
                if (self.precalculated_ && self.precalculation_progress_ < TREE_PROGRESS_PRECALC_COLL + TREE_PROGRESS_PRECALC_AVO)
                {
                    self.precalculation_progress_ += self.support_rests_on_model_ ? 0.4 : 1 * TREE_PROGRESS_PRECALC_AVO / (keys.size() * 3);
                    Progress::messageProgress(Progress::Stage::SUPPORT, self.precalculation_progress_ * self.progress_multiplier_ + self.progress_offset_, TREE_PROGRESS_TOTAL);
                }
            }
            {
                std::lock_guard<std::mutex> critical_section(*(slow ? self.critical_avoidance_cache_slow_ : holefree ? self.critical_avoidance_cache_holefree_ : self.critical_avoidance_cache_));
                (slow ? self.avoidance_cache_slow_ : holefree ? self.avoidance_cache_hole_ : self.avoidance_cache_).insert(data.begin(), data.end());
            }
        });
}
} // namespace n83

//= cura::TreeModelVolumes::calculatePlaceables
namespace n84
{
using RadiusLayerPair = cura::TreeModelVolumes::RadiusLayerPair;
void r84(cura::TreeModelVolumes& self, const std::deque<RadiusLayerPair>& keys)
{
    cura::parallel_for<size_t>(
        0,
        keys.size(),
        [&, keys](const size_t key_idx)
        {
            const coord_t radius = keys[key_idx].first;
            const LayerIndex max_required_layer = keys[key_idx].second;
            std::vector<std::pair<RadiusLayerPair, Shape>> data(max_required_layer + 1, std::pair<RadiusLayerPair, Shape>(RadiusLayerPair(radius, -1), Shape()));
            RadiusLayerPair key(radius, 0);
            LayerIndex start_layer;
            {
                std::lock_guard<std::mutex> critical_section(*self.critical_placeable_areas_cache_);
                start_layer = 1 + self.getMaxCalculatedLayer(radius, self.placeable_areas_cache_);
            }
            if (start_layer > max_required_layer)
            {
                return;
            }
            if (start_layer == 0)
            {
                data[0] = std::pair<RadiusLayerPair, Shape>(key, self.machine_border_.difference(self.getCollision(radius, 0, true)));
                start_layer = 1;
            }
            for (const LayerIndex layer : ranges::views::iota(static_cast<size_t>(start_layer), max_required_layer + 1))
            {
                key.second = layer;
                Shape placeable = self.getPlaceableAreas(0, layer);
                placeable = self.simplifier_.polygon(placeable); 
                placeable = placeable.offset(-(radius + (self.current_min_xy_dist_ + self.current_min_xy_dist_delta_))).unionPolygons();
                data[layer] = std::pair<RadiusLayerPair, Shape>(key, placeable);
            }
            {
                std::lock_guard<std::mutex> critical_section(*self.critical_progress_);
                if (self.precalculated_ && self.precalculation_progress_ < TREE_PROGRESS_PRECALC_COLL + TREE_PROGRESS_PRECALC_AVO)
                {
                    self.precalculation_progress_ += 0.2 * TREE_PROGRESS_PRECALC_AVO / (keys.size());
                    Progress::messageProgress(Progress::Stage::SUPPORT, self.precalculation_progress_ * self.progress_multiplier_ + self.progress_offset_, TREE_PROGRESS_TOTAL);
                }
            }
            {
                std::lock_guard<std::mutex> critical_section(*self.critical_placeable_areas_cache_);
                self.placeable_areas_cache_.insert(data.begin(), data.end());
            }
        });
}
} // namespace n84

//= cura::TreeModelVolumes::calculateAvoidanceToModel
namespace n85
{
using RadiusLayerPair = cura::TreeModelVolumes::RadiusLayerPair;
void r85(cura::TreeModelVolumes& self, const std::deque<RadiusLayerPair>& keys)
{
    const std::vector<AvoidanceType> all_types = { AvoidanceType::SLOW, AvoidanceType::FAST_SAFE, AvoidanceType::FAST };
    cura::parallel_for<size_t>(
        0,
        keys.size() * 3,
        [&, keys, all_types](const size_t iter_idx)
        {
            const size_t key_idx = iter_idx / 3;
            const size_t type_idx = iter_idx % all_types.size();
            const AvoidanceType type = all_types[type_idx];
            const bool slow = type == AvoidanceType::SLOW;
            const bool holefree = type == AvoidanceType::FAST_SAFE;
            const coord_t radius = keys[key_idx].first;
            const LayerIndex max_required_layer = keys[key_idx].second;
            if (holefree && radius >= self.increase_until_radius_ + self.current_min_xy_dist_delta_)
            {
                return;
            }
            const coord_t offset_speed = slow ? self.max_move_slow_ : self.max_move_;
            const coord_t max_step_move = std::max(1.9 * radius, self.current_min_xy_dist_ * 1.9);
            Shape latest_avoidance;
            std::vector<std::pair<RadiusLayerPair, Shape>> data(max_required_layer + 1, std::pair<RadiusLayerPair, Shape>(RadiusLayerPair(radius, -1), Shape()));
            RadiusLayerPair key(radius, 0);
            LayerIndex start_layer;
            {
                std::lock_guard<std::mutex> critical_section(
                    *(slow       ? self.critical_avoidance_cache_to_model_slow_
                      : holefree ? self.critical_avoidance_cache_holefree_to_model_
                                 : self.critical_avoidance_cache_to_model_));
                start_layer = 1 + self.getMaxCalculatedLayer(radius, slow ? self.avoidance_cache_to_model_slow_ : holefree ? self.avoidance_cache_hole_to_model_ : self.avoidance_cache_to_model_);
            }
            start_layer = std::max(start_layer, LayerIndex(1));
            if (start_layer > max_required_layer)
            {
                return;
            }
            self.getPlaceableAreas(radius, max_required_layer); 
            latest_avoidance
                = self.getAvoidance(radius, start_layer - 1, type, true, true); 
            for (const LayerIndex layer : ranges::views::iota(static_cast<size_t>(start_layer), max_required_layer + 1))
            {
                key.second = layer;
                Shape col = self.getCollision(radius, layer, true);
                if ((slow && radius < self.increase_until_radius_ + self.current_min_xy_dist_delta_) || holefree)
                {
                    col = self.getCollisionHolefree(radius, layer, true);
                }
                else
                {
                    col = self.getCollision(radius, layer, true);
                }
                latest_avoidance = self.safeOffset(latest_avoidance, -offset_speed, ClipperLib::jtRound, -max_step_move, col).difference(self.getPlaceableAreas(radius, layer));
                Shape next_latest_avoidance = self.simplifier_.polygon(latest_avoidance);
                latest_avoidance = next_latest_avoidance.unionPolygons(latest_avoidance);
                data[layer] = std::pair<RadiusLayerPair, Shape>(key, latest_avoidance);
            }
            {
                std::lock_guard<std::mutex> critical_section(*self.critical_progress_);
                if (self.precalculated_ && self.precalculation_progress_ < TREE_PROGRESS_PRECALC_COLL + TREE_PROGRESS_PRECALC_AVO)
                {
                    self.precalculation_progress_ += 0.4 * TREE_PROGRESS_PRECALC_AVO / (keys.size() * 3);
                    Progress::messageProgress(Progress::Stage::SUPPORT, self.precalculation_progress_ * self.progress_multiplier_ + self.progress_offset_, TREE_PROGRESS_TOTAL);
                }
            }
            {
                std::lock_guard<std::mutex> critical_section(
                    *(slow       ? self.critical_avoidance_cache_to_model_slow_
                      : holefree ? self.critical_avoidance_cache_holefree_to_model_
                                 : self.critical_avoidance_cache_to_model_));
                (slow ? self.avoidance_cache_to_model_slow_ : holefree ? self.avoidance_cache_hole_to_model_ : self.avoidance_cache_to_model_).insert(data.begin(), data.end());
            }
        });
}
} // namespace n85

//= cura::TreeModelVolumes::calculateWallRestrictions
namespace n86
{
using RadiusLayerPair = cura::TreeModelVolumes::RadiusLayerPair;
void r86(cura::TreeModelVolumes& self, const std::deque<RadiusLayerPair>& keys)
{
    cura::parallel_for<size_t>(
        0,
        keys.size(),
        [&, keys](const size_t key_idx)
        {
            const coord_t radius = keys[key_idx].first;
            RadiusLayerPair key(radius, 0);
            coord_t min_layer_bottom;
            std::unordered_map<RadiusLayerPair, Shape> data;
            std::unordered_map<RadiusLayerPair, Shape> data_min;
            {
                std::lock_guard<std::mutex> critical_section(*self.critical_wall_restrictions_cache_);
                min_layer_bottom = self.getMaxCalculatedLayer(radius, self.wall_restrictions_cache_);
            }
            if (min_layer_bottom < 1)
            {
                min_layer_bottom = 1;
            }
            for (const auto layer_idx : ranges::views::iota(min_layer_bottom, keys[key_idx].second + 1UL))
            {
                key.second = layer_idx;
                const LayerIndex layer_idx_below = layer_idx - 1;
                Shape wall_restriction = self.simplifier_.polygon(
                    self.getCollision(0, layer_idx, false).intersection(self.getCollision(radius, layer_idx_below, true))); 
                data.emplace(key, wall_restriction);
                if (self.current_min_xy_dist_delta_ > 0)
                {
                    Shape wall_restriction_min = self.simplifier_.polygon(self.getCollision(0, layer_idx, true).intersection(self.getCollision(radius, layer_idx_below, true)));
                    data_min.emplace(key, wall_restriction_min);
                }
            }
            {
                std::lock_guard<std::mutex> critical_section(*self.critical_wall_restrictions_cache_);
                self.wall_restrictions_cache_.insert(data.begin(), data.end());
            }
            {
                std::lock_guard<std::mutex> critical_section(*self.critical_wall_restrictions_cache_min_);
                self.wall_restrictions_cache_min_.insert(data_min.begin(), data_min.end());
            }
        });
}
} // namespace n86

//= cura::TreeModelVolumes::ceilRadius
coord_t r87(const cura::TreeModelVolumes& self, coord_t radius)
{
    if (radius == 0)
    {
        return 0;
    }
    if (radius <= self.radius_0_)
    {
        return self.radius_0_;
    }
    coord_t exponential_result = SUPPORT_TREE_EXPONENTIAL_THRESHOLD * SUPPORT_TREE_EXPONENTIAL_FACTOR;
    const coord_t stepsize = (exponential_result - self.radius_0_) / (SUPPORT_TREE_PRE_EXPONENTIAL_STEPS + 1);
    coord_t result = self.radius_0_;
    for (size_t i = 0; i < SUPPORT_TREE_PRE_EXPONENTIAL_STEPS; ++i)
    {
        result += stepsize;
        if (result >= radius && ! self.ignorable_radii_.count(result))
        {
            return result;
        }
    }
    while (exponential_result < radius || self.ignorable_radii_.count(exponential_result))
    {
        exponential_result = std::max(coord_t(exponential_result * SUPPORT_TREE_EXPONENTIAL_FACTOR), exponential_result + SUPPORT_TREE_COLLISION_RESOLUTION);
    }
    return exponential_result;
}

//= cura::TreeModelVolumes::getArea | ta=std::pair<long long, cura::LayerIndex>
namespace n88
{
using KEY = std::pair<long long, cura::LayerIndex>;
const std::optional<std::reference_wrapper<const Shape>> r88(const cura::TreeModelVolumes& self, const std::unordered_map<KEY, Shape>& cache, const KEY key)
{
    const auto it = cache.find(key);
    if (it != cache.end())
    {
        return std::optional<std::reference_wrapper<const Shape>>{ it->second };
    }
    else
    {
        return std::optional<std::reference_wrapper<const Shape>>();
    }
}
} // namespace n88

//= cura::TreeModelVolumes::calculateMachineBorderCollision
Shape r89(const Shape&& machine_border)
{
    Shape machine_volume_border = machine_border.offset(MM2INT(1000.0)); 
    machine_volume_border = machine_volume_border.difference(machine_border); 
    return machine_volume_border;
}

//= cura::TreeModelVolumes::calculateCollision
namespace n90
{
using RadiusLayerPair = cura::TreeModelVolumes::RadiusLayerPair;
void r90(cura::TreeModelVolumes& self, RadiusLayerPair key)
{
    self.calculateCollision(std::deque<RadiusLayerPair>{ RadiusLayerPair(key) });
}
} // namespace n90

//= cura::TreeModelVolumes::calculateCollisionAvoidance
namespace n91
{
using RadiusLayerPair = cura::TreeModelVolumes::RadiusLayerPair;
void r91(cura::TreeModelVolumes& self, RadiusLayerPair key)
{
    self.calculateCollisionAvoidance(std::deque<RadiusLayerPair>{ RadiusLayerPair(key) });
}
} // namespace n91

//= cura::TreeModelVolumes::calculateCollisionHolefree
namespace n92
{
using RadiusLayerPair = cura::TreeModelVolumes::RadiusLayerPair;
void r92(cura::TreeModelVolumes& self, RadiusLayerPair key)
{
    self.calculateCollisionHolefree(std::deque<RadiusLayerPair>{ RadiusLayerPair(key) });
}
} // namespace n92

//= cura::TreeModelVolumes::calculateAvoidance
namespace n93
{
using RadiusLayerPair = cura::TreeModelVolumes::RadiusLayerPair;
void r93(cura::TreeModelVolumes& self, RadiusLayerPair key)
{
    self.calculateAvoidance(std::deque<RadiusLayerPair>{ RadiusLayerPair(key) });
}
} // namespace n93

//= cura::TreeModelVolumes::calculatePlaceables
namespace n94
{
using RadiusLayerPair = cura::TreeModelVolumes::RadiusLayerPair;
void r94(cura::TreeModelVolumes& self, RadiusLayerPair key)
{
    self.calculatePlaceables(std::deque<RadiusLayerPair>{ key });
}
} // namespace n94

//= cura::TreeModelVolumes::calculateAvoidanceToModel
namespace n95
{
using RadiusLayerPair = cura::TreeModelVolumes::RadiusLayerPair;
void r95(cura::TreeModelVolumes& self, RadiusLayerPair key)
{
    self.calculateAvoidanceToModel(std::deque<RadiusLayerPair>{ RadiusLayerPair(key) });
}
} // namespace n95

//= cura::TreeModelVolumes::calculateWallRestrictions
namespace n96
{
using RadiusLayerPair = cura::TreeModelVolumes::RadiusLayerPair;
void r96(cura::TreeModelVolumes& self, RadiusLayerPair key)
{
    self.calculateWallRestrictions(std::deque<RadiusLayerPair>{ RadiusLayerPair(key) });
}
} // namespace n96

//END
}  // namespace ref
