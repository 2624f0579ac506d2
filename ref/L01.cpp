// From mesh to layers.
#include <algorithm>
#include <array>
#include <unordered_set>
#include <unordered_map>
#include <set>
#include <map>
#include <list>
#include <vector>
#include <deque>
#include <memory>
#include <numeric>
#include <optional>
#include <functional>
#include <string>
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "geometry/Polygon.h"
#include "geometry/OpenPolyline.h"
#include "geometry/SingleShape.h"
#include "geometry/MixedLinesSet.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "raft.h"
#include "Application.h"
#include "ConicalOverhang.h"
#include "ExtruderTrain.h"
#include "LayerPlan.h"
#include "Mold.h"
#include "Scene.h"
#include "Slice.h"
#include "SlicedUVCoordinates.h"
#include "SupportInfillPart.h"
#include "TopSurface.h"
#include "WallToolPaths.h"
#include "WallsComputation.h"
#include "geometry/OpenLinesSet.h"
#include "geometry/OpenPolyline.h"
#include "geometry/Point2LL.h"
#include "geometry/Polygon.h"
#include "geometry/Shape.h"
#include "geometry/SingleShape.h"
#include "infill.h"
#include "layerPart.h"
#include "mesh.h"
#include "multiVolumes.h"
#include "plugins/slots.h"
#include "progress/Progress.h"
#include "raft.h"
#include "settings/AdaptiveLayerHeights.h"
#include "settings/EnumSettings.h"
#include "settings/Settings.h"
#include "settings/types/Angle.h"
#include "settings/types/LayerIndex.h"
#include "settings/types/Ratio.h"
#include "skin.h"
#include "sliceDataStorage.h"
#include "slicer.h"
#include "support.h"
#include "utils/Coord_t.h"
#include "utils/OpenPolylineStitcher.h"
#include "utils/Point2F.h"
#include "utils/Point3D.h"
#include "utils/Simplify.h"
#include "utils/SparsePointGridInclusive.h"
#include "utils/ThreadPool.h"
#include "utils/gettime.h"
#include "utils/math.h"
#include "utils/polygonUtils.h"
#include "utils/section_type.h"
#include <algorithm>
#include <algorithm> // remove_if
#include <cmath> // std::ceil
#include <cstdio>
#include <fmt/format.h>
#include <fstream>
#include <iostream>
#include <numbers>
#include <optional>
#include <queue>
#include <range/v3/algorithm/all_of.hpp>
#include <range/v3/algorithm/equal.hpp>
#include <range/v3/to_container.hpp>
#include <range/v3/view/c_str.hpp>
#include <range/v3/view/join.hpp>
#include <range/v3/view/transform.hpp>
#include <scripta/logger.h>
#include <spdlog/spdlog.h>
#include <unordered_map>
#include "layerPart.h"
#include "skin.h"
#include "slicer.h"
#include "ref.h"

namespace ref
{
using namespace cura;

//= cura::ConicalOverhang::apply
void r1(Slicer* slicer, const Mesh& mesh)
{
    const AngleRadians angle = mesh.settings_.get<AngleRadians>("conical_overhang_angle");
    const double max_hole_area = mesh.settings_.get<double>("conical_overhang_hole_size");
    const double tan_angle = tan(angle); 
    const coord_t layer_thickness = mesh.settings_.get<coord_t>("layer_height");
    coord_t max_dist_from_lower_layer = std::llround(tan_angle * static_cast<double>(layer_thickness)); 
    for (LayerIndex layer_nr = LayerIndex(slicer->layers.size()) - 2; layer_nr >= 0; layer_nr--)
    {
        SlicerLayer& layer = slicer->layers[static_cast<size_t>(layer_nr)];
        SlicerLayer& layer_above = slicer->layers[static_cast<size_t>(layer_nr) + 1ul];
        if (std::abs(max_dist_from_lower_layer) < 5)
        { 
            constexpr coord_t safe_dist = 20;
            Shape diff = layer_above.polygons_.difference(layer.polygons_.offset(-safe_dist));
            layer.polygons_ = layer.polygons_.unionPolygons(diff);
            layer.polygons_ = layer.polygons_.smooth(safe_dist);
            layer.polygons_ = Simplify(safe_dist, safe_dist / 2, 0).polygon(layer.polygons_);
        }
        else
        {
            std::vector<SingleShape> layer_parts = layer.polygons_.splitIntoParts();
            Shape above = layer_above.polygons_;
            for (unsigned int part = 0; part < layer_parts.size(); part++)
            {
                if (layer_parts[part].size() > 1) 
                {
                    for (unsigned int hole_nr = 1; hole_nr < layer_parts[part].size(); ++hole_nr)
                    {
                        Shape hole_poly;
                        hole_poly.push_back(layer_parts[part][hole_nr]);
                        if (max_hole_area > 0.0 && INT2MM2(std::abs(hole_poly.area())) < max_hole_area)
                        {
                            Shape hole_with_above = hole_poly.intersection(above);
                            if (! hole_with_above.empty())
                            {
                                Shape hole_difference = hole_poly.xorPolygons(hole_with_above);
                                if (hole_difference.empty())
                                {
                                    above = above.difference(hole_poly);
                                }
                            }
                        }
                    }
                }
            }
            layer.polygons_ = layer.polygons_.unionPolygons(above.offset(-max_dist_from_lower_layer));
        }
    }
}

//= cura::SupportInfillPart::SupportInfillPart
void r3(cura::SupportInfillPart& self, const SingleShape& outline, coord_t support_line_width, bool use_fractional_config, coord_t inset_width_to_generate, coord_t custom_line_distance)
{
        member(self.outline_) = outline;
        member(self.outline_boundary_box_) = outline;
        member(self.support_line_width_) = support_line_width;
        member(self.inset_width_to_generate_) = inset_width_to_generate;
        member(self.custom_line_distance_) = custom_line_distance;
        member(self.use_fractional_config_) = use_fractional_config;
}

//= cura::TopSurface::TopSurface
void r4(cura::TopSurface& self)
{
}

//= cura::TopSurface::setAreasFromMeshAndLayerNumber
void r5(cura::TopSurface& self, SliceMeshStorage& mesh, size_t layer_number)
{
    Shape mesh_above;
    if (layer_number < mesh.layers.size() - 1)
    {
        mesh_above = mesh.layers[layer_number + 1].getOutlines();
    } 
    if (mesh.settings.get<bool>("magic_spiralize"))
    {
        if (layer_number == mesh.settings.get<size_t>("initial_bottom_layers") - 1)
        {
            self.areas = mesh.layers[layer_number].getOutlines();
        }
    }
    else
    {
        self.areas = mesh.layers[layer_number].getOutlines().difference(mesh_above);
    }
}

//= cura::WallsComputation::generateWalls
void r8(cura::WallsComputation& self, SliceLayerPart* part, SectionType section_type)
{
    size_t wall_count = self.settings_.get<size_t>("wall_line_count");
    if (wall_count == 0) 
    {
        part->print_outline = part->outline;
        part->inner_area = part->outline;
        return;
    }
    const bool spiralize = self.settings_.get<bool>("magic_spiralize");
    const size_t alternate = ((self.layer_nr_ % 2) + 2) % 2;
    if (spiralize && self.layer_nr_ < LayerIndex(self.settings_.get<size_t>("initial_bottom_layers"))
        && alternate == 1) 
    {
        wall_count += 5;
    }
    if (self.settings_.get<bool>("alternate_extra_perimeter"))
    {
        wall_count += alternate;
    }
    const bool first_layer = self.layer_nr_ == 0;
    const Ratio line_width_0_factor = first_layer ? self.settings_.get<ExtruderTrain&>("wall_0_extruder_nr").settings_.get<Ratio>("initial_layer_line_width_factor") : 1.0_r;
    const coord_t line_width_0 = self.settings_.get<coord_t>("wall_line_width_0") * line_width_0_factor;
    const coord_t wall_0_inset = self.settings_.get<coord_t>("wall_0_inset");
    const coord_t wall_x_inset = self.settings_.get<coord_t>("wall_x_inset");
    const Ratio line_width_x_factor = first_layer ? self.settings_.get<ExtruderTrain&>("wall_x_extruder_nr").settings_.get<Ratio>("initial_layer_line_width_factor") : 1.0_r;
    const coord_t line_width_x = self.settings_.get<coord_t>("wall_line_width_x") * line_width_x_factor;
    if (spiralize)
    {
        const bool mesh_group_support_paint = Application::getInstance().current_slice_->scene.current_mesh_group->has_painted_support;
        const bool recompute_outline_based_on_outer_wall = (self.settings_.get<bool>("support_enable") || mesh_group_support_paint) && ! self.settings_.get<bool>("fill_outline_gaps");
        self.generateSpiralInsets(part, line_width_0, wall_0_inset, recompute_outline_based_on_outer_wall);
        if (self.layer_nr_ <= static_cast<LayerIndex>(self.settings_.get<size_t>("initial_bottom_layers")))
        {
            WallToolPaths wall_tool_paths(part->outline, line_width_0, line_width_x, wall_count, wall_0_inset, self.settings_, self.layer_nr_, section_type);
            part->wall_toolpaths = wall_tool_paths.getToolPaths();
            part->inner_area = wall_tool_paths.getInnerContour();
        }
    }
    else
    {
        WallToolPaths wall_tool_paths(part->outline, line_width_0, line_width_x, wall_count, wall_0_inset, wall_x_inset, self.settings_, self.layer_nr_, section_type);
        part->wall_toolpaths = wall_tool_paths.getToolPaths();
        part->inner_area = wall_tool_paths.getInnerContour();
    }
    part->outline = SingleShape{ Simplify(self.settings_).polygon(part->outline) };
    part->print_outline = part->outline;
}

//= cura::WallsComputation::generateWalls
void r9(cura::WallsComputation& self, SliceLayer* layer, SectionType section)
{
    for (SliceLayerPart& part : layer->parts)
    {
        self.generateWalls(&part, section);
    }
    bool check_wall_and_spiral = self.settings_.get<size_t>("wall_line_count") >= 1 && ! self.settings_.get<bool>("fill_outline_gaps");
    auto iterator_remove = std::remove_if(
        layer->parts.begin(),
        layer->parts.end(),
        [&check_wall_and_spiral](const SliceLayerPart& part)
        {
            return (check_wall_and_spiral && part.wall_toolpaths.empty() && part.spiral_wall.empty()) || part.outline.empty() || part.print_outline.empty();
        });
    layer->parts.erase(iterator_remove, layer->parts.end());
}

//= cura::WallsComputation::generateSpiralInsets
void r10(cura::WallsComputation& self, SliceLayerPart* part, coord_t line_width_0, coord_t wall_0_inset, bool recompute_outline_based_on_outer_wall)
{
    part->spiral_wall = part->outline.offset(-line_width_0 / 2 - wall_0_inset);
    const ExtruderTrain& train_wall = self.settings_.get<ExtruderTrain&>("wall_0_extruder_nr");
    part->spiral_wall = Simplify(train_wall.settings_).polygon(part->spiral_wall);
    part->spiral_wall.removeDegenerateVerts();
    if (recompute_outline_based_on_outer_wall)
    {
        part->print_outline = part->spiral_wall.offset(line_width_0 / 2, ClipperLib::jtSquare);
    }
    else
    {
        part->print_outline = part->outline;
    }
}

//= cura::createLayerWithParts
void r11(const Settings& settings, SliceLayer& storageLayer, SlicerLayer* layer)
{
    OpenPolylineStitcher::stitch(layer->open_polylines_, storageLayer.open_polylines, layer->polygons_, settings.get<coord_t>("wall_line_width_0"));
    storageLayer.open_polylines = Simplify(settings).polyline(storageLayer.open_polylines);
    const bool union_all_remove_holes = settings.get<bool>("meshfix_union_all_remove_holes");
    if (union_all_remove_holes)
    {
        for (unsigned int i = 0; i < layer->polygons_.size(); i++)
        {
            if (layer->polygons_[i].orientation())
                layer->polygons_[i].reverse();
        }
    }
    std::vector<SingleShape> result;
    const bool union_layers = settings.get<bool>("meshfix_union_all");
    const ESurfaceMode surface_only = settings.get<ESurfaceMode>("magic_mesh_surface_mode");
    if (surface_only == ESurfaceMode::SURFACE && ! union_layers)
    { 
        result.reserve(layer->polygons_.size());
        for (const Polygon& poly : layer->polygons_)
        {
            if (poly.empty())
            {
                continue;
            }
            result.emplace_back();
            result.back().push_back(poly);
        }
    }
    else
    {
        result = layer->polygons_.splitIntoParts(union_layers || union_all_remove_holes);
    }
    for (auto& part : result)
    {
        storageLayer.parts.emplace_back();
        if (part.empty())
        {
            continue;
        }
        storageLayer.parts.back().outline = part;
        storageLayer.parts.back().boundaryBox.calculate(storageLayer.parts.back().outline);
        if (storageLayer.parts.back().outline.empty())
        {
            storageLayer.parts.pop_back();
        }
    }
}

//= cura::createLayerParts
void r12(SliceMeshStorage& mesh, Slicer* slicer)
{
    const auto total_layers = slicer->layers.size();
    cura::parallel_for<size_t>(
        0,
        total_layers,
        [slicer, &mesh](size_t layer_nr)
        {
            SliceLayer& layer_storage = mesh.layers[layer_nr];
            SlicerLayer& slice_layer = slicer->layers[layer_nr];
            createLayerWithParts(mesh.settings, layer_storage, &slice_layer);
        });
    for (LayerIndex layer_nr = total_layers - 1; layer_nr >= 0; layer_nr--)
    {
        SliceLayer& layer_storage = mesh.layers[layer_nr];
        if (layer_storage.parts.size() > 0 || (mesh.settings.get<ESurfaceMode>("magic_mesh_surface_mode") != ESurfaceMode::NORMAL && layer_storage.open_polylines.size() > 0))
        {
            mesh.layer_nr_max_filled_layer = layer_nr; 
            break;
        }
    }
}

//= cura::generateMultipleVolumesOverlap
void r14(std::vector<Slicer*>& volumes)
{
    if (volumes.size() < 2)
    {
        return;
    }
    int offset_to_merge_other_merged_volumes = 20;
    for (Slicer* volume : volumes)
    {
        ClipperLib::PolyFillType fill_type = volume->mesh->settings_.get<bool>("meshfix_union_all") ? ClipperLib::pftNonZero : ClipperLib::pftEvenOdd;
        coord_t overlap = volume->mesh->settings_.get<coord_t>("multiple_mesh_overlap");
        if (! volume->mesh->isModelMesh() || volume->mesh->settings_.get<bool>("support_mesh") || overlap == 0)
        {
            continue;
        }
        AABB3D aabb(volume->mesh->getAABB());
        aabb.expandXY(overlap); 
        for (LayerIndex layer_nr = 0; layer_nr < volume->layers.size(); layer_nr++)
        {
            Shape all_other_volumes;
            for (Slicer* other_volume : volumes)
            {
                if (! other_volume->mesh->isModelMesh() || other_volume->mesh->settings_.get<bool>("support_mesh") || ! other_volume->mesh->getAABB().hit(aabb)
                    || other_volume == volume)
                {
                    continue;
                }
                SlicerLayer& other_volume_layer = other_volume->layers[layer_nr];
                all_other_volumes = all_other_volumes.unionPolygons(other_volume_layer.polygons_.offset(offset_to_merge_other_merged_volumes), fill_type);
            }
            SlicerLayer& volume_layer = volume->layers[layer_nr];
            volume_layer.polygons_ = volume_layer.polygons_.unionPolygons(all_other_volumes.intersection(volume_layer.polygons_.offset(overlap / 2)), fill_type);
        }
    }
}

//= cura::SkinInfillAreaComputation::getSkinLineWidth
coord_t r16(const SliceMeshStorage& mesh, const LayerIndex& layer_nr)
{
    coord_t skin_line_width = mesh.settings.get<coord_t>("skin_line_width");
    if (layer_nr == 0)
    {
        const ExtruderTrain& train_skin = mesh.settings.get<ExtruderTrain&>("top_bottom_extruder_nr");
        skin_line_width *= train_skin.settings_.get<Ratio>("initial_layer_line_width_factor");
    }
    return skin_line_width;
}

//= cura::SkinInfillAreaComputation::getOutlineOnLayer
Shape r18(cura::SkinInfillAreaComputation& self, const SliceLayerPart& part_here, const LayerIndex layer2_nr)
{
    Shape result;
    if (layer2_nr >= static_cast<int>(self.mesh_.layers.size()))
    {
        return result;
    }
    const SliceLayer& layer2 = self.mesh_.layers[layer2_nr];
    for (const SliceLayerPart& part2 : layer2.parts)
    {
        if (part_here.boundaryBox.hit(part2.boundaryBox))
        {
            result.push_back(part2.outline);
        }
    }
    return result;
}

//= cura::SkinInfillAreaComputation::generateSkinsAndInfill
void r19(cura::SkinInfillAreaComputation& self)
{
    self.generateSkinAndInfillAreas();
    SliceLayer* layer = &self.mesh_.layers[self.layer_nr_];
    for (SliceLayerPart& part : layer->parts)
    {
        self.generateSkinRoofingFlooringFill(part);
        self.generateTopAndBottomMostSurfaces(part);
    }
}

//= cura::SkinInfillAreaComputation::generateSkinAndInfillAreas
void r20(cura::SkinInfillAreaComputation& self)
{
    SliceLayer& layer = self.mesh_.layers[self.layer_nr_];
    if (! self.process_infill_ && self.bottom_layer_count_ == 0 && self.top_layer_count_ == 0)
    {
        return;
    }
    for (SliceLayerPart& part : layer.parts)
    {
        self.generateSkinAndInfillAreas(part);
    }
}

//= cura::SkinInfillAreaComputation::generateSkinAndInfillAreas
namespace n21
{
#define MIN_AREA_SIZE (0.4 * 0.4)
void r21(cura::SkinInfillAreaComputation& self, SliceLayerPart& part)
{
    Shape top_skin;
    if (self.top_layer_count_ > 0)
    {
        top_skin = Shape(part.inner_area);
    }
    Shape bottom_skin;
    if (self.bottom_layer_count_ > 0 || self.layer_nr_ < LayerIndex(self.initial_bottom_layer_count_))
    {
        bottom_skin = Shape(part.inner_area);
    }
    self.calculateBottomSkin(part, bottom_skin);
    self.calculateTopSkin(part, top_skin);
    self.applySkinExpansion(part.inner_area, top_skin, bottom_skin);
    Shape skin = top_skin.unionPolygons(bottom_skin);
    skin.removeSmallAreas(MIN_AREA_SIZE);
    part.infill_area = part.inner_area.difference(skin);
    self.applySkinFillSmallInfillGaps(skin, part.infill_area);
    if (self.process_infill_)
    { 
        self.generateInfill(part);
    }
    for (const SingleShape& skin_area_part : skin.splitIntoParts())
    {
        if (skin_area_part.empty())
        {
            continue;
        }
        part.skin_parts.emplace_back();
        part.skin_parts.back().outline = skin_area_part;
    }
}
} // namespace n21

//= cura::SkinInfillAreaComputation::calculateBottomSkin
void r22(cura::SkinInfillAreaComputation& self, const SliceLayerPart& part, Shape& downskin)
{
    if (self.bottom_layer_count_ == 0 && self.initial_bottom_layer_count_ == 0)
    {
        return; 
    }
    if (self.layer_nr_ < LayerIndex(self.initial_bottom_layer_count_))
    {
        return; 
    }
    LayerIndex bottom_check_start_layer_idx{ std::max(LayerIndex{ 0 }, LayerIndex{ self.layer_nr_ - self.bottom_layer_count_ }) };
    Shape not_air = self.getOutlineOnLayer(part, bottom_check_start_layer_idx);
    if (! self.no_small_gaps_heuristic_)
    {
        for (int downskin_layer_nr = bottom_check_start_layer_idx + 1; downskin_layer_nr < self.layer_nr_; downskin_layer_nr++)
        {
            not_air = not_air.intersection(self.getOutlineOnLayer(part, downskin_layer_nr));
        }
    }
    const double min_infill_area = self.mesh_.settings.get<double>("min_infill_area");
    if (min_infill_area > 0.0)
    {
        not_air.removeSmallAreas(min_infill_area);
    }
    downskin = downskin.difference(not_air); 
}

//= cura::SkinInfillAreaComputation::calculateTopSkin
void r23(cura::SkinInfillAreaComputation& self, const SliceLayerPart& part, Shape& upskin)
{
    if (self.layer_nr_ > LayerIndex(self.mesh_.layers.size()) - self.top_layer_count_ || self.top_layer_count_ <= 0)
    {
        return;
    }
    Shape not_air = self.getOutlineOnLayer(part, self.layer_nr_ + self.top_layer_count_);
    if (! self.no_small_gaps_heuristic_)
    {
        for (int upskin_layer_nr = self.layer_nr_ + 1; upskin_layer_nr < self.layer_nr_ + self.top_layer_count_; upskin_layer_nr++)
        {
            not_air = not_air.intersection(self.getOutlineOnLayer(part, upskin_layer_nr));
        }
    }
    const double min_infill_area = self.mesh_.settings.get<double>("min_infill_area");
    if (min_infill_area > 0.0)
    {
        not_air.removeSmallAreas(min_infill_area);
    }
    upskin = upskin.difference(not_air); 
}

//= cura::SkinInfillAreaComputation::applySkinExpansion
void r24(cura::SkinInfillAreaComputation& self, const Shape& original_outline, Shape& upskin, Shape& downskin)
{
    const coord_t min_width = self.mesh_.settings.get<coord_t>("min_skin_width_for_expansion") / 2;
    if (min_width > 0)
    {
        if (self.bottom_skin_expand_distance_ != 0)
        {
            const Shape expanded = downskin.offset(-min_width).offset(min_width + self.bottom_skin_expand_distance_);
            downskin = downskin.unionPolygons(expanded);
        }
        if (self.top_skin_expand_distance_ != 0)
        {
            const Shape expanded = upskin.offset(-min_width).offset(min_width + self.top_skin_expand_distance_);
            upskin = upskin.unionPolygons(expanded);
        }
    }
    else 
    {
        if (self.bottom_skin_expand_distance_ != 0)
        {
            downskin = downskin.offset(self.bottom_skin_expand_distance_);
        }
        if (self.top_skin_expand_distance_ != 0)
        {
            upskin = upskin.offset(self.top_skin_expand_distance_);
        }
    }
    bool should_bottom_be_clipped = self.bottom_skin_expand_distance_ > 0;
    bool should_top_be_clipped = self.top_skin_expand_distance_ > 0;
    constexpr double MITER_LIMIT = 10000000.0;
    if (self.bottom_skin_preshrink_ > 0 || (min_width == 0 && self.bottom_skin_expand_distance_ != 0))
    {
        downskin = downskin.offset(-self.bottom_skin_preshrink_ / 2, ClipperLib::jtMiter, MITER_LIMIT)
                       .offset(self.bottom_skin_preshrink_ / 2, ClipperLib::jtMiter, MITER_LIMIT)
                       .intersection(downskin);
        should_bottom_be_clipped = true; 
    }
    if (self.top_skin_preshrink_ > 0 || (min_width == 0 && self.top_skin_expand_distance_ != 0))
    {
        upskin = upskin.offset(-self.top_skin_preshrink_ / 2, ClipperLib::jtMiter, MITER_LIMIT).offset(self.top_skin_preshrink_ / 2, ClipperLib::jtMiter, MITER_LIMIT);
        should_top_be_clipped = true; 
    }
    if (should_bottom_be_clipped)
    {
        downskin = downskin.intersection(original_outline);
    }
    if (should_top_be_clipped)
    {
        upskin = upskin.intersection(original_outline);
    }
}

//= cura::SkinInfillAreaComputation::applySkinFillSmallInfillGaps
void r25(const cura::SkinInfillAreaComputation& self, Shape& skin, Shape& infill)
{
    const coord_t opening_offset = self.skin_line_width_ * 2;
    const Shape opened_skin = skin.offset(opening_offset).offset(-opening_offset - EPSILON);
    const Shape filled_areas = opened_skin.difference(skin);
    const Shape filled_areas_over_infill = filled_areas.intersection(infill).offset(EPSILON);
    skin = skin.unionPolygons(filled_areas_over_infill);
    infill = infill.difference(filled_areas_over_infill);
}

//= cura::SkinInfillAreaComputation::generateInfill
namespace n26
{
#define MIN_AREA_SIZE (0.4 * 0.4)
void r26(cura::SkinInfillAreaComputation& self, SliceLayerPart& part)
{
    part.infill_area.removeSmallAreas(MIN_AREA_SIZE);
}
} // namespace n26

//= cura::roofFloorSettingsEqual
bool r27(const Settings& settings, const std::unordered_map<std::string, std::string>& setting_float_names, const std::unordered_map<std::string, std::string>& setting_other_names, const std::vector<std::string> settings_zero_default)
{
    const bool equal_floats = ranges::all_of(
        setting_float_names,
        [&settings](const auto& kvp)
        {
            return std::abs(settings.get<double>(kvp.second) - settings.get<double>(kvp.first)) < std::numeric_limits<double>::epsilon();
        });
    if (! equal_floats)
    {
        return false;
    }
    const bool all_zeros = ranges::all_of(
        settings_zero_default,
        [&settings](const auto& name)
        {
            return settings.get<double>(name) == 0.0;
        });
    if (! all_zeros)
    {
        return false;
    }
    constexpr auto extruder_nr = "extruder_nr";
    constexpr auto top_bottom_pattern = "top_bottom_pattern";
    constexpr auto skin_monotonic = "skin_monotonic";
    constexpr auto skin_angles = "skin_angles";
    if ((settings.get<int>(setting_other_names.at(extruder_nr)) >= 0 && settings.get<int>(setting_other_names.at(extruder_nr)) != settings.get<int>(extruder_nr))
        || settings.get<EFillMethod>(setting_other_names.at(top_bottom_pattern)) != settings.get<EFillMethod>(top_bottom_pattern)
        || settings.get<bool>(setting_other_names.at(skin_monotonic)) != settings.get<bool>(skin_monotonic)
        || ! ranges::equal(
            settings.get<std::vector<double>>(setting_other_names.at(skin_angles)),
            settings.get<std::vector<double>>(skin_angles),
            [](const double& a, const double& b)
            {
                return std::abs(b - a) < std::numeric_limits<double>::epsilon();
            }))
    {
        return false;
    }
    return true;
}

//= cura::SkinInfillAreaComputation::generateTopAndBottomMostSurfaces
void r29(cura::SkinInfillAreaComputation& self, SliceLayerPart& part)
{
    const Shape outline_above = self.getOutlineOnLayer(part, self.layer_nr_ + 1);
    part.top_most_surface = part.outline.difference(outline_above);
    if (self.layer_nr_ > 0)
    {
        const Shape outline_below = self.getOutlineOnLayer(part, self.layer_nr_ + 1);
        part.bottom_most_surface = part.outline.difference(outline_below);
    }
    else
    {
        part.bottom_most_surface = part.outline;
    }
}

//= cura::SkinInfillAreaComputation::generateFilledAreaAbove
Shape r30(cura::SkinInfillAreaComputation& self, SliceLayerPart& part, size_t roofing_layer_count)
{
    Shape filled_area_above = self.getOutlineOnLayer(part, self.layer_nr_ + roofing_layer_count);
    if (! self.no_small_gaps_heuristic_)
    {
        for (int layer_nr_above = self.layer_nr_ + 1; layer_nr_above < self.layer_nr_ + roofing_layer_count; layer_nr_above++)
        {
            Shape outlines_above = self.getOutlineOnLayer(part, layer_nr_above);
            filled_area_above = filled_area_above.intersection(outlines_above);
        }
    }
    if (self.layer_nr_ > 0)
    {
        Shape air_below = self.getOutlineOnLayer(part, self.layer_nr_).difference(self.getOutlineOnLayer(part, self.layer_nr_ - 1));
        if (! air_below.empty())
        {
            filled_area_above = filled_area_above.unionPolygons(air_below);
        }
    }
    return filled_area_above;
}

//= cura::SkinInfillAreaComputation::generateFilledAreaBelow
std::optional<Shape> r31(cura::SkinInfillAreaComputation& self, SliceLayerPart& part, size_t flooring_layer_count)
{
    if (self.layer_nr_ < flooring_layer_count)
    {
        return std::nullopt;
    }
    const int lowest_flooring_layer = self.layer_nr_ - flooring_layer_count;
    Shape filled_area_below = self.getOutlineOnLayer(part, lowest_flooring_layer);
    if (! self.no_small_gaps_heuristic_)
    {
        const int next_lowest_flooring_layer = lowest_flooring_layer + 1;
        for (int layer_nr_below = next_lowest_flooring_layer; layer_nr_below < self.layer_nr_; layer_nr_below++)
        {
            Shape outlines_below = self.getOutlineOnLayer(part, layer_nr_below);
            filled_area_below = filled_area_below.intersection(outlines_below);
        }
    }
    return filled_area_below;
}

//= cura::SkinInfillAreaComputation::generateInfillSupport
void r32(SliceMeshStorage& mesh)
{
    const coord_t layer_height = mesh.settings.get<coord_t>("layer_height");
    const AngleRadians support_angle = mesh.settings.get<AngleRadians>("infill_support_angle");
    const double tan_angle = tan(support_angle) - 0.01; 
    const coord_t max_dist_from_lower_layer = tan_angle * layer_height; 
    for (int layer_idx = mesh.layers.size() - 2; layer_idx >= 0; layer_idx--)
    {
        SliceLayer& layer = mesh.layers[layer_idx];
        SliceLayer& layer_above = mesh.layers[layer_idx + 1];
        Shape inside_above;
        Shape infill_above;
        for (SliceLayerPart& part_above : layer_above.parts)
        {
            inside_above.push_back(part_above.infill_area);
            infill_above.push_back(part_above.getOwnInfillArea());
        }
        for (SliceLayerPart& part : layer.parts)
        {
            const Shape& infill_area = part.infill_area;
            if (infill_area.empty())
            {
                continue;
            }
            const Shape unsupported = infill_area.offset(-max_dist_from_lower_layer);
            const Shape basic_overhang = unsupported.difference(inside_above);
            const Shape overhang_extented = basic_overhang.offset(max_dist_from_lower_layer + 50); 
            const Shape full_overhang = overhang_extented.difference(inside_above);
            const Shape infill_support = infill_above.unionPolygons(full_overhang);
            part.infill_area_own = infill_support.intersection(part.getOwnInfillArea());
        }
    }
}

//= cura::SlicerLayer::makeBasicPolygonLoops
void r35(cura::SlicerLayer& self, OpenLinesSet& open_polylines)
{
    for (size_t start_segment_idx = 0; start_segment_idx < self.segments_.size(); start_segment_idx++)
    {
        if (! self.segments_[start_segment_idx].addedToPolygon)
        {
            self.makeBasicPolygonLoop(open_polylines, start_segment_idx);
        }
    }
}

//= cura::SlicerLayer::makeBasicPolygonLoop
void r36(cura::SlicerLayer& self, OpenLinesSet& open_polylines, const size_t start_segment_idx)
{
    Polygon poly(true);
    poly.push_back(self.segments_[start_segment_idx].start);
    for (int segment_idx = start_segment_idx; segment_idx != -1;)
    {
        SlicerSegment& segment = self.segments_[segment_idx];
        poly.push_back(segment.end);
        segment.addedToPolygon = true;
        segment_idx = self.getNextSegmentIdx(segment, start_segment_idx);
        if (segment_idx == static_cast<int>(start_segment_idx))
        { 
            self.polygons_.push_back(std::move(poly));
            return;
        }
    }
    open_polylines.emplace_back(std::move(poly.getPoints()));
}

//= cura::SlicerLayer::tryFaceNextSegmentIdx
namespace n37
{
constexpr int largest_neglected_gap_first_phase = MM2INT(0.01);
int r37(const cura::SlicerLayer& self, const SlicerSegment& segment, const int face_idx, const size_t start_segment_idx)
{
    decltype(self.face_idx_to_segment_idx_.begin()) it;
    auto it_end = self.face_idx_to_segment_idx_.end();
    it = self.face_idx_to_segment_idx_.find(face_idx);
    if (it != it_end)
    {
        const int segment_idx = (*it).second;
        Point2LL p1 = self.segments_[segment_idx].start;
        Point2LL diff = segment.end - p1;
        if (shorterThen(diff, largest_neglected_gap_first_phase))
        {
            if (segment_idx == static_cast<int>(start_segment_idx))
            {
                return start_segment_idx;
            }
            if (self.segments_[segment_idx].addedToPolygon)
            {
                return -1;
            }
            return segment_idx;
        }
    }
    return -1;
}
} // namespace n37

//= cura::SlicerLayer::getNextSegmentIdx
int r38(const cura::SlicerLayer& self, const SlicerSegment& segment, const size_t start_segment_idx)
{
    int next_segment_idx = -1;
    const bool segment_ended_at_edge = segment.endVertex == nullptr;
    if (segment_ended_at_edge)
    {
        const int face_to_try = segment.endOtherFaceIdx;
        if (face_to_try == -1)
        {
            return -1;
        }
        return self.tryFaceNextSegmentIdx(segment, face_to_try, start_segment_idx);
    }
    else
    {
        const std::vector<uint32_t>& faces_to_try = segment.endVertex->connected_faces_;
        for (int face_to_try : faces_to_try)
        {
            const int result_segment_idx = self.tryFaceNextSegmentIdx(segment, face_to_try, start_segment_idx);
            if (result_segment_idx == static_cast<int>(start_segment_idx))
            {
                return start_segment_idx;
            }
            else if (result_segment_idx != -1)
            {
                next_segment_idx = result_segment_idx;
            }
        }
    }
    return next_segment_idx;
}

//= cura::SlicerLayer::connectOpenPolylines
namespace n39
{
constexpr int largest_neglected_gap_first_phase = MM2INT(0.01);
constexpr int largest_neglected_gap_second_phase = MM2INT(0.02);
void r39(cura::SlicerLayer& self, OpenLinesSet& open_polylines)
{
    constexpr bool allow_reverse = false;
    constexpr coord_t cell_size = largest_neglected_gap_first_phase * 2;
    self.connectOpenPolylinesImpl(open_polylines, largest_neglected_gap_second_phase, cell_size, allow_reverse);
}
} // namespace n39

//= cura::SlicerLayer::stitch
namespace n40
{
constexpr int max_stitch1 = MM2INT(10.0);
void r40(cura::SlicerLayer& self, OpenLinesSet& open_polylines)
{
    bool allow_reverse = true;
    self.connectOpenPolylinesImpl(open_polylines, max_stitch1, max_stitch1, allow_reverse);
}
} // namespace n40

//= cura::SlicerLayer::planPolylineStitch
namespace n44
{
using Terminus = cura::SlicerLayer::Terminus;
void r44(const cura::SlicerLayer& self, const OpenLinesSet& open_polylines, Terminus& terminus_0, Terminus& terminus_1, bool reverse[2])
{
    size_t polyline_0_idx = terminus_0.getPolylineIdx();
    size_t polyline_1_idx = terminus_1.getPolylineIdx();
    bool back_0 = terminus_0.isEnd();
    bool back_1 = terminus_1.isEnd();
    reverse[0] = false;
    reverse[1] = false;
    if (back_0)
    {
        if (back_1)
        {
            if (open_polylines[polyline_0_idx].size() < open_polylines[polyline_1_idx].size())
            {
                std::swap(terminus_0, terminus_1);
            }
            reverse[1] = true;
        }
        else
        {
        }
    }
    else
    {
        if (back_1)
        {
            std::swap(terminus_0, terminus_1);
        }
        else
        {
            if (open_polylines[polyline_0_idx].size() > open_polylines[polyline_1_idx].size())
            {
                std::swap(terminus_0, terminus_1);
            }
            reverse[0] = true;
        }
    }
}
} // namespace n44

//= cura::SlicerLayer::joinPolylines
void r45(OpenPolyline& polyline_0, OpenPolyline& polyline_1, const bool reverse[2])
{
    if (reverse[0])
    {
        size_t size_0 = polyline_0.size();
        for (size_t idx = 0U; idx != size_0 / 2; ++idx)
        {
            std::swap(polyline_0[idx], polyline_0[size_0 - 1 - idx]);
        }
    }
    if (reverse[1])
    {
        for (int poly_idx = polyline_1.size() - 1; poly_idx >= 0; poly_idx--)
            polyline_0.push_back(polyline_1[poly_idx]);
    }
    else
    {
        for (Point2LL& p : polyline_1)
            polyline_0.push_back(p);
    }
    polyline_1.clear();
}

//= cura::SlicerLayer::findPolygonGapCloser
std::optional<GapCloserResult> r50(cura::SlicerLayer& self, Point2LL ip0, Point2LL ip1)
{
    std::optional<ClosePolygonResult> c1 = self.findPolygonPointClosestTo(ip0);
    std::optional<ClosePolygonResult> c2 = self.findPolygonPointClosestTo(ip1);
    if (! c1 || ! c2 || c1->polygonIdx != c2->polygonIdx)
    {
        return std::nullopt;
    }
    GapCloserResult ret;
    ret.polygonIdx = c1->polygonIdx;
    ret.pointIdxA = c1->pointIdx;
    ret.pointIdxB = c2->pointIdx;
    ret.AtoB = true;
    if (ret.pointIdxA == ret.pointIdxB)
    {
        ret.len = vSize(ip0 - ip1);
    }
    else
    {
        Point2LL p0 = self.polygons_[ret.polygonIdx][ret.pointIdxA];
        int64_t lenA = vSize(p0 - ip0);
        for (unsigned int i = ret.pointIdxA; i != ret.pointIdxB; i = (i + 1) % self.polygons_[ret.polygonIdx].size())
        {
            Point2LL p1 = self.polygons_[ret.polygonIdx][i];
            lenA += vSize(p0 - p1);
            p0 = p1;
        }
        lenA += vSize(p0 - ip1);
        p0 = self.polygons_[ret.polygonIdx][ret.pointIdxB];
        int64_t lenB = vSize(p0 - ip1);
        for (unsigned int i = ret.pointIdxB; i != ret.pointIdxA; i = (i + 1) % self.polygons_[ret.polygonIdx].size())
        {
            Point2LL p1 = self.polygons_[ret.polygonIdx][i];
            lenB += vSize(p0 - p1);
            p0 = p1;
        }
        lenB += vSize(p0 - ip0);
        if (lenA < lenB)
        {
            ret.AtoB = true;
            ret.len = lenA;
        }
        else
        {
            ret.AtoB = false;
            ret.len = lenB;
        }
    }
    return ret;
}

//= cura::SlicerLayer::findPolygonPointClosestTo
std::optional<ClosePolygonResult> r51(cura::SlicerLayer& self, Point2LL input)
{
    for (size_t n = 0; n < self.polygons_.size(); n++)
    {
        Point2LL p0 = self.polygons_[n][self.polygons_[n].size() - 1];
        for (size_t i = 0; i < self.polygons_[n].size(); i++)
        {
            Point2LL p1 = self.polygons_[n][i];
            Point2LL pDiff = p1 - p0;
            int64_t lineLength = vSize(pDiff);
            if (lineLength > 1)
            {
                int64_t distOnLine = dot(pDiff, input - p0) / lineLength;
                if (distOnLine >= 0 && distOnLine <= lineLength)
                {
                    Point2LL q = p0 + pDiff * distOnLine / lineLength;
                    if (shorterThen(q - input, MM2INT(0.1)))
                    {
                        ClosePolygonResult ret;
                        ret.polygonIdx = n;
                        ret.pointIdx = i;
                        return ret;
                    }
                }
            }
            p0 = p1;
        }
    }
    return std::nullopt;
}

//= cura::SlicerLayer::makePolygons
void r52(cura::SlicerLayer& self, const Mesh* mesh)
{
    OpenLinesSet open_polylines;
    self.makeBasicPolygonLoops(open_polylines);
    self.connectOpenPolylines(open_polylines);
    if (mesh->settings_.get<ESurfaceMode>("magic_mesh_surface_mode") == ESurfaceMode::NORMAL)
    { 
        self.stitch(open_polylines);
    }
    if (mesh->settings_.get<bool>("meshfix_extensive_stitching"))
    {
        self.stitch_extensive(open_polylines);
    }
    if (mesh->settings_.get<bool>("meshfix_keep_open_polygons"))
    {
        for (const OpenPolyline& polyline : open_polylines)
        {
            self.polygons_.push_back(Polygon(polyline.getPoints(), false), CheckNonEmptyParam::OnlyIfNotEmpty);
        }
    }
    for (const OpenPolyline& polyline : open_polylines)
    {
        self.open_polylines_.push_back(std::move(polyline), CheckNonEmptyParam::OnlyIfNotEmpty);
    }
    const coord_t snap_distance = std::max(mesh->settings_.get<coord_t>("minimum_polygon_circumference"), static_cast<coord_t>(1));
    auto itPolygons = std::remove_if(
        self.polygons_.begin(),
        self.polygons_.end(),
        [snap_distance](const Polygon& poly)
        {
            return poly.shorterThan(snap_distance);
        });
    self.polygons_.erase(itPolygons, self.polygons_.end());
    self.polygons_ = Simplify(mesh->settings_).polygon(self.polygons_);
    self.polygons_.removeDegenerateVerts(); 
    auto itPolylines = std::remove_if(
        self.open_polylines_.begin(),
        self.open_polylines_.end(),
        [snap_distance](const OpenPolyline& line)
        {
            return line.shorterThan(snap_distance);
        });
    self.open_polylines_.erase(itPolylines, self.open_polylines_.end());
    self.open_polylines_.removeDegenerateVerts();
    self.sliced_uv_coordinates_ = std::make_shared<SlicedUVCoordinates>(self.segments_);
    self.segments_.clear();
}

//= cura::Slicer::Slicer
void r53(cura::Slicer& self, Mesh* i_mesh, const coord_t thickness, const size_t slice_layer_count, bool use_variable_layer_heights, std::vector<AdaptiveLayer>* adaptive_layers, const SlicingTolerance slicing_tolerance, const coord_t initial_layer_thickness)
{
        member(self.mesh) = i_mesh;
    TimeKeeper slice_timer;
    self.layers = self.buildLayersWithHeight(slice_layer_count, slicing_tolerance, initial_layer_thickness, thickness, use_variable_layer_heights, adaptive_layers);
    scripta::setAll(
        self.layers,
        static_cast<int>(self.mesh->settings_.get<EPlatformAdhesion>("adhesion_type")),
        self.mesh->settings_.get<int>("raft_surface_layers"),
        self.mesh->settings_.get<coord_t>("raft_surface_thickness"),
        self.mesh->settings_.get<int>("raft_interface_layers"),
        self.mesh->settings_.get<coord_t>("raft_interface_thickness"),
        self.mesh->settings_.get<coord_t>("raft_base_thickness"),
        self.mesh->settings_.get<coord_t>("raft_airgap"),
        self.mesh->settings_.get<coord_t>("layer_0_z_overlap"),
        Raft::getFillerLayerCount());
    std::vector<std::pair<int32_t, int32_t>> zbbox = self.buildZHeightsForFaces(*self.mesh);
    self.buildSegments(*self.mesh, zbbox, slicing_tolerance, self.layers);
    self.makePolygons(*i_mesh, slicing_tolerance, self.layers);
    scripta::log("sliced_polygons", self.layers, SectionType::NA);
}

//= cura::Slicer::buildSegments
void r54(const Mesh& mesh, const std::vector<std::pair<int32_t, int32_t>>& zbbox, const SlicingTolerance& slicing_tolerance, std::vector<SlicerLayer>& layers)
{
    cura::parallel_for(
        layers,
        [&](auto layer_it)
        {
            SlicerLayer& layer = *layer_it;
            const int32_t& z = layer.z_;
            layer.segments_.reserve(100);
            for (unsigned int face_idx = 0; face_idx < mesh.faces_.size(); face_idx++)
            {
                if ((z < zbbox[face_idx].first) || (z > zbbox[face_idx].second))
                {
                    continue;
                }
                const MeshFace& face = mesh.faces_[face_idx];
                const MeshVertex& v0 = mesh.vertices_[face.vertex_index_[0]];
                const MeshVertex& v1 = mesh.vertices_[face.vertex_index_[1]];
                const MeshVertex& v2 = mesh.vertices_[face.vertex_index_[2]];
                const std::optional<Point2F> uv0 = face.uv_coordinates_[0];
                const std::optional<Point2F> uv1 = face.uv_coordinates_[1];
                const std::optional<Point2F> uv2 = face.uv_coordinates_[2];
                Point3LL p0 = v0.p_;
                Point3LL p1 = v1.p_;
                Point3LL p2 = v2.p_;
                if (slicing_tolerance != SlicingTolerance::INCLUSIVE)
                {
                    p0.z_ += static_cast<int>(p0.z_ == z) * -static_cast<int>(p0.z_ < 1);
                    p1.z_ += static_cast<int>(p1.z_ == z) * -static_cast<int>(p1.z_ < 1);
                    p2.z_ += static_cast<int>(p2.z_ == z) * -static_cast<int>(p2.z_ < 1);
                }
                SlicerSegment s;
                s.endVertex = nullptr;
                int end_edge_idx = -1;
                if (p0.z_ < z && p1.z_ > z && p2.z_ > z) 
                { 
                    s = cura::Slicer::project2D(p0, p2, p1, uv0, uv2, uv1, z); 
                    end_edge_idx = 0; 
                } 
                else if (p0.z_ > z && p1.z_ <= z && p2.z_ <= z) 
                { 
                    s = cura::Slicer::project2D(p0, p1, p2, uv0, uv1, uv2, z); 
                    end_edge_idx = 2; 
                    if (p2.z_ == z) 
                    {
                        s.endVertex = &v2;
                    }
                }
                else if (p1.z_ < z && p0.z_ > z && p2.z_ > z) 
                { 
                    s = cura::Slicer::project2D(p1, p0, p2, uv1, uv0, uv2, z); 
                    end_edge_idx = 1; 
                } 
                else if (p1.z_ > z && p0.z_ <= z && p2.z_ <= z) 
                { 
                    s = cura::Slicer::project2D(p1, p2, p0, uv1, uv2, uv0, z); 
                    end_edge_idx = 0; 
                    if (p0.z_ == z) 
                    {
                        s.endVertex = &v0;
                    }
                }
                else if (p2.z_ < z && p1.z_ > z && p0.z_ > z) 
                { 
                    s = cura::Slicer::project2D(p2, p1, p0, uv2, uv1, uv0, z); 
                    end_edge_idx = 2; 
                } 
                else if (p2.z_ > z && p1.z_ <= z && p0.z_ <= z) 
                { 
                    s = cura::Slicer::project2D(p2, p0, p1, uv2, uv0, uv1, z); 
                    end_edge_idx = 1; 
                    if (p1.z_ == z) 
                    {
                        s.endVertex = &v1;
                    }
                }
                else
                {
                    continue;
                }
                layer.face_idx_to_segment_idx_.insert(std::make_pair(face_idx, layer.segments_.size()));
                s.faceIndex = face_idx;
                s.endOtherFaceIdx = face.connected_face_index_[end_edge_idx];
                s.addedToPolygon = false;
                layer.segments_.push_back(s);
            }
        });
}

//= cura::Slicer::buildLayersWithHeight
std::vector<SlicerLayer> r55(size_t slice_layer_count, SlicingTolerance slicing_tolerance, coord_t initial_layer_thickness, coord_t thickness, bool use_variable_layer_heights, const std::vector<AdaptiveLayer>* adaptive_layers)
{
    std::vector<SlicerLayer> layers_res;
    layers_res.resize(slice_layer_count);
    layers_res[0].z_ = slicing_tolerance == SlicingTolerance::INCLUSIVE ? 0 : std::max(0LL, initial_layer_thickness - thickness);
    coord_t adjusted_layer_offset = initial_layer_thickness;
    if (use_variable_layer_heights)
    {
        layers_res[0].z_ = (*adaptive_layers)[0].z_position_;
    }
    else if (slicing_tolerance == SlicingTolerance::MIDDLE)
    {
        layers_res[0].z_ = initial_layer_thickness / 2;
        adjusted_layer_offset = initial_layer_thickness + (thickness / 2);
    }
    for (LayerIndex layer_nr = 1; layer_nr < slice_layer_count; layer_nr++)
    {
        if (use_variable_layer_heights)
        {
            layers_res[layer_nr].z_ = (*adaptive_layers)[layer_nr].z_position_;
        }
        else
        {
            layers_res[layer_nr].z_ = adjusted_layer_offset + (thickness * (layer_nr - 1));
        }
    }
    return layers_res;
}

//= cura::Slicer::makePolygons
void r56(Mesh& mesh, SlicingTolerance slicing_tolerance, std::vector<SlicerLayer>& layers)
{
    cura::parallel_for(
        layers,
        [&mesh](auto layer_it)
        {
            layer_it->makePolygons(&mesh);
        });
    switch (slicing_tolerance)
    {
    case SlicingTolerance::INCLUSIVE:
        for (size_t layer_nr = 0; layer_nr + 1 < layers.size(); layer_nr++)
        {
            layers[layer_nr].polygons_ = layers[layer_nr].polygons_.unionPolygons(layers[layer_nr + 1].polygons_);
        }
        break;
    case SlicingTolerance::EXCLUSIVE:
        for (size_t layer_nr = 0; layer_nr + 1 < layers.size(); layer_nr++)
        {
            layers[layer_nr].polygons_ = layers[layer_nr].polygons_.intersection(layers[layer_nr + 1].polygons_);
        }
        layers.back().polygons_.clear();
        break;
    case SlicingTolerance::MIDDLE:
    default:
        ;
    }
    size_t layer_apply_initial_xy_offset = 0;
    if (layers.size() > 0 && layers[0].polygons_.size() == 0 && ! mesh.settings_.get<bool>("support_mesh") && mesh.isModelMesh())
    {
        layer_apply_initial_xy_offset = 1;
    }
    const coord_t xy_offset = mesh.settings_.get<coord_t>("xy_offset");
    const coord_t xy_offset_0 = mesh.settings_.get<coord_t>("xy_offset_layer_0");
    const coord_t xy_offset_hole = mesh.settings_.get<coord_t>("hole_xy_offset");
    const coord_t hole_offset_max_diameter = mesh.settings_.get<coord_t>("hole_xy_offset_max_diameter");
    const auto max_hole_area = std::numbers::pi / 4 * static_cast<double>(hole_offset_max_diameter * hole_offset_max_diameter);
    cura::parallel_for<size_t>(
        0,
        layers.size(),
        [&layers, layer_apply_initial_xy_offset, xy_offset, xy_offset_0, xy_offset_hole, hole_offset_max_diameter, max_hole_area](size_t layer_nr)
        {
            const auto xy_offset_local = (layer_nr <= layer_apply_initial_xy_offset) ? xy_offset_0 : xy_offset;
            if (xy_offset_local != 0)
            {
                layers[layer_nr].polygons_ = layers[layer_nr].polygons_.offset(xy_offset_local, ClipperLib::JoinType::jtRound);
            }
            if (xy_offset_hole != 0)
            {
                const auto parts = layers[layer_nr].polygons_.splitIntoParts();
                layers[layer_nr].polygons_.clear();
                for (const auto& part : parts)
                {
                    Shape holes;
                    Shape outline;
                    for (const Polygon& poly : part)
                    {
                        const auto area = poly.area();
                        const auto abs_area = std::abs(area);
                        const auto is_hole = area < 0;
                        if (is_hole)
                        {
                            if (hole_offset_max_diameter == 0)
                            {
                                holes.push_back(poly.offset(xy_offset_hole));
                            }
                            else if (abs_area < max_hole_area)
                            {
                                const auto distance = static_cast<int>(std::lerp(xy_offset_hole, 0, abs_area / max_hole_area));
                                holes.push_back(poly.offset(distance));
                            }
                            else
                            {
                                holes.push_back(poly);
                            }
                        }
                        else
                        {
                            outline.push_back(poly);
                        }
                    }
                    layers[layer_nr].polygons_.push_back(outline.difference(holes.unionPolygons()));
                }
            }
        });
    mesh.expandXY(xy_offset);
}

//= cura::Slicer::buildZHeightsForFaces
std::vector<std::pair<int32_t, int32_t>> r57(const Mesh& mesh)
{
    std::vector<std::pair<int32_t, int32_t>> zHeights;
    zHeights.reserve(mesh.faces_.size());
    for (const auto& face : mesh.faces_)
    {
        const MeshVertex& v0 = mesh.vertices_[face.vertex_index_[0]];
        const MeshVertex& v1 = mesh.vertices_[face.vertex_index_[1]];
        const MeshVertex& v2 = mesh.vertices_[face.vertex_index_[2]];
        Point3LL p0 = v0.p_;
        Point3LL p1 = v1.p_;
        Point3LL p2 = v2.p_;
        int32_t minZ = p0.z_;
        if (p1.z_ < minZ)
        {
            minZ = p1.z_;
        }
        if (p2.z_ < minZ)
        {
            minZ = p2.z_;
        }
        int32_t maxZ = p0.z_;
        if (p1.z_ > maxZ)
        {
            maxZ = p1.z_;
        }
        if (p2.z_ > maxZ)
        {
            maxZ = p2.z_;
        }
        zHeights.emplace_back(std::make_pair(minZ, maxZ));
    }
    return zHeights;
}

//= cura::Slicer::project2D
SlicerSegment r58(const Point3LL& p0, const Point3LL& p1, const Point3LL& p2, const std::optional<Point2F>& uv0, const std::optional<Point2F>& uv1, const std::optional<Point2F>& uv2, const coord_t z)
{
    SlicerSegment seg;
    seg.start.X = cura::Slicer::interpolate(z, p0.z_, p1.z_, p0.x_, p1.x_);
    seg.start.Y = cura::Slicer::interpolate(z, p0.z_, p1.z_, p0.y_, p1.y_);
    seg.end.X = cura::Slicer::interpolate(z, p0.z_, p2.z_, p0.x_, p2.x_);
    seg.end.Y = cura::Slicer::interpolate(z, p0.z_, p2.z_, p0.y_, p2.y_);
    if (uv0.has_value() && uv1.has_value() && uv2.has_value())
    {
        const std::optional<Point3D> start_barycentric = cura::Slicer::getBarycentricCoordinates(Point3LL(seg.start, z), p0, p1, p2);
        const std::optional<Point3D> end_barycentric = cura::Slicer::getBarycentricCoordinates(Point3LL(seg.end, z), p0, p1, p2);
        if (start_barycentric.has_value() && end_barycentric.has_value())
        {
            seg.uv_start = cura::Slicer::interpolateUV(start_barycentric.value(), uv0.value(), uv1.value(), uv2.value());
            seg.uv_end = cura::Slicer::interpolateUV(end_barycentric.value(), uv0.value(), uv1.value(), uv2.value());
        }
    }
    return seg;
}

//= cura::Slicer::getBarycentricCoordinates
std::optional<Point3D> r59(const Point3LL& point, const Point3LL& p0, const Point3LL& p1, const Point3LL& p2)
{
    const Point3LL v0(p1 - p0);
    const Point3LL v1(p2 - p0);
    const Point3LL v2(point - p0);
    const double d00 = v0.dot(v0);
    const double d01 = v0.dot(v1);
    const double d11 = v1.dot(v1);
    const double d20 = v2.dot(v0);
    const double d21 = v2.dot(v1);
    const double denom = d00 * d11 - d01 * d01;
    if (std::abs(denom) < 0.000001)
    {
        return std::nullopt;
    }
    const double v = (d11 * d20 - d01 * d21) / denom;
    const double w = (d00 * d21 - d01 * d20) / denom;
    const double u = 1.0 - v - w;
    return Point3D(u, v, w);
}

//= cura::Slicer::interpolateUV
Point2F r60(const Point3D& barycentric_coordinates, const Point2F& uv0, const Point2F& uv1, const Point2F& uv2)
{
    return Point2F(
        barycentric_coordinates.x_ * uv0.x_ + barycentric_coordinates.y_ * uv1.x_ + barycentric_coordinates.z_ * uv2.x_,
        barycentric_coordinates.x_ * uv0.y_ + barycentric_coordinates.y_ * uv1.y_ + barycentric_coordinates.z_ * uv2.y_);
}

//= cura::Slicer::interpolate
coord_t r61(const coord_t x, const coord_t x0, const coord_t x1, const coord_t y0, const coord_t y1)
{
    const coord_t dx_01 = x1 - x0;
    coord_t num = (y1 - y0) * (x - x0);
    num += num > 0 ? dx_01 / 4 : -dx_01 / 4; 
    return y0 + num / dx_01;
}

//= cura::SlicerLayer::Terminus::Terminus
void r62(cura::SlicerLayer::Terminus& self)
{
}

//= cura::SlicerLayer::Terminus::Terminus
namespace n63
{
using Index = cura::SlicerLayer::Terminus::Index;
void r63(cura::SlicerLayer::Terminus& self, Index idx)
{
    self.idx_ = idx;
}
} // namespace n63

//= cura::SlicerLayer::Terminus::Terminus
void r64(cura::SlicerLayer::Terminus& self, size_t polyline_idx, bool is_end)
{
    self.idx_ = polyline_idx * 2 + (is_end ? 1 : 0);
}

//= cura::SlicerLayer::Terminus::getPolylineIdx
size_t r65(const cura::SlicerLayer::Terminus& self)
{
    return self.idx_ / 2;
}

//= cura::SlicerLayer::Terminus::isEnd
bool r66(const cura::SlicerLayer::Terminus& self)
{
    return (self.idx_ & 1) == 1;
}

//= cura::SlicerLayer::Terminus::asIndex
namespace n67
{
using Index = cura::SlicerLayer::Terminus::Index;
Index r67(const cura::SlicerLayer::Terminus& self)
{
    return self.idx_;
}
} // namespace n67

//= cura::SlicerLayer::Terminus::endIndexFromPolylineEndIndex
namespace n68
{
using Index = cura::SlicerLayer::Terminus::Index;
Index r68(unsigned int polyline_end_idx)
{
    return polyline_end_idx * 2;
}
} // namespace n68

//= cura::SlicerLayer::PossibleStitch::in_order
bool r71(const cura::SlicerLayer::PossibleStitch& self)
{
    return self.terminus_0.isEnd() && ! self.terminus_1.isEnd();
}

//END
}  // namespace ref
