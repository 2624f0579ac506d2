// Skirt and brim.
#include <algorithm>
#include <array>
#include <unordered_set>
#include <unordered_map>
#include <set>
#include <map>
#include <list>
#include <vector>
#include <deque>
#include <memory>
#include <numeric>
#include <optional>
#include <functional>
#include <string>
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "geometry/Polygon.h"
#include "geometry/OpenPolyline.h"
#include "geometry/SingleShape.h"
#include "geometry/MixedLinesSet.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "raft.h"
#include "Application.h"
#include "ExtruderTrain.h"
#include "SkirtBrim.h"
#include "Slice.h"
#include "geometry/OpenPolyline.h"
#include "geometry/Shape.h"
#include "settings/EnumSettings.h"
#include "settings/types/Ratio.h"
#include "sliceDataStorage.h"
#include "support.h"
#include "utils/Coord_t.h"
#include "utils/MixedPolylineStitcher.h"
#include "utils/Simplify.h"
#include "utils/polygonUtils.h"
#include <range/v3/algorithm/remove_if.hpp>
#include <spdlog/spdlog.h>
#include <variant>
#include "SkirtBrim.h"
#include "ref.h"

namespace ref
{
using namespace cura;

//= cura::SkirtBrim::generateBrimOffsetPlan
namespace n2
{
using ExtruderConfig = cura::SkirtBrim::ExtruderConfig;
using Offset = cura::SkirtBrim::Offset;
using Outline = cura::SkirtBrim::Outline;
std::vector<SkirtBrim::Offset> r2(cura::SkirtBrim& self, std::vector<Outline>& starting_outlines)
{
    std::vector<Offset> all_brim_offsets;
    if (self.skirt_brim_extruder_nr_ >= 0)
    {
        starting_outlines[self.skirt_brim_extruder_nr_] = self.getFirstLayerOutline();
    }
    else
    {
        for (int extruder_nr = 0; extruder_nr < self.extruder_count_; extruder_nr++)
        {
            if (! self.extruders_configs_[extruder_nr].extruder_is_used_)
            {
                continue;
            }
            starting_outlines[extruder_nr] = self.getFirstLayerOutline(extruder_nr);
        }
    }
    for (int extruder_nr = 0; extruder_nr < self.extruder_count_; extruder_nr++)
    {
        const ExtruderConfig& extruder_config = self.extruders_configs_[extruder_nr];
        const coord_t semi_line_width = extruder_config.line_width_ / 2;
        if (! extruder_config.extruder_is_used_ || (self.skirt_brim_extruder_nr_ >= 0 && extruder_nr != self.skirt_brim_extruder_nr_)
            || (starting_outlines[extruder_nr].gapped.empty() && starting_outlines[extruder_nr].touching.empty()))
        {
            continue; 
        }
        for (int line_idx = 0; line_idx < extruder_config.line_count_; line_idx++)
        {
            const bool is_last = line_idx == extruder_config.line_count_ - 1;
            const coord_t offset_touching = semi_line_width + extruder_config.line_width_ * line_idx;
            const coord_t offset_gapped = offset_touching + extruder_config.gap_;
            if (line_idx == 0)
            {
                all_brim_offsets.emplace_back(
                    &starting_outlines[extruder_nr],
                    extruder_config.outside_polys_,
                    extruder_config.inside_polys_,
                    offset_gapped,
                    offset_touching,
                    offset_gapped,
                    line_idx,
                    extruder_nr,
                    is_last);
            }
            else
            {
                all_brim_offsets.emplace_back(
                    line_idx - 1,
                    extruder_config.outside_polys_,
                    extruder_config.inside_polys_,
                    extruder_config.line_width_,
                    extruder_config.line_width_,
                    offset_gapped,
                    line_idx,
                    extruder_nr,
                    is_last);
            }
        }
    }
    std::stable_sort(all_brim_offsets.begin(), all_brim_offsets.end(), self.OffsetSorter);
    return all_brim_offsets;
}
} // namespace n2

//= cura::SkirtBrim::generate
namespace n3
{
using Offset = cura::SkirtBrim::Offset;
using Outline = cura::SkirtBrim::Outline;
void r3(cura::SkirtBrim& self)
{
    std::vector<Outline> starting_outlines(self.extruder_count_);
    std::vector<Offset> all_brim_offsets = self.generateBrimOffsetPlan(starting_outlines);
    std::vector<Shape> allowed_areas_per_extruder = self.generateAllowedAreas(starting_outlines);
    constexpr LayerIndex layer_nr = 0;
    constexpr bool include_support = true;
    const bool include_prime_tower = self.adhesion_type_ == EPlatformAdhesion::SKIRT;
    constexpr bool external_polys_only = false;
    constexpr coord_t extruder_nr = -1;
    constexpr bool include_models = true;
    constexpr bool include_support_base = false;
    Shape covered_area = self.storage_.getLayerOutlines(layer_nr, include_support, include_prime_tower, external_polys_only, extruder_nr, include_models, include_support_base);
    if (self.adhesion_type_ == EPlatformAdhesion::SKIRT)
    {
        covered_area.makeConvex();
    }
    std::vector<coord_t> total_length = self.generatePrimaryBrim(all_brim_offsets, covered_area, allowed_areas_per_extruder);
    self.generateShieldBrim(covered_area, allowed_areas_per_extruder);
    { 
        covered_area = covered_area.getOutsidePolygons();
        for (int extruder_nr = 0; extruder_nr < self.extruder_count_; extruder_nr++)
        {
            allowed_areas_per_extruder[extruder_nr] = allowed_areas_per_extruder[extruder_nr].difference(covered_area);
        }
    }
    self.generateSecondarySkirtBrim(covered_area, allowed_areas_per_extruder, total_length);
    const Settings& global_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    const coord_t maximum_resolution = global_settings.get<coord_t>("meshfix_maximum_resolution");
    const coord_t maximum_deviation = global_settings.get<coord_t>("meshfix_maximum_deviation");
    constexpr coord_t max_area_dev = 0u; 
    for (int extruder_nr = 0; extruder_nr < self.extruder_count_; extruder_nr++)
    {
        for (MixedLinesSet& lines : self.storage_.skirt_brim[extruder_nr])
        {
            lines = Simplify(maximum_resolution, maximum_deviation, max_area_dev).polyline(lines);
        }
    }
}
} // namespace n3

//= cura::SkirtBrim::generateOffset
namespace n5
{
using ExtruderConfig = cura::SkirtBrim::ExtruderConfig;
using Offset = cura::SkirtBrim::Offset;
using Outline = cura::SkirtBrim::Outline;
coord_t r5(cura::SkirtBrim& self, const Offset& offset, Shape& covered_area, std::vector<Shape>& allowed_areas_per_extruder, MixedLinesSet& result)
{
    coord_t length_added;
    Shape brim;
    const ExtruderConfig& extruder_config = self.extruders_configs_[offset.extruder_nr_];
    if (std::holds_alternative<Outline*>(offset.reference_outline_or_index_))
    {
        const Outline* reference_outline = std::get<Outline*>(offset.reference_outline_or_index_);
        for (const auto& [shape, offset_value] :
             { std::make_tuple(reference_outline->gapped, offset.offset_value_gapped_), std::make_tuple(reference_outline->touching, offset.offset_value_touching_) })
        {
            for (const Polygon& polygon : shape)
            {
                const double area = polygon.area();
                if (area > 0 && offset.outside_)
                {
                    brim.push_back(polygon.offset(offset_value, ClipperLib::jtRound));
                }
                else if (area < 0 && offset.inside_)
                {
                    brim.push_back(polygon.offset(-offset_value, ClipperLib::jtRound));
                }
            }
        }
    }
    else
    {
        const int reference_idx = std::get<int>(offset.reference_outline_or_index_);
        const coord_t offset_dist = extruder_config.line_width_;
        brim.push_back(self.storage_.skirt_brim[offset.extruder_nr_][reference_idx].offset(offset_dist, ClipperLib::jtRound));
    }
    brim = Simplify(Application::getInstance().current_slice_->scene.extruders[offset.extruder_nr_].settings_).polygon(brim);
    OpenLinesSet brim_lines = allowed_areas_per_extruder[offset.extruder_nr_].intersection(brim, false);
    length_added = brim_lines.length();
    Shape newly_covered = brim_lines.offset(extruder_config.line_width_ / 2 + 10, ClipperLib::jtRound);
    const coord_t max_stitch_distance = extruder_config.line_width_;
    MixedPolylineStitcher::stitch(brim_lines, result, max_stitch_distance);
    result.erase(
        std::remove_if(
            result.begin(),
            result.end(),
            [](const PolylinePtr& line)
            {
                if (const std::shared_ptr<const OpenPolyline> open_line = dynamic_pointer_cast<const OpenPolyline>(line))
                {
                    return open_line->shorterThan(min_brim_line_length);
                }
                return false;
            }),
        result.end());
    covered_area = covered_area.unionPolygons(newly_covered.unionPolygons());
    for (size_t extruder_nr = 0; extruder_nr < self.extruder_count_; extruder_nr++)
    {
        if (self.extruders_configs_[extruder_nr].extruder_is_used_)
        {
            allowed_areas_per_extruder[extruder_nr] = allowed_areas_per_extruder[extruder_nr].difference(covered_area);
        }
    }
    return length_added;
}
} // namespace n5

//= cura::SkirtBrim::getFirstLayerOutline
namespace n6
{
using ExtruderConfig = cura::SkirtBrim::ExtruderConfig;
using Outline = cura::SkirtBrim::Outline;
SkirtBrim::Outline r6(cura::SkirtBrim& self, const int extruder_nr)
{
    Outline first_layer_outline;
    Settings& global_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    int reference_extruder_nr = self.skirt_brim_extruder_nr_;
    if (reference_extruder_nr == -1)
    {
        reference_extruder_nr = extruder_nr;
    }
    const ExtruderConfig& reference_extruder_config = self.extruders_configs_[reference_extruder_nr];
    const int primary_line_count = reference_extruder_config.line_count_;
    const LayerIndex layer_nr = 0;
    if (self.adhesion_type_ == EPlatformAdhesion::SKIRT)
    {
        int skirt_height = 0;
        for (const auto& extruder : Application::getInstance().current_slice_->scene.extruders)
        {
            if (extruder_nr == -1 || extruder_nr == extruder.extruder_nr_)
            {
                skirt_height = std::max(skirt_height, extruder.settings_.get<int>("skirt_height"));
            }
        }
        skirt_height = std::min(skirt_height, static_cast<int>(self.storage_.print_layer_count));
        for (int i_layer = layer_nr; i_layer < skirt_height; ++i_layer)
        {
            constexpr bool include_support = true;
            constexpr bool include_prime_tower = true;
            first_layer_outline.gapped = first_layer_outline.gapped.unionPolygons(self.storage_.getLayerOutlines(i_layer, include_support, include_prime_tower, true));
        }
        Shape shields;
        if (self.has_ooze_shield_)
        {
            shields = self.storage_.ooze_shield[0];
        }
        if (self.has_draft_shield_)
        {
            shields = shields.unionPolygons(self.storage_.draft_protection_shield);
        }
        first_layer_outline.gapped = first_layer_outline.gapped.unionPolygons(shields.offset(
            reference_extruder_config.line_width_ / 2 
            - reference_extruder_config.gap_)); 
        first_layer_outline.gapped.makeConvex();
    }
    else
    { 
        {
            constexpr bool include_support = false; 
            constexpr bool include_prime_tower = false; 
            constexpr bool external_polys_only = false; 
            first_layer_outline.gapped = self.storage_.getLayerOutlines(layer_nr, include_support, include_prime_tower, external_polys_only, extruder_nr);
            first_layer_outline.gapped
                = first_layer_outline.gapped.unionPolygons(); 
        }
        if (self.storage_.support.generated && primary_line_count > 0 && ! self.storage_.support.supportLayers.empty()
            && (extruder_nr == -1 || extruder_nr == global_settings.get<int>("support_extruder_nr_layer_0")))
        { 
            SupportLayer& support_layer = self.storage_.support.supportLayers[0];
            const ExtruderTrain& support_infill_extruder = global_settings.get<ExtruderTrain&>("support_extruder_nr_layer_0");
            if (support_infill_extruder.settings_.get<bool>("brim_replaces_support"))
            {
                const coord_t primary_extruder_skirt_brim_line_width = reference_extruder_config.line_width_;
                Shape model_brim_covered_area;
                const coord_t offset = primary_extruder_skirt_brim_line_width * (primary_line_count + primary_line_count % 2);
                for (const Polygon& polygon : first_layer_outline.gapped)
                {
                    Shape outset;
                    Shape inset;
                    double area = polygon.area();
                    if (area > 0 && reference_extruder_config.outside_polys_)
                    {
                        outset = polygon.offset(offset, ClipperLib::jtRound);
                        inset.push_back(polygon);
                    }
                    else if (area < 0 && reference_extruder_config.inside_polys_)
                    {
                        outset.push_back(polygon);
                        inset = polygon.offset(-offset, ClipperLib::jtRound);
                    }
                    outset = outset.difference(inset);
                    model_brim_covered_area = model_brim_covered_area.unionPolygons(outset);
                }
                AABB model_brim_covered_area_boundary_box(model_brim_covered_area);
                support_layer.excludeAreasFromSupportInfillAreas(model_brim_covered_area, model_brim_covered_area_boundary_box);
                support_layer.support_roof = support_layer.support_roof.difference(model_brim_covered_area);
            }
            for (const SupportInfillPart& support_infill_part : support_layer.support_infill_parts)
            {
                first_layer_outline.touching.push_back(support_infill_part.outline_);
            }
            first_layer_outline.touching.push_back(support_layer.support_bottom);
            first_layer_outline.touching.push_back(support_layer.support_roof);
        }
    }
    for (Shape& outline : std::array{ first_layer_outline.gapped, first_layer_outline.touching })
    {
        constexpr coord_t join_distance = 20;
        outline = outline.offset(join_distance).offset(-join_distance); 
        constexpr coord_t smallest_line_length = 200;
        constexpr coord_t largest_error_of_removed_point = 50;
        outline = Simplify(smallest_line_length, largest_error_of_removed_point, 0).polygon(outline);
    }
    return first_layer_outline;
}
} // namespace n6

//= cura::SkirtBrim::generateShieldBrim
namespace n7
{
using ExtruderConfig = cura::SkirtBrim::ExtruderConfig;
void r7(cura::SkirtBrim& self, Shape& brim_covered_area, std::vector<Shape>& allowed_areas_per_extruder)
{
    int extruder_nr = self.skirt_brim_extruder_nr_;
    if (extruder_nr < 0)
    { 
        extruder_nr = self.first_used_extruder_nr_;
    }
    const ExtruderConfig& extruder_config = self.extruders_configs_[extruder_nr];
    if (self.adhesion_type_ == EPlatformAdhesion::BRIM && (self.has_ooze_shield_ || self.has_draft_shield_))
    {
        const coord_t primary_extruder_skirt_brim_line_width = extruder_config.line_width_;
        int primary_line_count = extruder_config.line_count_;
        const coord_t primary_skirt_brim_width
            = (primary_line_count + primary_line_count % 2) * primary_extruder_skirt_brim_line_width; 
        Shape shield_brim;
        if (self.has_ooze_shield_)
        {
            shield_brim = self.storage_.ooze_shield[0].difference(self.storage_.ooze_shield[0].offset(-primary_skirt_brim_width - primary_extruder_skirt_brim_line_width));
        }
        if (self.has_draft_shield_)
        {
            shield_brim = shield_brim.unionPolygons(
                self.storage_.draft_protection_shield.difference(self.storage_.draft_protection_shield.offset(-primary_skirt_brim_width - primary_extruder_skirt_brim_line_width)));
        }
        shield_brim = shield_brim.intersection(allowed_areas_per_extruder[extruder_nr].offset(primary_extruder_skirt_brim_line_width / 2));
        const Shape layer_outlines = self.storage_.getLayerOutlines( 0,  false,  true);
        shield_brim = shield_brim.difference(layer_outlines.getOutsidePolygons()); 
        const Shape covered_area = shield_brim.offset(primary_extruder_skirt_brim_line_width / 2);
        brim_covered_area = brim_covered_area.unionPolygons(covered_area);
        allowed_areas_per_extruder[extruder_nr] = allowed_areas_per_extruder[extruder_nr].difference(covered_area);
        self.storage_.skirt_brim[extruder_nr].emplace_back();
        self.storage_.skirt_brim[extruder_nr].back().push_back(shield_brim);
        while (shield_brim.size() > 0)
        {
            shield_brim = shield_brim.offset(-primary_extruder_skirt_brim_line_width);
            self.storage_.skirt_brim[extruder_nr].back().push_back(shield_brim); 
        }
    }
    if (self.adhesion_type_ == EPlatformAdhesion::SKIRT)
    {
        if (self.has_ooze_shield_)
        {
            const Shape covered_area = self.storage_.ooze_shield[0].offset(extruder_config.line_width_ / 2);
            brim_covered_area = brim_covered_area.unionPolygons(covered_area);
            allowed_areas_per_extruder[extruder_nr] = allowed_areas_per_extruder[extruder_nr].difference(covered_area);
        }
        if (self.has_draft_shield_)
        {
            const Shape covered_area = self.storage_.draft_protection_shield.offset(extruder_config.line_width_ / 2);
            brim_covered_area = brim_covered_area.unionPolygons(covered_area);
            allowed_areas_per_extruder[extruder_nr] = allowed_areas_per_extruder[extruder_nr].difference(covered_area);
        }
    }
}
} // namespace n7

//= cura::SkirtBrim::generateAllowedAreas
namespace n9
{
using ExtruderConfig = cura::SkirtBrim::ExtruderConfig;
using Outline = cura::SkirtBrim::Outline;
std::vector<Shape> r9(const cura::SkirtBrim& self, const std::vector<Outline>& starting_outlines)
{
    constexpr LayerIndex layer_nr = 0;
    struct ExtruderOutlines
    {
        Shape models_outlines;
        Shape supports_outlines;
    };
    std::vector<ExtruderOutlines> covered_area_by_extruder;
    if (self.adhesion_type_ == EPlatformAdhesion::BRIM)
    {
        covered_area_by_extruder.resize(self.extruder_count_);
        for (size_t extruder_nr = 0; extruder_nr < self.extruder_count_; extruder_nr++)
        {
            if (self.extruders_configs_[extruder_nr].extruder_is_used_)
            {
                ExtruderOutlines& extruder_outlines = covered_area_by_extruder[extruder_nr];
                constexpr bool external_polys_only = false;
                {
                    constexpr bool include_support = false;
                    constexpr bool include_prime_tower = false;
                    constexpr bool include_model = true;
                    extruder_outlines.models_outlines = self.storage_.getLayerOutlines(layer_nr, include_support, include_prime_tower, external_polys_only, extruder_nr, include_model);
                }
                {
                    constexpr bool include_support = true;
                    constexpr bool include_prime_tower = true;
                    constexpr bool include_model = false;
                    constexpr bool include_support_base = false;
                    extruder_outlines.supports_outlines
                        = self.storage_.getLayerOutlines(layer_nr, include_support, include_prime_tower, external_polys_only, extruder_nr, include_model, include_support_base);
                }
            }
        }
    }
    std::vector<Shape> allowed_areas_per_extruder(self.extruder_count_);
    for (size_t extruder_nr = 0; extruder_nr < self.extruder_count_; extruder_nr++)
    {
        const ExtruderConfig& extruder_config = self.extruders_configs_[extruder_nr];
        if (! extruder_config.extruder_is_used_)
        {
            continue;
        }
        Shape& allowed_areas = allowed_areas_per_extruder[extruder_nr];
        allowed_areas = self.storage_.getMachineBorder(extruder_nr);
        if (self.adhesion_type_ == EPlatformAdhesion::BRIM)
        {
            const Settings& settings = Application::getInstance().current_slice_->scene.extruders[extruder_nr].settings_;
            const coord_t hole_brim_distance = settings.get<coord_t>("brim_inside_margin");
            for (size_t other_extruder_nr = 0; other_extruder_nr < covered_area_by_extruder.size(); ++other_extruder_nr)
            {
                const ExtruderOutlines& extruder_outlines = covered_area_by_extruder[other_extruder_nr];
                const coord_t base_offset = extruder_config.line_width_ / 2;
                for (const Polygon& covered_surface : extruder_outlines.models_outlines)
                {
                    coord_t offset = base_offset;
                    const double covered_area = covered_surface.area();
                    if ((other_extruder_nr == extruder_nr || extruder_nr == self.skirt_brim_extruder_nr_)
                        && ((covered_area > 0 && extruder_config.outside_polys_) || (covered_area < 0 && extruder_config.inside_polys_)))
                    {
                        offset += extruder_config.gap_ - 50; 
                    }
                    else
                    {
                        offset += hole_brim_distance;
                    }
                    if (covered_area < 0)
                    {
                        allowed_areas.push_back(covered_surface.offset(-offset, ClipperLib::jtRound));
                    }
                    else
                    {
                        allowed_areas = allowed_areas.difference(covered_surface.offset(offset, ClipperLib::jtRound));
                    }
                }
                allowed_areas = allowed_areas.difference(extruder_outlines.supports_outlines.offset(base_offset - 50));
            }
        }
        allowed_areas = allowed_areas.difference(starting_outlines[extruder_nr].gapped.offset(extruder_config.gap_ - 50, ClipperLib::jtRound));
        allowed_areas = allowed_areas.difference(starting_outlines[extruder_nr].touching.offset(-50, ClipperLib::jtRound));
    }
    return allowed_areas_per_extruder;
}
} // namespace n9

//= cura::SkirtBrim::generateSupportInsideBrim
void r10(cura::SkirtBrim& self, const Settings& settings, const Shape& support_outline, const coord_t width, const coord_t line_width)
{
    const coord_t support_brim_minimum_hole_area = MM2_2INT(settings.get<coord_t>("support_brim_minimum_hole_area"));
    PolygonUtils::InsetOutset base_insets = PolygonUtils::generateInsetOutset(support_outline, -width, line_width);
    for (Shape& base_inset : base_insets.walls)
    {
        base_inset.erase(
            ranges::remove_if(
                base_inset,
                [support_brim_minimum_hole_area](const Polygon& polygon)
                {
                    const double area = polygon.area();
                    return area < 0 && area > -support_brim_minimum_hole_area;
                }),
            base_inset.end());
        if (base_inset.length() > 0)
        {
            self.storage_.support_brim.push_back(std::move(base_inset));
        }
    }
}

//= cura::SkirtBrim::generateSupportOutsideBrim
void r11(cura::SkirtBrim& self, const Shape& support_outline, const coord_t width, const coord_t line_width, const Shape& exclusion_area)
{
    PolygonUtils::InsetOutset base_outsets = PolygonUtils::generateInsetOutset(support_outline, width, line_width);
    ClosedLinesSet closed_base_outset;
    for (Shape& base_outset : base_outsets.walls)
    {
        closed_base_outset.reserve(closed_base_outset.size() + base_outset.size());
        for (Polygon& base_outset_polygon : base_outset)
        {
            closed_base_outset.push_back(ClosedPolyline(std::move(base_outset_polygon)));
        }
    }
    MixedLinesSet base_lines = closed_base_outset.difference(exclusion_area).intersection(self.storage_.getMachineBorder());
    if (base_lines.length() > 0)
    {
        self.storage_.support_brim.push_back(std::move(base_lines));
    }
}

//= cura::SkirtBrim::generateSupportBrim
void r12(cura::SkirtBrim& self)
{
    const Scene& scene = Application::getInstance().current_slice_->scene;
    const Settings& settings = scene.current_mesh_group->settings.get<ExtruderTrain&>("support_extruder_nr_layer_0").settings_;
    const coord_t brim_line_width = settings.get<coord_t>("skirt_brim_line_width") * settings.get<Ratio>("initial_layer_line_width_factor");
    const size_t inside_brim_line_count = settings.get<bool>("support_brim_enable") ? settings.get<size_t>("support_brim_line_count") : 0;
    const auto layer_height = settings.get<coord_t>("layer_height");
    const auto base_outside_width = settings.get<coord_t>("support_base_outside_width");
    const auto base_outside_height = settings.get<coord_t>("support_outside_base_height");
    const auto support_outer_brim_enable = settings.get<bool>("support_outer_brim_enable");
    const bool has_base_outside = support_outer_brim_enable && base_outside_width > 0 && base_outside_height >= layer_height;
    const size_t outside_brim_line_count = (self.adhesion_type_ != EPlatformAdhesion::BRIM && has_base_outside) ? base_outside_width / brim_line_width : 0;
    if (! self.storage_.support.generated || (inside_brim_line_count == 0 && outside_brim_line_count == 0) || self.storage_.support.supportLayers.empty())
    {
        return;
    }
    SupportLayer& support_layer = self.storage_.support.supportLayers[0];
    Shape support_outline;
    for (SupportInfillPart& part : support_layer.support_infill_parts)
    {
        support_outline.push_back(part.outline_);
    }
    if (inside_brim_line_count > 0)
    {
        const coord_t inside_brim_width = brim_line_width * inside_brim_line_count;
        const Shape brim_area = support_outline.difference(support_outline.offset(-inside_brim_width));
        support_layer.excludeAreasFromSupportInfillAreas(brim_area, AABB(brim_area));
        self.generateSupportInsideBrim(settings, support_outline, inside_brim_width, brim_line_width);
    }
    if (outside_brim_line_count > 0)
    {
        const auto support_xy_distance = settings.get<coord_t>("support_xy_distance");
        constexpr bool include_support = false;
        constexpr bool include_prime_tower = false;
        constexpr bool external_polys_only = false;
        const Shape outside_exclusion_area
            = self.storage_.getLayerOutlines(0, include_support, include_prime_tower, external_polys_only).offset(support_xy_distance, ClipperLib::jtRound);
        self.generateSupportOutsideBrim(support_outline, base_outside_width, brim_line_width, outside_exclusion_area);
    }
}

//END
}  // namespace ref
