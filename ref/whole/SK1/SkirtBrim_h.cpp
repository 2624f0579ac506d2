// What the functions of this unit compute.
#ifndef SKIRT_BRIM_H
#define SKIRT_BRIM_H
#include <variant>
#include "ExtruderTrain.h"
#include "settings/EnumSettings.h"
#include "sliceDataStorage.h"
#include "utils/Coord_t.h"
namespace cura
{
class Shape;
class SliceDataStorage;
constexpr coord_t min_brim_line_length = 3000u;
class SkirtBrim
{
private:
    struct Outline
    {
        Shape gapped;
        Shape touching;
    };
    struct Offset
    {
//= cura::SkirtBrim::Offset::Offset
        Offset(
            const std::variant<Outline*, int>& reference_outline_or_index,
            const bool outside,
            const bool inside,
            const coord_t offset_value_gapped,
            const coord_t offset_value_touching,
            const coord_t total_offset,
            const size_t inset_idx,
            const size_t extruder_nr,
            const bool is_last)
            : reference_outline_or_index_(reference_outline_or_index)
            , outside_(outside)
            , inside_(inside)
            , offset_value_gapped_(offset_value_gapped)
            , offset_value_touching_(offset_value_touching)
            , total_offset_(total_offset)
            , inset_idx_(inset_idx)
            , extruder_nr_(extruder_nr)
            , is_last_(is_last)
        {
        }
//END
        std::variant<Outline*, int> reference_outline_or_index_;
        bool outside_;
        bool inside_;
        coord_t offset_value_gapped_;
        coord_t offset_value_touching_;
        coord_t total_offset_;
        int inset_idx_;
        size_t extruder_nr_;
        bool is_last_;
    };
    struct ExtruderConfig
    {
        bool extruder_is_used_;
        bool outside_polys_;
        bool inside_polys_;
        coord_t line_width_;
        coord_t skirt_brim_minimal_length_;
        int line_count_;
        coord_t gap_;
    };
    static inline const auto OffsetSorter{ [](const Offset& a, const Offset& b)
                                           {
                                               return a.total_offset_ != b.total_offset_ ? a.total_offset_ < b.total_offset_ : a.extruder_nr_ < b.extruder_nr_;
                                           } };
    SliceDataStorage& storage_;
    const EPlatformAdhesion adhesion_type_;
    const bool has_ooze_shield_;
    const bool has_draft_shield_;
    const std::vector<ExtruderTrain>& extruders_;
    size_t extruder_count_;
    size_t first_used_extruder_nr_;
    int skirt_brim_extruder_nr_;
    std::vector<ExtruderConfig> extruders_configs_;
public:
    SkirtBrim(SliceDataStorage& storage);
    void generate();
private:
    std::vector<Offset> generateBrimOffsetPlan(std::vector<Outline>& starting_outlines);
    std::vector<coord_t> generatePrimaryBrim(std::vector<Offset>& all_brim_offsets, Shape& covered_area, std::vector<Shape>& allowed_areas_per_extruder);
    void generateShieldBrim(Shape& brim_covered_area, std::vector<Shape>& allowed_areas_per_extruder);
    Outline getFirstLayerOutline(const int extruder_nr = -1);
    Shape getInternalHoleExclusionArea(const Shape& outline, const int extruder_nr) const;
    coord_t generateOffset(const Offset& offset, Shape& covered_area, std::vector<Shape>& allowed_areas_per_extruder, MixedLinesSet& result);
    void generateSecondarySkirtBrim(Shape& covered_area, std::vector<Shape>& allowed_areas_per_extruder, std::vector<coord_t>& total_length);
    std::vector<Shape> generateAllowedAreas(const std::vector<Outline>& starting_outlines) const;
    void generateSupportInsideBrim(const Settings& settings, const Shape& support_outline, const coord_t width, const coord_t line_width);
    void generateSupportOutsideBrim(const Shape& support_outline, const coord_t width, const coord_t line_width, const Shape& exclusion_area);
public:
    void generateSupportBrim();
};
}
#endif
