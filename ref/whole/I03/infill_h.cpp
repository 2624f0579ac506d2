// What the functions of this unit compute.
#ifndef INFILL_H
#define INFILL_H
#include <numbers>
#include <range/v3/range/concepts.hpp>
#include "WallToolPathGenerator.h"
#include "geometry/LinesSet.h"
#include "geometry/Point2LL.h"
#include "infill/LightningGenerator.h"
#include "infill/ZigzagConnectorProcessor.h"
#include "settings/EnumSettings.h"
#include "settings/Settings.h"
#include "settings/types/Angle.h"
#include "utils/AABB.h"
#include "utils/ExtrusionLine.h"
#include "utils/section_type.h"
namespace cura
{
class SierpinskiFillProvider;
class SliceMeshStorage;
class Infill
{
    friend class InfillTest;
    EFillMethod pattern_{};
    bool zig_zaggify_{};
    bool connect_lines_{ calcConnectLines(pattern_, zig_zaggify_) };
    bool connect_polygons_{};
    Shape outer_contour_{};
    Shape inner_contour_{};
    coord_t infill_line_width_{};
    coord_t line_distance_{};
    coord_t infill_overlap_{};
    size_t infill_multiplier_{};
    AngleDegrees fill_angle_{};
    coord_t z_{};
    coord_t shift_{};
    coord_t max_resolution_{};
    coord_t max_deviation_{};
    coord_t wall_thickness_{};
    coord_t small_area_width_{};
    Point2LL infill_origin_{};
    bool skip_line_stitching_{ false };
    bool fill_gaps_{ true };
    bool connected_zigzags_{ false };
    bool use_endpieces_{ false };
    bool skip_some_zags_{ false };
    size_t zag_skip_count_{};
    coord_t pocket_size_{};
    bool mirror_offset_{};
    static constexpr auto one_over_sqrt_2 = 1.0 / std::numbers::sqrt2;
    constexpr bool calcConnectLines(const EFillMethod pattern, const bool zig_zaggify)
    {
        return zig_zaggify
            && (pattern == EFillMethod::LINES || pattern == EFillMethod::TRIANGLES || pattern == EFillMethod::GRID || pattern == EFillMethod::CUBIC
                || pattern == EFillMethod::TETRAHEDRAL || pattern == EFillMethod::QUARTER_CUBIC || pattern == EFillMethod::TRIHEXAGON);
    }
public:
    Infill() noexcept = default;
//= cura::Infill::Infill
    Infill(
        EFillMethod pattern,
        bool zig_zaggify,
        bool connect_polygons,
        Shape in_outline,
        coord_t infill_line_width,
        coord_t line_distance,
        coord_t infill_overlap,
        size_t infill_multiplier,
        AngleDegrees fill_angle,
        coord_t z,
        coord_t shift,
        coord_t max_resolution,
        coord_t max_deviation) noexcept
        : pattern_{ pattern }
        , zig_zaggify_{ zig_zaggify }
        , connect_polygons_{ connect_polygons }
        , outer_contour_{ in_outline }
        , infill_line_width_{ infill_line_width }
        , line_distance_{ line_distance }
        , infill_overlap_{ infill_overlap }
        , infill_multiplier_{ infill_multiplier }
        , fill_angle_{ fill_angle }
        , z_{ z }
        , shift_{ shift }
        , max_resolution_{ max_resolution }
        , max_deviation_{ max_deviation }
    {
    }
//END
//= cura::Infill::Infill
    Infill(
        EFillMethod pattern,
        bool zig_zaggify,
        bool connect_polygons,
        Shape in_outline,
        coord_t infill_line_width,
        coord_t line_distance,
        coord_t infill_overlap,
        size_t infill_multiplier,
        AngleDegrees fill_angle,
        coord_t z,
        coord_t shift,
        coord_t max_resolution,
        coord_t max_deviation,
        std::variant<size_t, coord_t> walls,
        coord_t small_area_width,
        Point2LL infill_origin,
        bool skip_line_stitching) noexcept
        : pattern_{ pattern }
        , zig_zaggify_{ zig_zaggify }
        , connect_polygons_{ connect_polygons }
        , outer_contour_{ in_outline }
        , infill_line_width_{ infill_line_width }
        , line_distance_{ line_distance }
        , infill_overlap_{ infill_overlap }
        , infill_multiplier_{ infill_multiplier }
        , fill_angle_{ fill_angle }
        , z_{ z }
        , shift_{ shift }
        , max_resolution_{ max_resolution }
        , max_deviation_{ max_deviation }
        , wall_thickness_{ std::holds_alternative<coord_t>(walls) ? std::get<coord_t>(walls) : static_cast<coord_t>(std::get<size_t>(walls) * infill_line_width) }
        , small_area_width_{ small_area_width }
        , infill_origin_{ infill_origin }
        , skip_line_stitching_{ skip_line_stitching }
    {
    }
//END
//= cura::Infill::Infill
    Infill(
        EFillMethod pattern,
        bool zig_zaggify,
        bool connect_polygons,
        Shape in_outline,
        coord_t infill_line_width,
        coord_t line_distance,
        coord_t infill_overlap,
        size_t infill_multiplier,
        AngleDegrees fill_angle,
        coord_t z,
        coord_t shift,
        coord_t max_resolution,
        coord_t max_deviation,
        std::variant<size_t, coord_t> walls,
        coord_t small_area_width,
        Point2LL infill_origin,
        bool skip_line_stitching,
        bool fill_gaps,
        bool connected_zigzags,
        bool use_endpieces,
        bool skip_some_zags,
        size_t zag_skip_count,
        coord_t pocket_size) noexcept
        : pattern_{ pattern }
        , zig_zaggify_{ zig_zaggify }
        , connect_polygons_{ connect_polygons }
        , outer_contour_{ in_outline }
        , infill_line_width_{ infill_line_width }
        , line_distance_{ line_distance }
        , infill_overlap_{ infill_overlap }
        , infill_multiplier_{ infill_multiplier }
        , fill_angle_{ fill_angle }
        , z_{ z }
        , shift_{ shift }
        , max_resolution_{ max_resolution }
        , max_deviation_{ max_deviation }
        , wall_thickness_{ std::holds_alternative<coord_t>(walls) ? std::get<coord_t>(walls) : static_cast<coord_t>(std::get<size_t>(walls) * infill_line_width) }
        , small_area_width_{ small_area_width }
        , infill_origin_{ infill_origin }
        , skip_line_stitching_{ skip_line_stitching }
        , fill_gaps_{ fill_gaps }
        , connected_zigzags_{ connected_zigzags }
        , use_endpieces_{ use_endpieces }
        , skip_some_zags_{ skip_some_zags }
        , zag_skip_count_{ zag_skip_count }
        , pocket_size_{ pocket_size }
        , mirror_offset_{ zig_zaggify }
    {
    }
//END
    void generate(
        std::vector<VariableWidthLines>& toolpaths,
        Shape& result_polygons,
        OpenLinesSet& result_lines,
        const Settings& settings,
        int layer_idx,
        SectionType section_type,
        const std::shared_ptr<SierpinskiFillProvider>& cross_fill_provider = nullptr,
        const std::shared_ptr<LightningLayer>& lightning_layer = nullptr,
        const SliceMeshStorage* mesh = nullptr,
        const Shape& prevent_small_exposed_to_air = Shape(),
        const coord_t minimum_line_length = 0,
        WallToolPathGenerator wall_generator = WallToolPathGenerator::Arachne);
    coord_t getLineDistance() const
    {
        return line_distance_;
    }
    static Shape generateWallToolPaths(
        std::vector<VariableWidthLines>& toolpaths,
        const Shape& outer_contour,
        const coord_t wall_thickness,
        const coord_t line_width,
        const Settings& settings,
        int layer_idx,
        SectionType section_type,
        WallToolPathGenerator generator = WallToolPathGenerator::Arachne);
    const Shape& getInnerContour() const
    {
        return inner_contour_;
    }
private:
    struct InfillLineSegment
    {
        InfillLineSegment(const Point2LL start, const size_t start_segment, const size_t start_polygon, const Point2LL end, const size_t end_segment, const size_t end_polygon)
            : start_(start)
            , altered_start_(start)
            , start_segment_(start_segment)
            , start_polygon_(start_polygon)
            , end_(end)
            , altered_end_(end)
            , end_segment_(end_segment)
            , end_polygon_(end_polygon)
            , previous_(nullptr)
            , next_(nullptr)
        {
        }
        Point2LL start_;
        Point2LL altered_start_;
        size_t start_segment_;
        size_t start_polygon_;
        std::optional<Point2LL> start_bend_;
        Point2LL end_;
        Point2LL altered_end_;
        size_t end_segment_;
        size_t end_polygon_;
        std::optional<Point2LL> end_bend_;
        InfillLineSegment* previous_;
        InfillLineSegment* next_;
        bool operator==(const InfillLineSegment& other) const;
        void swapDirection();
        void appendTo(OpenPolyline& result_polyline, const bool include_start = true);
    };
    void _generate(
        std::vector<VariableWidthLines>& toolpaths,
        Shape& result_polygons,
        OpenLinesSet& result_lines,
        const Settings& settings,
        const int layer_idx,
        const std::shared_ptr<SierpinskiFillProvider>& cross_fill_pattern,
        const std::shared_ptr<LightningLayer>& lightning_layer,
        const SliceMeshStorage* mesh,
        const coord_t minimum_line_length);
    void generateForIsland(
        const Shape& outline,
        std::vector<VariableWidthLines>& toolpaths,
        Shape& result_polygons,
        OpenLinesSet& result_lines,
        const Settings& settings,
        const int layer_idx,
        const std::shared_ptr<SierpinskiFillProvider>& cross_fill_pattern,
        const std::shared_ptr<LightningLayer>& lightning_layer,
        const SliceMeshStorage* mesh);
    void multiplyInfill(Shape& result_polygons, OpenLinesSet& result_lines);
    void generateGyroidInfill(const Shape& outline, OpenLinesSet& result_polylines, Shape& result_polygons);
    void generateHoneycombInfill(const Shape& outline, OpenLinesSet& result_polylines, Shape& result_polygons);
    void generateOctagonInfill(const Shape& outline, OpenLinesSet& result_polylines, Shape& result_polygons);
    void generateLightningInfill(const Shape& outline, const std::shared_ptr<LightningLayer>& lightning_layer, OpenLinesSet& result_lines);
    void generateConcentricInfill(const Shape& outline, std::vector<VariableWidthLines>& toolpaths, const Settings& settings, const int layer_idx);
    void generateGridInfill(const Shape& outline, OpenLinesSet& result, std::vector<std::vector<std::vector<InfillLineSegment*>>>& crossings_on_line);
    void generateCubicInfill(const Shape& outline, OpenLinesSet& result, std::vector<std::vector<std::vector<InfillLineSegment*>>>& crossings_on_line);
    void generateTetrahedralInfill(const Shape& outline, OpenLinesSet& result, std::vector<std::vector<std::vector<InfillLineSegment*>>>& crossings_on_line);
    void generateQuarterCubicInfill(const Shape& outline, OpenLinesSet& result, std::vector<std::vector<std::vector<InfillLineSegment*>>>& crossings_on_line);
    void generateHalfTetrahedralInfill(
        const Shape& outline,
        double pattern_z_shift,
        int angle_shift,
        OpenLinesSet& result,
        std::vector<std::vector<std::vector<InfillLineSegment*>>>& crossings_on_line);
    void generateTriangleInfill(const Shape& outline, OpenLinesSet& result, std::vector<std::vector<std::vector<InfillLineSegment*>>>& crossings_on_line);
    void generateTrihexagonInfill(const Shape& outline, OpenLinesSet& result, std::vector<std::vector<std::vector<InfillLineSegment*>>>& crossings_on_line);
    void generateCubicSubDivInfill(const Shape& outline, OpenLinesSet& result, const SliceMeshStorage& mesh);
    void generateCrossInfill(const Shape& outline, const SierpinskiFillProvider& cross_fill_provider, Shape& result_polygons, OpenLinesSet& result_lines);
    void addLineInfill(
        OpenLinesSet& result,
        const PointMatrix& rotation_matrix,
        const int scanline_min_idx,
        const int line_distance,
        const AABB boundary,
        std::vector<std::vector<coord_t>>& cut_list,
        coord_t total_shift);
    void generateLineInfill(
        const Shape& outline,
        OpenLinesSet& result,
        int line_distance,
        const double& infill_rotation,
        coord_t extra_shift,
        std::vector<std::vector<std::vector<InfillLineSegment*>>>& crossings_on_line);
    void generateLinearBasedInfill(
        const Shape& outline,
        OpenLinesSet& result,
        const int line_distance,
        const PointMatrix& rotation_matrix,
        ZigzagConnectorProcessor& zigzag_connector_processor,
        const bool connected_zigzags,
        coord_t extra_shift,
        std::vector<std::vector<std::vector<InfillLineSegment*>>>& crossings_on_line);
    void generateZigZagInfill(
        const Shape& outline,
        OpenLinesSet& result,
        const coord_t line_distance,
        const double& infill_rotation,
        std::vector<std::vector<std::vector<InfillLineSegment*>>>& crossings_on_line);
    coord_t getShiftOffsetFromInfillOriginAndRotation(const double& infill_rotation);
    void resolveIntersection(const coord_t at_distance, const Point2LL& intersect, Point2LL& connect_start, Point2LL& connect_end, InfillLineSegment* a, InfillLineSegment* b);
    void connectLines(const Shape& outline, OpenLinesSet& result_lines, std::vector<std::vector<std::vector<InfillLineSegment*>>>& crossings_on_line);
    bool includeLines(const std::vector<VariableWidthLines>& toolpaths, const Shape& result_polygons, const OpenLinesSet& result_lines, const coord_t minimum_line_length);
};
static_assert(concepts::semiregular<Infill>, "Infill should be semiregular");
}
#endif
