// Infill.
#include <algorithm>
#include <array>
#include <unordered_set>
#include <unordered_map>
#include <set>
#include <map>
#include <list>
#include <vector>
#include <deque>
#include <memory>
#include <numeric>
#include <optional>
#include <functional>
#include <string>
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "geometry/Polygon.h"
#include "geometry/OpenPolyline.h"
#include "geometry/SingleShape.h"
#include "geometry/MixedLinesSet.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "raft.h"
#include "WallToolPathGenerator.h"
#include "WallToolPaths.h"
#include "arachne/SkeletalTrapezoidation.h"
#include "geometry/LinesSet.h"
#include "geometry/OpenPolyline.h"
#include "geometry/Point2D.h"
#include "geometry/Point2LL.h"
#include "geometry/PointMatrix.h"
#include "infill.h"
#include "infill/GyroidInfill.h"
#include "infill/ImageBasedDensityProvider.h"
#include "infill/LightningGenerator.h"
#include "infill/NoZigZagConnectorProcessor.h"
#include "infill/RegularNGonalInfill.h"
#include "infill/SierpinskiFill.h"
#include "infill/SierpinskiFillProvider.h"
#include "infill/SubDivCube.h"
#include "infill/UniformDensityProvider.h"
#include "infill/ZigzagConnectorProcessor.h"
#include "plugins/slots.h"
#include "settings/EnumSettings.h"
#include "settings/Settings.h"
#include "settings/types/Angle.h"
#include "sliceDataStorage.h"
#include "utils/AABB.h"
#include "utils/ExtrusionLine.h"
#include "utils/OpenPolylineStitcher.h"
#include "utils/PolygonConnector.h"
#include "utils/Simplify.h"
#include "utils/UnionFind.h"
#include "utils/linearAlg2D.h"
#include "utils/section_type.h"
#include <algorithm> //For std::sort.
#include <functional>
#include <numbers>
#include <range/v3/numeric/accumulate.hpp>
#include <range/v3/range/concepts.hpp>
#include <scripta/logger.h>
#include <spdlog/spdlog.h>
#include <unordered_set>
#include "infill.h"
#include "ref.h"

namespace ref
{
using namespace cura;

//= computeScanSegmentIdx
int r1(int x, int line_width)
{
    if (x < 0)
    {
        return (x + 1) / line_width - 1;
    }
    return x / line_width;
}

//= cura::Infill::generateWallToolPaths
Shape r2(std::vector<VariableWidthLines>& toolpaths, const Shape& outer_contour, const coord_t wall_thickness, const coord_t line_width, const Settings& settings, int layer_idx, SectionType section_type, WallToolPathGenerator generator)
{
    Shape inner_contour;
    if (wall_thickness > 0)
    {
        constexpr coord_t wall_0_inset = 0; 
        constexpr coord_t wall_x_inset = 0; 
        const size_t wall_line_count = std::llrint(static_cast<double>(wall_thickness) / line_width);
        const coord_t actual_line_width = wall_thickness / std::max(size_t{ 1 }, wall_line_count);
        WallToolPaths wall_toolpaths(outer_contour, actual_line_width, wall_line_count, wall_0_inset, wall_x_inset, settings, layer_idx, section_type, generator);
        wall_toolpaths.pushToolPaths(toolpaths);
        inner_contour = wall_toolpaths.getInnerContour();
    }
    else
    {
        inner_contour = outer_contour;
    }
    return inner_contour;
}

//= cura::Infill::generate
void r3(cura::Infill& self, std::vector<VariableWidthLines>& toolpaths, Shape& result_polygons, OpenLinesSet& result_lines, const Settings& settings, int layer_idx, SectionType section_type, const std::shared_ptr<SierpinskiFillProvider>& cross_fill_provider, const std::shared_ptr<LightningLayer>& lightning_trees, const SliceMeshStorage* mesh, const Shape& prevent_small_exposed_to_air, const coord_t minimum_line_length, WallToolPathGenerator wall_generator)
{
    if (self.outer_contour_.empty())
    {
        return;
    }
    self.inner_contour_ = self.generateWallToolPaths(toolpaths, self.outer_contour_, self.wall_thickness_, self.infill_line_width_, settings, layer_idx, section_type, wall_generator);
    scripta::log("infill_inner_contour_0", self.inner_contour_, section_type, layer_idx);
    self.inner_contour_ = self.inner_contour_.offset(self.infill_overlap_);
    if (self.pattern_ != EFillMethod::CONCENTRIC && self.small_area_width_ > 0)
    {
        const auto too_small_length = INT2MM(static_cast<double>(self.infill_line_width_) / 2.0);
        Shape small_infill = self.inner_contour_;
        self.inner_contour_ = self.inner_contour_.offset(-self.small_area_width_ / 2);
        self.inner_contour_.removeSmallAreas(too_small_length * too_small_length, true);
        self.inner_contour_ = self.inner_contour_.offset(self.small_area_width_ / 2);
        self.inner_contour_ = self.inner_contour_.unionPolygons(prevent_small_exposed_to_air).intersection(small_infill);
        self.inner_contour_ = Simplify(self.max_resolution_, self.max_deviation_, 0).polygon(self.inner_contour_);
        small_infill = small_infill.difference(self.inner_contour_);
        auto small_infill_parts = small_infill.splitIntoParts();
        small_infill.clear();
        for (const auto& small_infill_part : small_infill_parts)
        {
            if (small_infill_part.offset(-self.infill_line_width_ / 2).offset(self.infill_line_width_ / 2).area() < self.infill_line_width_ * self.infill_line_width_ * 10
                && ! self.inner_contour_.intersection(small_infill_part.offset(self.infill_line_width_ / 4)).empty())
            {
                self.inner_contour_.push_back(small_infill_part);
            }
            else
            {
                small_infill.push_back(small_infill_part);
            }
        }
        self.inner_contour_ = self.inner_contour_.unionPolygons();
        const size_t narrow_wall_count = self.small_area_width_ / self.infill_line_width_ + 1;
        const coord_t inset = 0; 
        WallToolPaths wall_toolpaths(small_infill, self.infill_line_width_, narrow_wall_count, inset, inset, settings, layer_idx, section_type);
        std::vector<VariableWidthLines> small_infill_paths = wall_toolpaths.getToolPaths();
        scripta::log(
            "infill_small_infill_paths_0",
            small_infill_paths,
            section_type,
            layer_idx,
            scripta::CellVDI{ "is_closed", &ExtrusionLine::is_closed_ },
            scripta::CellVDI{ "is_odd", &ExtrusionLine::is_odd_ },
            scripta::CellVDI{ "inset_idx", &ExtrusionLine::inset_idx_ },
            scripta::PointVDI{ "width", &ExtrusionJunction::w_ },
            scripta::PointVDI{ "perimeter_index", &ExtrusionJunction::perimeter_index_ });
        for (const auto& small_infill_path : small_infill_paths)
        {
            toolpaths.emplace_back(small_infill_path);
        }
    }
    scripta::log("infill_inner_contour_1", self.inner_contour_, section_type, layer_idx);
    if (self.pattern_ == EFillMethod::ZIG_ZAG 
        || (self.zig_zaggify_
            && (self.pattern_ == EFillMethod::LINES 
                || self.pattern_ == EFillMethod::TRIANGLES || self.pattern_ == EFillMethod::GRID || self.pattern_ == EFillMethod::CUBIC || self.pattern_ == EFillMethod::TETRAHEDRAL
                || self.pattern_ == EFillMethod::QUARTER_CUBIC || self.pattern_ == EFillMethod::TRIHEXAGON || self.pattern_ == EFillMethod::GYROID || self.pattern_ == EFillMethod::HONEYCOMB
                || self.pattern_ == EFillMethod::OCTAGON || self.pattern_ == EFillMethod::CROSS || self.pattern_ == EFillMethod::CROSS_3D))
        || self.infill_multiplier_ % 2
               == 0) 
    {
        self.inner_contour_ = self.inner_contour_.offset(-self.infill_line_width_ / 2);
        self.inner_contour_ = Simplify(self.max_resolution_, self.max_deviation_, 0).polygon(self.inner_contour_);
    }
    scripta::log("infill_inner_contour_2", self.inner_contour_, section_type, layer_idx);
    Shape generated_result_polygons;
    OpenLinesSet generated_result_lines;
    if (self.infill_multiplier_ > 1)
    {
        bool zig_zaggify_real = self.zig_zaggify_;
        if (self.infill_multiplier_ % 2 == 0)
        {
            self.zig_zaggify_ = false;
        }
        self._generate(toolpaths, generated_result_polygons, generated_result_lines, settings, layer_idx, cross_fill_provider, lightning_trees, mesh, minimum_line_length);
        self.zig_zaggify_ = zig_zaggify_real;
        self.multiplyInfill(generated_result_polygons, generated_result_lines);
    }
    else
    {
        self._generate(toolpaths, generated_result_polygons, generated_result_lines, settings, layer_idx, cross_fill_provider, lightning_trees, mesh, minimum_line_length);
    }
    result_polygons.push_back(std::move(generated_result_polygons));
    result_lines.push_back(std::move(generated_result_lines));
    scripta::log("infill_result_polygons_0", result_polygons, section_type, layer_idx);
    scripta::log("infill_result_lines_0", result_lines, section_type, layer_idx);
    scripta::log(
        "infill_toolpaths_0",
        toolpaths,
        section_type,
        layer_idx,
        scripta::CellVDI{ "is_closed", &ExtrusionLine::is_closed_ },
        scripta::CellVDI{ "is_odd", &ExtrusionLine::is_odd_ },
        scripta::CellVDI{ "inset_idx", &ExtrusionLine::inset_idx_ },
        scripta::PointVDI{ "width", &ExtrusionJunction::w_ },
        scripta::PointVDI{ "perimeter_index", &ExtrusionJunction::perimeter_index_ });
    if (self.connect_polygons_)
    {
        coord_t snap_distance = self.infill_line_width_ * 2; 
        auto it = std::remove_if(
            result_polygons.begin(),
            result_polygons.end(),
            [snap_distance](const Polygon& poly)
            {
                return poly.shorterThan(snap_distance);
            });
        result_polygons.erase(it, result_polygons.end());
        PolygonConnector connector(self.infill_line_width_);
        connector.add(result_polygons);
        connector.add(toolpaths);
        Shape connected_polygons;
        std::vector<VariableWidthLines> connected_paths;
        connector.connect(connected_polygons, connected_paths);
        result_polygons = connected_polygons;
        toolpaths = connected_paths;
        scripta::log("infill_result_polygons_1", result_polygons, section_type, layer_idx);
        scripta::log("infill_result_lines_1", result_lines, section_type, layer_idx);
        scripta::log(
            "infill_toolpaths_1",
            toolpaths,
            section_type,
            layer_idx,
            scripta::CellVDI{ "is_closed", &ExtrusionLine::is_closed_ },
            scripta::CellVDI{ "is_odd", &ExtrusionLine::is_odd_ },
            scripta::CellVDI{ "inset_idx", &ExtrusionLine::inset_idx_ },
            scripta::PointVDI{ "width", &ExtrusionJunction::w_ },
            scripta::PointVDI{ "perimeter_index", &ExtrusionJunction::perimeter_index_ });
    }
}

//= cura::Infill::_generate
void r4(cura::Infill& self, std::vector<VariableWidthLines>& toolpaths, Shape& result_polygons, OpenLinesSet& result_lines, const Settings& settings, const int layer_idx, const std::shared_ptr<SierpinskiFillProvider>& cross_fill_provider, const std::shared_ptr<LightningLayer>& lightning_trees, const SliceMeshStorage* mesh, const coord_t minimum_line_length)
{
    for (const Shape& island : self.inner_contour_.splitIntoParts())
    {
        std::vector<VariableWidthLines> island_toolpaths;
        Shape island_polygons;
        OpenLinesSet island_lines;
        self.generateForIsland(island, island_toolpaths, island_polygons, island_lines, settings, layer_idx, cross_fill_provider, lightning_trees, mesh);
        if (minimum_line_length == 0 || self.includeLines(island_toolpaths, island_polygons, island_lines, minimum_line_length))
        {
            toolpaths.insert(toolpaths.end(), std::make_move_iterator(island_toolpaths.begin()), std::make_move_iterator(island_toolpaths.end()));
            result_polygons.push_back(std::move(island_polygons));
            result_lines.push_back(std::move(island_lines));
        }
    }
}

//= cura::Infill::generateForIsland
namespace n5
{
using InfillLineSegment = cura::Infill::InfillLineSegment;
void r5(cura::Infill& self, const Shape& outline, std::vector<VariableWidthLines>& toolpaths, Shape& result_polygons, OpenLinesSet& result_lines, const Settings& settings, const int layer_idx, const std::shared_ptr<SierpinskiFillProvider>& cross_fill_provider, const std::shared_ptr<LightningLayer>& lightning_trees, const SliceMeshStorage* mesh)
{
    if (outline.empty())
        return;
    if (self.line_distance_ == 0)
        return;
    std::vector<std::vector<std::vector<InfillLineSegment*>>> crossings_on_line;
    switch (self.pattern_)
    {
    case EFillMethod::GRID:
        self.generateGridInfill(outline, result_lines, crossings_on_line);
        break;
    case EFillMethod::LINES:
        self.generateLineInfill(outline, result_lines, self.line_distance_, self.fill_angle_, 0, crossings_on_line);
        break;
    case EFillMethod::CUBIC:
        self.generateCubicInfill(outline, result_lines, crossings_on_line);
        break;
    case EFillMethod::TETRAHEDRAL:
        self.generateTetrahedralInfill(outline, result_lines, crossings_on_line);
        break;
    case EFillMethod::QUARTER_CUBIC:
        self.generateQuarterCubicInfill(outline, result_lines, crossings_on_line);
        break;
    case EFillMethod::TRIANGLES:
        self.generateTriangleInfill(outline, result_lines, crossings_on_line);
        break;
    case EFillMethod::TRIHEXAGON:
        self.generateTrihexagonInfill(outline, result_lines, crossings_on_line);
        break;
    case EFillMethod::CONCENTRIC:
        self.generateConcentricInfill(outline, toolpaths, settings, layer_idx);
        break;
    case EFillMethod::ZIG_ZAG:
        self.generateZigZagInfill(outline, result_lines, self.line_distance_, self.fill_angle_, crossings_on_line);
        break;
    case EFillMethod::CUBICSUBDIV:
        if (! mesh)
        {
            break;
        }
        self.generateCubicSubDivInfill(outline, result_lines, *mesh);
        break;
    case EFillMethod::CROSS:
    case EFillMethod::CROSS_3D:
        if (! cross_fill_provider)
        {
            break;
        }
        self.generateCrossInfill(outline, *cross_fill_provider, result_polygons, result_lines);
        break;
    case EFillMethod::GYROID:
        self.generateGyroidInfill(outline, result_lines, result_polygons);
        break;
    case EFillMethod::LIGHTNING: 
        self.generateLightningInfill(outline, lightning_trees, result_lines);
        break;
    case EFillMethod::HONEYCOMB:
        self.generateHoneycombInfill(outline, result_lines, result_polygons);
        break;
    case EFillMethod::OCTAGON:
        self.generateOctagonInfill(outline, result_lines, result_polygons);
        break;
    case EFillMethod::PLUGIN:
    {
#ifdef ENABLE_PLUGINS 
        auto [toolpaths_, generated_result_polygons_, generated_result_lines_] = slots::instance().generate<plugins::v0::SlotID::INFILL_GENERATE>(
            outline,
            mesh ? mesh->settings.get<std::string>("infill_pattern") : settings.get<std::string>("infill_pattern"),
            mesh ? mesh->settings : settings,
            self.z_);
        toolpaths.insert(toolpaths.end(), toolpaths_.begin(), toolpaths_.end());
        result_polygons.push_back(generated_result_polygons_);
        result_lines.push_back(generated_result_lines_);
#endif
        break;
    }
    default:
        break;
    }
    if (self.connect_lines_)
    {
        result_lines.clear();
        self.connectLines(outline, result_lines, crossings_on_line);
    }
    Simplify simplifier(self.max_resolution_, self.max_deviation_, 0);
    result_polygons = simplifier.polygon(result_polygons);
    if (! self.skip_line_stitching_
        && (self.zig_zaggify_ || self.pattern_ == EFillMethod::CROSS || self.pattern_ == EFillMethod::CROSS_3D || self.pattern_ == EFillMethod::CUBICSUBDIV || self.pattern_ == EFillMethod::GYROID
            || self.pattern_ == EFillMethod::HONEYCOMB || self.pattern_ == EFillMethod::OCTAGON || self.pattern_ == EFillMethod::ZIG_ZAG))
    { 
        OpenLinesSet stitched_lines;
        OpenPolylineStitcher::stitch(result_lines, stitched_lines, result_polygons, self.infill_line_width_);
        result_lines = std::move(stitched_lines);
    }
    result_lines = simplifier.polyline(result_lines);
}
} // namespace n5

//= cura::Infill::multiplyInfill
void r6(cura::Infill& self, Shape& result_polygons, OpenLinesSet& result_lines)
{
    if (self.pattern_ == EFillMethod::CONCENTRIC)
    {
        result_polygons = result_polygons.processEvenOdd(); 
    }
    bool odd_multiplier = self.infill_multiplier_ % 2 == 1;
    coord_t offset = (odd_multiplier) ? self.infill_line_width_ : self.infill_line_width_ / 2;
    Shape result;
    Shape first_offset;
    {
        const Shape first_offset_lines = result_lines.offset(offset); 
        const Shape first_offset_polygons_inward = result_polygons.offset(-offset); 
        const Shape first_offset_polygons_outward = result_polygons.offset(offset); 
        const Shape first_offset_polygons = first_offset_polygons_outward.difference(first_offset_polygons_inward);
        first_offset = first_offset_lines.unionPolygons(
            first_offset_polygons); 
        if (self.zig_zaggify_)
        {
            first_offset = self.inner_contour_.difference(first_offset);
        }
    }
    result.push_back(first_offset);
    if (self.infill_multiplier_ > 3)
    {
        Shape reference_polygons = first_offset;
        const size_t multiplier = self.infill_multiplier_ / 2;
        const int extra_offset = self.mirror_offset_ ? -self.infill_line_width_ : self.infill_line_width_;
        for (size_t infill_line = 1; infill_line < multiplier; ++infill_line)
        {
            Shape extra_polys = reference_polygons.offset(extra_offset);
            result.push_back(extra_polys);
            reference_polygons = std::move(extra_polys);
        }
    }
    if (self.zig_zaggify_)
    {
        result = result.intersection(self.inner_contour_);
    }
    if (! odd_multiplier)
    {
        result_polygons.clear();
        result_lines.clear();
    }
    result_polygons.push_back(result);
    if (! self.zig_zaggify_)
    {
        OpenLinesSet polylines = self.inner_contour_.intersection(static_cast<LinesSet<Polygon>>(result_polygons));
        result_polygons.clear();
        OpenPolylineStitcher::stitch(polylines, result_lines, result_polygons, self.infill_line_width_);
    }
}

//= cura::Infill::generateGyroidInfill
void r7(cura::Infill& self, const Shape& outline, OpenLinesSet& result_polylines, Shape& result_polygons)
{
    GyroidInfill().generateInfill(result_polylines, result_polygons, self.zig_zaggify_, self.line_distance_, outline, self.z_, self.infill_line_width_, self.fill_angle_);
}

//= cura::Infill::generateHoneycombInfill
void r8(cura::Infill& self, const Shape& outline, OpenLinesSet& result_polylines, Shape& result_polygons)
{
    RegularNGonalInfill(RegularNGonalInfill::RegularNGonType::Hexagon)
        .generateInfill(result_polylines, result_polygons, self.zig_zaggify_, self.line_distance_, outline, self.z_, self.infill_line_width_, self.fill_angle_);
}

//= cura::Infill::generateOctagonInfill
void r9(cura::Infill& self, const Shape& outline, OpenLinesSet& result_polylines, Shape& result_polygons)
{
    RegularNGonalInfill(RegularNGonalInfill::RegularNGonType::Octagon)
        .generateInfill(result_polylines, result_polygons, self.zig_zaggify_, self.line_distance_, outline, self.z_, self.infill_line_width_, self.fill_angle_);
}

//= cura::Infill::generateLightningInfill
void r10(cura::Infill& self, const Shape& outline, const std::shared_ptr<LightningLayer>& trees, OpenLinesSet& result_lines)
{
    if (std::abs(outline.area()) < self.infill_line_width_ || ! trees)
    {
        return;
    }
    result_lines.push_back(trees->convertToLines(outline, self.infill_line_width_));
}

//= cura::Infill::generateConcentricInfill
void r11(cura::Infill& self, const Shape& outline, std::vector<VariableWidthLines>& toolpaths, const Settings& settings, const int layer_idx)
{
    const coord_t min_area = self.infill_line_width_ * self.infill_line_width_;
    Shape current_inset = outline;
    Simplify simplifier(settings);
    while (true)
    {
        current_inset = current_inset.offset(self.infill_line_width_ - self.line_distance_);
        current_inset = simplifier.polygon(current_inset); 
        if (current_inset.area() < min_area) 
        {
            break;
        }
        constexpr size_t inset_wall_count = 1; 
        constexpr coord_t wall_0_inset = 0; 
        constexpr coord_t wall_x_inset = 0; 
        WallToolPaths wall_toolpaths(current_inset, self.infill_line_width_, inset_wall_count, wall_0_inset, wall_x_inset, settings, layer_idx, SectionType::CONCENTRIC_INFILL);
        const std::vector<VariableWidthLines> inset_paths = wall_toolpaths.getToolPaths();
        toolpaths.insert(toolpaths.end(), inset_paths.begin(), inset_paths.end());
        current_inset = wall_toolpaths.getInnerContour();
    }
}

//= cura::Infill::generateGridInfill
namespace n12
{
using InfillLineSegment = cura::Infill::InfillLineSegment;
void r12(cura::Infill& self, const Shape& outline, OpenLinesSet& result, std::vector<std::vector<std::vector<InfillLineSegment*>>>& crossings_on_line)
{
    self.generateLineInfill(outline, result, self.line_distance_, self.fill_angle_, 0, crossings_on_line);
    self.generateLineInfill(outline, result, self.line_distance_, self.fill_angle_ + 90, 0, crossings_on_line);
}
} // namespace n12

//= cura::Infill::generateCubicInfill
namespace n13
{
using InfillLineSegment = cura::Infill::InfillLineSegment;
void r13(cura::Infill& self, const Shape& outline, OpenLinesSet& result, std::vector<std::vector<std::vector<InfillLineSegment*>>>& crossings_on_line)
{
    const coord_t shift = self.one_over_sqrt_2 * self.z_;
    self.generateLineInfill(outline, result, self.line_distance_, self.fill_angle_, shift, crossings_on_line);
    self.generateLineInfill(outline, result, self.line_distance_, self.fill_angle_ + 120, shift, crossings_on_line);
    self.generateLineInfill(outline, result, self.line_distance_, self.fill_angle_ + 240, shift, crossings_on_line);
}
} // namespace n13

//= cura::Infill::generateTetrahedralInfill
namespace n14
{
using InfillLineSegment = cura::Infill::InfillLineSegment;
void r14(cura::Infill& self, const Shape& outline, OpenLinesSet& result, std::vector<std::vector<std::vector<InfillLineSegment*>>>& crossings_on_line)
{
    self.generateHalfTetrahedralInfill(outline, 0.0, 0, result, crossings_on_line);
    self.generateHalfTetrahedralInfill(outline, 0.0, 90, result, crossings_on_line);
}
} // namespace n14

//= cura::Infill::generateQuarterCubicInfill
namespace n15
{
using InfillLineSegment = cura::Infill::InfillLineSegment;
void r15(cura::Infill& self, const Shape& outline, OpenLinesSet& result, std::vector<std::vector<std::vector<InfillLineSegment*>>>& crossings_on_line)
{
    self.generateHalfTetrahedralInfill(outline, 0.0, 0, result, crossings_on_line);
    self.generateHalfTetrahedralInfill(outline, 0.5, 90, result, crossings_on_line);
}
} // namespace n15

//= cura::Infill::generateHalfTetrahedralInfill
namespace n16
{
using InfillLineSegment = cura::Infill::InfillLineSegment;
void r16(cura::Infill& self, const Shape& outline, double pattern_z_shift, int angle_shift, OpenLinesSet& result, std::vector<std::vector<std::vector<InfillLineSegment*>>>& crossings_on_line)
{
    const coord_t period = self.line_distance_ * 2;
    coord_t shift = coord_t(self.one_over_sqrt_2 * (self.z_ + pattern_z_shift * period * 2)) % period;
    shift = std::min(shift, period - shift); 
    shift = std::min(shift, period / 2 - self.infill_line_width_ / 2); 
    shift = std::max(shift, self.infill_line_width_ / 2); 
    self.generateLineInfill(outline, result, period, self.fill_angle_ + angle_shift, shift, crossings_on_line);
    self.generateLineInfill(outline, result, period, self.fill_angle_ + angle_shift, -shift, crossings_on_line);
}
} // namespace n16

//= cura::Infill::generateTriangleInfill
namespace n17
{
using InfillLineSegment = cura::Infill::InfillLineSegment;
void r17(cura::Infill& self, const Shape& outline, OpenLinesSet& result, std::vector<std::vector<std::vector<InfillLineSegment*>>>& crossings_on_line)
{
    self.generateLineInfill(outline, result, self.line_distance_, self.fill_angle_, 0, crossings_on_line);
    self.generateLineInfill(outline, result, self.line_distance_, self.fill_angle_ + 60, 0, crossings_on_line);
    self.generateLineInfill(outline, result, self.line_distance_, self.fill_angle_ + 120, 0, crossings_on_line);
}
} // namespace n17

//= cura::Infill::generateTrihexagonInfill
namespace n18
{
using InfillLineSegment = cura::Infill::InfillLineSegment;
void r18(cura::Infill& self, const Shape& outline, OpenLinesSet& result, std::vector<std::vector<std::vector<InfillLineSegment*>>>& crossings_on_line)
{
    self.generateLineInfill(outline, result, self.line_distance_, self.fill_angle_, 0, crossings_on_line);
    self.generateLineInfill(outline, result, self.line_distance_, self.fill_angle_ + 60, 0, crossings_on_line);
    self.generateLineInfill(outline, result, self.line_distance_, self.fill_angle_ + 120, self.line_distance_ / 2, crossings_on_line);
}
} // namespace n18

//= cura::Infill::generateCubicSubDivInfill
void r19(cura::Infill& self, const Shape& outline, OpenLinesSet& result, const SliceMeshStorage& mesh)
{
    OpenLinesSet uncropped;
    mesh.base_subdiv_cube->generateSubdivisionLines(self.z_, uncropped);
    constexpr bool restitch = false; 
    result = outline.offset(self.infill_overlap_).intersection(uncropped, restitch);
}

//= cura::Infill::generateCrossInfill
void r20(cura::Infill& self, const Shape& outline, const SierpinskiFillProvider& cross_fill_provider, Shape& result_polygons, OpenLinesSet& result_lines)
{
    Polygon cross_pattern_polygon = cross_fill_provider.generate(self.pattern_, self.z_, self.infill_line_width_, self.pocket_size_);
    if (cross_pattern_polygon.empty())
    {
        return;
    }
    if (self.zig_zaggify_)
    {
        Shape cross_pattern_polygons;
        cross_pattern_polygons.push_back(cross_pattern_polygon);
        result_polygons.push_back(outline.intersection(cross_pattern_polygons));
    }
    else
    {
        OpenLinesSet cross_pattern_polylines;
        cross_pattern_polylines.push_back(cross_pattern_polygon.toPseudoOpenPolyline());
        OpenLinesSet poly_lines = outline.intersection(cross_pattern_polylines);
        OpenPolylineStitcher::stitch(poly_lines, result_lines, result_polygons, self.infill_line_width_);
    }
}

//= cura::Infill::addLineInfill
void r21(cura::Infill& self, OpenLinesSet& result, const PointMatrix& rotation_matrix, const int scanline_min_idx, const int line_distance, const AABB boundary, std::vector<std::vector<coord_t>>& cut_list, coord_t shift)
{
    unsigned int scanline_idx = 0;
    for (coord_t x = scanline_min_idx * line_distance + shift; x < boundary.max_.X; x += line_distance)
    {
        if (scanline_idx >= cut_list.size())
        {
            break;
        }
        std::vector<coord_t>& crossings = cut_list[scanline_idx];
        std::stable_sort(crossings.begin(), crossings.end()); 
        for (unsigned int crossing_idx = 0; crossing_idx + 1 < crossings.size(); crossing_idx += 2)
        {
            if (crossings[crossing_idx + 1] - crossings[crossing_idx] < self.infill_line_width_ / 5)
            { 
                continue;
            }
            result.addSegment(rotation_matrix.unapply(Point2LL(x, crossings[crossing_idx])), rotation_matrix.unapply(Point2LL(x, crossings[crossing_idx + 1])));
        }
        scanline_idx += 1;
    }
}

//= cura::Infill::getShiftOffsetFromInfillOriginAndRotation
coord_t r22(cura::Infill& self, const double& infill_rotation)
{
    if (self.infill_origin_.X != 0 || self.infill_origin_.Y != 0)
    {
        const double rotation_rads = infill_rotation * std::numbers::pi / 180;
        return self.infill_origin_.X * std::cos(rotation_rads) - self.infill_origin_.Y * std::sin(rotation_rads);
    }
    return 0;
}

//= cura::Infill::generateLineInfill
namespace n23
{
using InfillLineSegment = cura::Infill::InfillLineSegment;
void r23(cura::Infill& self, const Shape& outline, OpenLinesSet& result, int line_distance, const double& infill_rotation, coord_t shift, std::vector<std::vector<std::vector<InfillLineSegment*>>>& crossings_on_line)
{
    shift += self.getShiftOffsetFromInfillOriginAndRotation(infill_rotation);
    PointMatrix rotation_matrix(infill_rotation);
    NoZigZagConnectorProcessor lines_processor(rotation_matrix, result);
    bool connected_zigzags = false;
    self.generateLinearBasedInfill(outline, result, line_distance, rotation_matrix, lines_processor, connected_zigzags, shift, crossings_on_line);
}
} // namespace n23

//= cura::Infill::generateZigZagInfill
namespace n24
{
using InfillLineSegment = cura::Infill::InfillLineSegment;
void r24(cura::Infill& self, const Shape& outline, OpenLinesSet& result, const coord_t line_distance, const double& infill_rotation, std::vector<std::vector<std::vector<InfillLineSegment*>>>& crossings_on_line)
{
    const coord_t shift = self.getShiftOffsetFromInfillOriginAndRotation(infill_rotation);
    PointMatrix rotation_matrix(infill_rotation);
    ZigzagConnectorProcessor zigzag_processor(rotation_matrix, result, self.use_endpieces_, self.connected_zigzags_, self.skip_some_zags_, self.zag_skip_count_);
    self.generateLinearBasedInfill(outline, result, line_distance, rotation_matrix, zigzag_processor, self.connected_zigzags_, shift, crossings_on_line);
}
} // namespace n24

//= cura::Infill::resolveIntersection
namespace n28
{
using InfillLineSegment = cura::Infill::InfillLineSegment;
void r28(cura::Infill& self, const coord_t at_distance, const Point2LL& intersect, Point2LL& connect_start, Point2LL& connect_end, InfillLineSegment* a, InfillLineSegment* b)
{
    const bool forward_line_a = a->end_ == connect_start;
    const bool forward_line_b = b->start_ == connect_end;
    auto& bend_a = forward_line_a ? a->end_bend_ : a->start_bend_;
    auto& bend_b = forward_line_b ? b->start_bend_ : b->end_bend_;
    auto& end_a = forward_line_a ? a->altered_end_ : a->altered_start_;
    auto& end_b = forward_line_b ? b->altered_start_ : b->altered_end_;
    bend_a.emplace(0, 0);
    bend_b.emplace(0, 0);
    constexpr auto large_enough_vec_len = 0xFFFFFFFF;
    const auto bisect = LinearAlg2D::getBisectorVector(intersect, connect_start, connect_end, large_enough_vec_len);
    const auto offset = ((at_distance / 2) * Point2LL(-bisect.Y, bisect.X)) / large_enough_vec_len;
    const auto q = intersect + offset;
    const auto r = q + bisect;
    const auto s = intersect - offset;
    const auto t = s + bisect;
    bool is_resolved = true;
    is_resolved &= LinearAlg2D::lineLineIntersection(q, r, a->start_, a->end_, bend_a.value()) && LinearAlg2D::pointIsProjectedBeyondLine(bend_a.value(), a->start_, a->end_) == 0;
    is_resolved &= LinearAlg2D::lineLineIntersection(s, t, b->start_, b->end_, bend_b.value()) && LinearAlg2D::pointIsProjectedBeyondLine(bend_b.value(), b->start_, b->end_) == 0;
    is_resolved &= LinearAlg2D::lineLineIntersection(connect_start, connect_end, q, r, end_a) && LinearAlg2D::pointIsProjectedBeyondLine(end_a, connect_start, connect_end) == 0;
    is_resolved &= LinearAlg2D::lineLineIntersection(connect_start, connect_end, s, t, end_b) && LinearAlg2D::pointIsProjectedBeyondLine(end_b, connect_start, connect_end) == 0;
    if (is_resolved)
    {
        connect_start = end_a;
        connect_end = end_b;
    }
    else
    {
        bend_a.reset();
        bend_b.reset();
    }
}
} // namespace n28

//= cura::Infill::includeLines
bool r30(cura::Infill& self, const std::vector<VariableWidthLines>& toolpaths, const Shape& result_polygons, const OpenLinesSet& result_lines, const coord_t minimum_line_length)
{
    coord_t total_length = 0;
    total_length = ranges::accumulate(
        toolpaths,
        total_length,
        [](const coord_t total_lines, const VariableWidthLines& lines)
        {
            return ranges::accumulate(
                lines,
                total_lines,
                [](const coord_t total_line, const ExtrusionLine& line)
                {
                    return total_line + line.length();
                });
        });
    total_length += result_polygons.length();
    total_length += result_lines.length();
    return total_length >= minimum_line_length;
}

//= cura::Infill::InfillLineSegment::swapDirection
void r32(cura::Infill::InfillLineSegment& self)
{
    std::swap(self.start_, self.end_);
    std::swap(self.altered_start_, self.altered_end_);
    std::swap(self.start_bend_, self.end_bend_);
    std::swap(self.next_, self.previous_);
}

//= cura::Infill::InfillLineSegment::appendTo
void r33(cura::Infill::InfillLineSegment& self, OpenPolyline& result_polyline, const bool include_start)
{
    if (include_start)
    {
        result_polyline.push_back(self.altered_start_);
    }
    if (self.start_bend_.has_value())
    {
        result_polyline.push_back(self.start_bend_.value());
    }
    if (self.end_bend_.has_value())
    {
        result_polyline.push_back(self.end_bend_.value());
    }
    result_polyline.push_back(self.altered_end_);
}

//= cura::Infill::calcConnectLines
bool r34(cura::Infill& self, const EFillMethod pattern, const bool zig_zaggify)
{
    return zig_zaggify
        && (pattern == EFillMethod::LINES || pattern == EFillMethod::TRIANGLES || pattern == EFillMethod::GRID || pattern == EFillMethod::CUBIC
            || pattern == EFillMethod::TETRAHEDRAL || pattern == EFillMethod::QUARTER_CUBIC || pattern == EFillMethod::TRIHEXAGON);
}

//= cura::Infill::getLineDistance
coord_t r38(const cura::Infill& self)
{
    return self.line_distance_;
}

//= cura::Infill::getInnerContour
const Shape& r39(const cura::Infill& self)
{
    return self.inner_contour_;
}

//= cura::Infill::InfillLineSegment::InfillLineSegment
void r40(cura::Infill::InfillLineSegment& self, const Point2LL start, const size_t start_segment, const size_t start_polygon, const Point2LL end, const size_t end_segment, const size_t end_polygon)
{
member(self.start_) = start;
member(self.altered_start_) = start;
member(self.start_segment_) = start_segment;
member(self.start_polygon_) = start_polygon;
member(self.end_) = end;
member(self.altered_end_) = end;
member(self.end_segment_) = end_segment;
member(self.end_polygon_) = end_polygon;
member(self.previous_) = nullptr;
member(self.next_) = nullptr;
}

//END
}  // namespace ref
